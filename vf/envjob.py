"""The job of C41: everything that the toolkit makes of the files of a directory, as plain data. python -m vf.envjob NEURAL DIRECTORY OUTPUT"""
import io
import json
import os
import sys
import traceback

from vf import repo

if __name__ == '__main__':
    repo.install()


def observe(directory, neural):
    """results for the relative file names in the current directory or absolute ones; files are written to directory/out"""
    from vf import feat, ref
    from babylondigger.evaluation import conll17_ud_eval as ud
    from babylondigger.evaluation.conllu_io import CoNLLUReader, CoNLLUWriter
    from babylondigger.evaluation.dataset import CoNLLUDataSet, ShuffledDataset
    from babylondigger.features import extractors as ex

    def path(name):
        return os.path.join(directory, name)

    result = {}
    dataset = CoNLLUDataSet(path('gold.conllu'))
    docs = list(dataset)
    result['dataset'] = [repr(ref.doc_view(d)) for d in docs]
    result['reader'] = [repr(ref.doc_view(d)) for d in CoNLLUReader(3).read_from_file(path('gold.conllu'))]
    result['shuffled'] = [repr(ref.doc_view(d)) for d in ShuffledDataset(dataset, seed=7, max_batch_size=4)]
    os.makedirs(path('out'), exist_ok=True)
    CoNLLUWriter().write_to_file(path('out/written.conllu'), *docs)
    CoNLLUWriter([2, 5]).write_to_file(path('out/columns.conllu'), *docs)
    system = ud.load_conllu_file(path('system.conllu'))
    scores = ud.evaluate(ud.load_conllu_file(path('gold.conllu')), system)
    result['scores'] = {m: [s.precision, s.recall, s.f1, s.aligned_accuracy] for m, s in scores.items()}
    tokens = feat.tokens(docs)
    extractor, _, initializer = ex.WordEmbeddingFeatureExtractorBuilder('f', 'init', path('words'), True).build(docs)
    rows = {int(i): [float(x) for x in v] for i, v in initializer.initial_values()['init']}
    result['word vectors'] = [rows.get(int(extractor.get_features(t)['f'])) for t in tokens]
    config = {'embedding_path': path('chars'), 'segmenter': 'char'}
    extractor, _, initializer = ex.SubwordEmbeddingFeatureExtractorBuilder('f', 'init', config).build(docs)
    rows = {int(i): [float(x) for x in v] for i, v in initializer.initial_values()['init']}
    result['character vectors'] = [[rows.get(int(i)) for i in extractor.get_features(t)['f']] for t in tokens]
    if neural:
        from vf import evalkit
        from babylondigger.evaluation import evaluation
        from babylondigger.datamodel import Pos
        from babylondigger.tagger import StubTagger
        tester = evaluation.FileTaggerTester(path('gold.conllu'), path('out'))
        scores = tester.test(StubTagger(Pos('NOUN')), 'params-0/answers.conll')
        result['tester'] = {m: [s.precision, s.recall, s.f1, s.aligned_accuracy] for m, s in scores.items()}
        settings = {'random_seed': [1, 2], 'model_dir': path('models'), 'train_set': {'path': path('gold.conllu'), 'shuffler': {'seed': 5, 'max_batch_size': 3}},
                    'dev_set': {'path': path('gold.conllu'), 'results_path': path('out')},
                    'test_set': {'path': path('system.conllu'), 'results_path': path('out')},
                    'cmp_metric': {'fields': ['UPOS', 'Lemmas'], 'metric': 'f1'}, 'metric_printer': {'fields': ['UPOS', 'Lemmas', 'Words']}, 'comment': 'опыт'}
        for name, value in (('settings', settings), ('hyper', [{'epochs': 2, 'comment': 'эпохи'}, {'epochs': 1}])):
            with open(path(name), 'w', encoding='utf-8') as f:
                json.dump(value, f, ensure_ascii=False)
        output, error = evalkit.script('evaluation.py', '--settings', path('settings'), '--method', 'stub', '--hyperparams', path('hyper'))
        result['experiment'] = [evalkit.tables(output), repr(error)]
        for name, value in (('hypers', {'z': 'слово', 'y': 1}), ('grid', {'параметр': [{'z': 'я'}, {'z': 2}]})):
            with open(path(name), 'w', encoding='utf-8') as f:
                json.dump(value, f, ensure_ascii=False)
        output, error = evalkit.script('grid_eval.py', '--settings', path('settings'), '--method', 'stub', '--hyperparams', path('hypers'), '--grid', path('grid'))
        result['grid'] = [evalkit.tables(output), repr(error)]
    files = {}
    for root, _, names in os.walk(path('out')):
        for n in names:
            with open(os.path.join(root, n), 'rb') as f:
                files[os.path.relpath(os.path.join(root, n), path('out'))] = f.read().decode('latin-1')
    result['files'] = files
    return json.loads(json.dumps(result, sort_keys=True))


if __name__ == '__main__':
    out = sys.argv[3]
    try:
        value = observe(sys.argv[2], sys.argv[1] == '1')
    except Exception:
        value = {'error': traceback.format_exc()[-1500:]}
    with io.open(out, 'w', encoding='ascii') as f:
        json.dump(value, f)
