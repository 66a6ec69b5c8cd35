"""C42: a whole experiment of the documented program with real networks: printed scores, saved predictions and saved models agree."""
import copy
import json
import os
import re

from vf.checks import c18  # noqa: F401 (stand-in for downloaded BPE models, before anything that imports them)
from vf import evalkit, gen, neural, ref, repo
from vf.checks.c19 import entries_for, make_file
from vf.core import Part
from babylondigger.neural.model import Model
from babylondigger.neural.tagger import neural_tagger

tf = neural.tf
RULE = ('a case is an experiment of the evaluation program (or its grid variant) with real training: treebanks, settings with one or several seeds, '
        'one or several hyperparameters, results directories, with and without removal of models; or the shipped sample of hyperparameters scaled '
        'down; or a wrong configuration; non-trivial when models of several epochs, seeds or settings compete')
ASSUMPTIONS = ['the neural part runs over the TensorFlow 1 interface of the installed TensorFlow 2, on tiny networks',
               'BPE pieces come from a stand-in for the downloaded BPEmb model with the same interface']
FIELDS = ['UPOS', 'XPOS', 'Feats', 'AllTags', 'Lemmas', 'Words', 'Tokens', 'Sentences']


def flat_text(text):
    return ref.parse(text)


class Watch(object):
    """all trainings of a program: scores given by the tester, own answers of every tagger for both sets, losses of the batches"""

    def __init__(self, ctx, dev, test):
        self.ctx, self.sets = ctx, [dev, test]
        self.runs = []

    def __enter__(self):
        self.saved = [(c, c.train) for c in (neural_tagger.NeuralTaggerTrainer, neural_tagger.PretrainedTaggerTrainer)] + [(Model, Model.train)]
        watch = self

        def wrap(old):
            def train(trainer, documents, dev_tester=None, **kwargs):
                run = {'kwargs': kwargs, 'epochs': [], 'losses': []}
                watch.runs.append(run)
                for scores, tagger in old(trainer, documents, dev_tester=dev_tester, **kwargs):
                    docs = [[evalkit.dm.Document.from_document(d, [evalkit.dm.Token.with_syntax(evalkit.dm.Token.with_morphology(t)) for t in d.tokens])
                             for d in group] for group in watch.docs]
                    run['epochs'].append((scores, [[neural.tags(d) for d in tagger.tag(iter(group))] for group in docs]))
                    watch.ctx.event('models')
                    yield scores, tagger
            return train

        def step(model, features, labels):
            loss = self.saved[-1][1](model, features, labels)
            if watch.runs:
                watch.runs[-1]['losses'].append(float(loss))
            return loss
        for c, old in self.saved[:-1]:
            c.train = wrap(old)
        Model.train = step
        # one document per sentence, as the files are read
        self.docs = [[gen.build_document(evalkit.dm, [s]) for d in group for s in d] for group in self.sets]
        return self

    def __exit__(self, *args):
        for c, old in self.saved:
            c.train = old


def annotated(group, answers):
    """plain documents (one per sentence) with the given answers"""
    result = []
    sentences = [s for d in group for s in d]
    if len(answers) != len(sentences):
        raise AssertionError('{} answers for {} sentences'.format(len(answers), len(sentences)))
    for s, tags in zip(sentences, answers):
        k, units = 0, []
        for u in s:
            words = []
            for w in u.words:
                pos, lemma = tags[k]
                k += 1
                upos, xpos, feats = pos if pos is not None else (None, None, {})
                words.append(w._replace(lemma=lemma or None, upos=upos, xpos=xpos, feats=dict(feats or {}), head=None, deprel=None))
            units.append(u._replace(words=words))
        result.append([units])
    return result


def setting(ctx, base, files, seeds, results):
    rng = ctx.rng
    fields = rng.sample(['UPOS', 'XPOS', 'Feats', 'Lemmas', 'AllTags'], rng.randint(1, 3))
    shown = rng.sample(FIELDS, rng.randint(1, 4))
    settings = {'random_seed': seeds, 'model_dir': os.path.join(base, 'models'), 'train_set': {'path': files[0]}, 'dev_set': {'path': files[1]},
                'test_set': {'path': files[2]}, 'cmp_metric': {'fields': fields, 'metric': rng.choice(['f1', 'precision', 'recall', 'aligned_accuracy'])},
                'metric_printer': {'fields': shown}}
    if rng.random() < 0.5:
        settings['train_set']['shuffler'] = {'seed': rng.randrange(100), 'max_batch_size': rng.choice([1, 2, 50])}
    if results:
        settings['dev_set']['results_path'] = os.path.join(base, 'results', 'dev')
        settings['test_set']['results_path'] = os.path.join(base, 'results', 'test')
    return settings


def sets(ctx, base):
    rng = ctx.rng
    train, _ = neural.treebank(rng, docs=2, syntax=True)
    # the other sets repeat some sentences of the training set
    pick = [s for d in train for s in d]
    groups = [train]
    for _ in range(2):
        other = [[s] for s in rng.sample(pick, min(len(pick), rng.randint(1, 3)))] + [gen.document(rng, sentences=1, big=8, syntax=True)]
        rng.shuffle(other)
        groups.append(other)
    files = [evalkit.save(os.path.join(base, n), ref.conllu([s for d in g for s in d])) for n, g in zip(('train', 'dev', 'test'), groups)]
    return groups, files


def run(script, base, settings, hyper, method, delete=False, grid=None):
    argv = ['--settings', evalkit.dump(os.path.join(base, 's.json'), settings), '--method', method,
            '--hyperparams', evalkit.dump(os.path.join(base, 'h.json'), hyper)]
    if grid is not None:
        argv += ['--grid', evalkit.dump(os.path.join(base, 'g.json'), grid)]
    elif delete:
        argv.append('--delete_after')
    return evalkit.script(script, *argv)


def written(directory):
    texts = []
    for root, _, names in os.walk(directory):
        for n in names:
            with open(os.path.join(root, n), encoding='utf-8', newline='') as f:
                texts.append(f.read())
    return texts


def morphology(text):
    return [[[(r[1], r[2], r[3], r[4], r[5]) for r in u[3]] for u in s] for s in ref.parse(text)]


def plain_morphology(docs):
    return morphology(ref.conllu([s for d in docs for s in d]))


def mean(scores, fields):
    result = {}
    for f in fields:
        columns = list(zip(*(s[f] for s in scores)))
        result[f] = tuple(None if all(v is None for v in c) else sum(v for v in c if v is not None) / len(scores) for c in columns)
    return result


def find(tables, position, options, shown):
    """place of the next table which shows one of the scores"""
    for i in range(position, len(tables)):
        if any(evalkit.same_table(tables[i], scores, shown) for scores in options):
            return i
    return None


def judge(ctx, watch, groups, settings, count, out, results, base, rates=()):
    """the expectations for a program that evaluated `count` hyperparameters; returns the expected last tables"""
    fields, index = settings['cmp_metric']['fields'], ['precision', 'recall', 'f1', 'aligned_accuracy'].index(settings['cmp_metric']['metric'])
    shown = settings['metric_printer']['fields']
    seeds = settings['random_seed'] if isinstance(settings['random_seed'], list) else [settings['random_seed']]
    ctx.equal([r['kwargs']['seed'] for r in watch.runs], seeds * count, 'seeds of the trainings')
    tables = evalkit.tables(out)
    position = 0
    best, saved_dev = [], []
    for r in watch.runs:
        ctx.check(len(r['epochs']) >= 1, 'no models')
        computed = []
        for scores, answers in r['epochs']:
            system = [annotated(g, a) for g, a in zip(groups[1:], answers)]
            expected = [evalkit.expected_scores(g, s) for g, s in zip(groups[1:], system)]
            saved_dev.append(plain_morphology(system[0]))
            for m in FIELDS:
                for a, b in zip(evalkit.values(scores[m]), expected[0][m]):
                    ctx.check((a is None) == (b is None) and (a is None or abs(a - b) < 1e-9), 'scores of {} given to the training: {}, expected {}', m, scores[m], expected[0][m])
            # the scores of every epoch are printed in order
            while position < len(tables) and not evalkit.same_table(tables[position], expected[0], shown):
                position += 1
            ctx.check(position < len(tables), 'scores of an epoch are not printed: {}', {m: expected[0][m] for m in shown})
            position += 1
            computed.append((expected, system))
        sums = [sum(e[0][f][index] for f in fields) for e, _ in computed]
        k = max(range(len(sums)), key=lambda i: (sums[i], -i))
        near = [i for i in range(len(sums)) if abs(sums[i] - sums[k]) < 1e-9]
        best.append(computed[near[0]])
        # and those of its best model once more
        at = find(tables, position, [computed[i][0][0] for i in near], shown)
        ctx.check(at is not None, 'scores of the best model of a training are not printed: {}', {m: best[-1][0][0][m] for m in shown})
        position = at + 1
        if len(best) % len(seeds) == 0 and isinstance(settings['random_seed'], list):
            average = mean([e[0] for e, _ in best[-len(seeds):]], FIELDS)
            at = find(tables, position, [average], shown)
            ctx.check(at is not None, 'average scores of hyperparameters are not printed: {}', {m: average[m] for m in shown})
            position = at + 1
            ctx.event('average tables')
        ctx.event('selections', len(sums) > 1)
    averages = []
    for p in range(count):
        chunk = best[p * len(seeds):(p + 1) * len(seeds)]
        averages.append([mean([e[i] for e, _ in chunk], FIELDS) for i in (0, 1)])
    sums = [sum(a[0][f][index] for f in fields) for a in averages]
    top = [i for i in range(count) if abs(sums[i] - max(sums)) < 1e-9]
    # ties of averages: the order of additions may decide
    good = [i for i in top if evalkit.same_table(tables[-1], averages[i][1], shown) and evalkit.same_table(tables[-2], averages[i][0], shown)]
    ctx.check(good, 'printed final scores {}, expected {} (of settings {})', tables[-2:], [[{m: averages[i][j][m] for m in shown} for j in (0, 1)] for i in top], top)
    ctx.event('final tables', 2)
    if len(rates) > 1:
        # the hyperparameters printed with the final results
        shown_rates = re.findall(r'initial_lr\W+([\d.e+-]+)', re.split(r'(?m)^Metrics', out)[-3])
        ctx.check(shown_rates and any(all(float(x) == rates[i] for x in shown_rates) for i in good), 'printed final learning rates: {}, best {}',
                  shown_rates, [rates[i] for i in good])
        ctx.event('final hyperparameters')
    if results:
        found = [morphology(t) for t in written(os.path.join(base, 'results', 'dev'))]
        ctx.equal(sorted(map(repr, found)), sorted(map(repr, saved_dev)), 'saved answers for the development set')
        found = sorted(repr(morphology(t)) for t in written(os.path.join(base, 'results', 'test')))
        options = [sorted(repr(plain_morphology(s[1])) for _, s in best[i * len(seeds):(i + 1) * len(seeds)]) for i in good]
        ctx.check(found in options, 'saved answers for the test set: {}, expected one of {}', found, options)
        ctx.event('saved answers', len(saved_dev) + len(found))
    return tables


def losses(ctx, watch, out):
    """every printed loss of an epoch is the mean of the losses of its batches"""
    printed = [float(x) for x in re.findall(r'loss after epoch \d+:\s*([-+.\deinfa]+)', out)]
    epochs = sum(len(r['epochs']) for r in watch.runs)
    if len(printed) != epochs:
        ctx.check(not printed, 'losses of {} epochs are printed, there are {}', len(printed), epochs)
        return
    k = 0
    for r in watch.runs:
        n = len(r['losses']) // len(r['epochs'])
        for e in range(len(r['epochs'])):
            values = r['losses'][e * n:(e + 1) * n]
            mean_loss = sum(values) / n  # not finite when a rare lemma rule is not kept: its words have no possible label
            ctx.check(mean_loss == printed[k] or mean_loss != mean_loss and printed[k] != printed[k] or abs(mean_loss - printed[k]) < 1e-4 + 1e-5 * abs(printed[k]), 'printed loss of epoch {}: {}, batches {}', e, printed[k], values)
            ctx.event('printed losses')
            k += 1


def hyperparameters(ctx, groups, base, epochs):
    rng = ctx.rng
    emb = os.path.join(base, 'emb')
    neural.word_file(emb, rng, groups[0])
    hyper = neural.config(rng, emb, shared=neural.SHARED[ctx.index % 4], lemma=neural.LEMMAS[ctx.index // 2 % 4], epochs=epochs,
                          tasks=rng.choice([['pos', 'lemma'], ['lemma', 'pos'], ['pos', 'lemma'], ['pos']]))
    hyper['nn_config']['general']['optimizer'].update(type='Adam', initial_lr=rng.choice([0.05, 0.2]))
    return hyper


def experiment(ctx):
    rng = ctx.rng
    base = os.path.join(ctx.scratch, 'c42', str(ctx.index))
    groups, files = sets(ctx, base)
    seeds = rng.choice([3, [5], [1, 2], [2, 1]])
    n = len(seeds) if isinstance(seeds, list) else 1
    results = rng.random() < 0.7
    settings = setting(ctx, base, files, seeds, results)
    hyper = hyperparameters(ctx, groups, base, rng.randint(1, 2) if n > 1 else rng.randint(1, 4))
    script, grid, delete, count = 'evaluation.py', None, False, 1
    kind = ctx.index % 3
    params, rates = hyper, ()
    if kind == 1:
        params = [hyper, copy.deepcopy(hyper)]
        params[1]['nn_config']['general']['optimizer']['initial_lr'] = 0.5
        delete, count, rates = rng.random() < 0.5, 2, [p['nn_config']['general']['optimizer']['initial_lr'] for p in params]
    elif kind == 2:
        script, delete, count = 'grid_eval.py', True, 2
        grid = {'lr': [{'nn_config': {'general': {'optimizer': {'initial_lr': v}}}} for v in (0.02, 0.3)]}
        rates = [0.02, 0.3]
    ctx.case((params, groups, settings), nontrivial=count * n * hyper['epochs'] > 1)
    before = repr(settings), repr(params)
    with Watch(ctx, groups[1], groups[2]) as watch:
        out, error = run(script, base, settings, params, 'neural', delete, grid)
    if error is not None:
        raise error
    ctx.equal(len(watch.runs), count * n, 'number of trainings')
    tables = judge(ctx, watch, groups, settings, count, out, results, base, rates)
    losses(ctx, watch, out)
    ctx.equal((repr(settings), repr(params)), before, 'settings')
    ctx.event('programs run')
    if delete:
        ctx.check(not os.path.exists(settings['model_dir']), 'models are left: {}', settings['model_dir'])
        return
    if count > 1:
        return
    # the saved models give the same results again
    evaluate = dict(copy.deepcopy(settings))
    for s in ('dev_set', 'test_set'):
        evaluate[s].pop('results_path', None)
    with Watch(ctx, groups[1], groups[2]) as again:
        out, error = run('evaluation.py', base, evaluate, params, 'neural_pretrained')
    if error is not None:
        raise error
    ctx.equal([[a for _, a in r['epochs']] for r in again.runs], [[a for _, a in r['epochs']] for r in watch.runs], 'answers of the pretrained models')
    judge(ctx, again, groups, evaluate, 1, out, False, base)
    ctx.equal(evalkit.tables(out)[-2:], tables[-2:], 'final scores of the pretrained models')
    ctx.event('pretrained programs')


def shrink(value, key=None):
    """the sample with small sizes and without dilation"""
    if isinstance(value, dict):
        return {k: shrink(v, k) for k, v in value.items()}
    if isinstance(value, list):
        return [shrink(v, key) for v in value]
    if key == 'dilation':
        return 1
    if key in ('count', 'embed_size', 'dense_size', 'lstm_cell_size', 'we_dense_size', 'cnn_bilstm_dense_size') or key == 'size' and value > 10:
        return min(value, 4)
    return value


def sample(ctx):
    """the shipped hyperparameters and settings, with paths filled in"""
    rng = ctx.rng
    base = os.path.join(ctx.scratch, 'c42s', str(ctx.index))
    groups, files = sets(ctx, base)
    resources = os.path.join(os.path.dirname(repo.PKG), 'resources')
    names = [n for n in os.listdir(resources) if n.startswith('hyper')]
    with open(os.path.join(resources, names[0]), encoding='utf-8') as f:
        hyper = shrink(json.load(f))
    with open(os.path.join(resources, 'settings.json'), encoding='utf-8') as f:
        settings = json.load(f)
    words = [w.form for d in groups[0] for w in gen.doc_words(d)]
    vectors = {}
    for name, keys in (('words', words), ('chars', [c for w in words for c in w]), ('bpe', [w[:k] for w in words for k in (1, 2, 3)]), ('morfessor', words)):
        vectors[name] = os.path.join(base, name)
        make_file(ctx, entries_for(rng, keys, 4), 4, rng.random() < 0.5, vectors[name])
    import morfessor
    model = morfessor.BaselineModel()
    model.load_data([(1, tuple(w)) for w in words], count_modifier=lambda x: 1)
    model.train_batch()
    path = os.path.join(base, 'morfessor.bin')
    morfessor.MorfessorIO().write_binary_model_file(path, model)
    features = hyper['nn_config']['shared_part']['features_config']
    features['word_embedding']['path'] = vectors['words']
    features['bpe_subwords']['embedding_path'] = vectors['bpe']
    features['morfessor_subwords']['embedding_path'] = vectors['morfessor']
    features['morfessor_subwords']['segmenter_config']['path'] = path
    features['word_trained_embedding']['min_frequency'] = 1
    hyper['nn_config']['lemma']['features_config']['input_subwords']['embedding_path'] = vectors['chars']
    hyper['epochs'] = 2
    for key, aggregator in (('word_characters', None), ('bpe_subwords', None), ('morfessor_subwords', None)):
        if rng.random() < 0.3:
            del features[key]
    results = True
    settings.update(random_seed=settings['random_seed'][:2], model_dir=os.path.join(base, 'models'))
    settings['train_set']['path'] = files[0]
    for name, file in (('dev', files[1]), ('test', files[2])):
        settings[name + '_set'] = {'path': file, 'results_path': os.path.join(base, 'results', name)}
    ctx.case((hyper, settings, groups))
    with Watch(ctx, groups[1], groups[2]) as watch:
        out, error = run('evaluation.py', base, settings, hyper, 'neural', rng.random() < 0.3)
    if error is not None:
        raise error
    judge(ctx, watch, groups, settings, 1, out, results, base)
    losses(ctx, watch, out)
    ctx.event('samples')


def break_shared(name, **values):
    def edit(hyper, rng):
        part = hyper['nn_config']['shared_part']
        part['builder'] = name
        part['config'].pop('skip_connection', None)
        for k, v in values.items():
            if v is None:
                part['config'].pop(k, None)
            else:
                part['config'][k] = v
        shared = neural.shared_names(name, False)[-1]
        for task in ('pos', 'lemma'):
            hyper['nn_config'][task]['config']['shared_name'] = shared
    return edit


def set_value(*path):
    def edit(hyper, rng):
        for k in path[:-2]:
            hyper = hyper[k]
        hyper[path[-2]] = path[-1]
    return edit


WRONG = {
    'sum of different sizes (BiLSTM)': break_shared('BiLSTM', skip_connection='sum', lstm_cell_size=23),
    'sum of different sizes (CNN)': break_shared('Dilated_CNN', skip_connection='sum', cnn_kernels=[{'size': 3, 'count': 47, 'dilation': 1}]),
    'unknown skip connection (BiLSTM)': break_shared('BiLSTM', skip_connection='product'),
    'unknown skip connection (CNN)': break_shared('Dilated_CNN', skip_connection='mean'),
    'no BiLSTM layers': break_shared('BiLSTM', bilstm_layer_count=0),
    'negative number of BiLSTM layers': break_shared('BiLSTM_CNN', bilstm_layer_count=-1),
    'no kernels (CNN)': break_shared('Dilated_CNN', cnn_kernels=None),
    'no kernels (BiLSTM)': break_shared('BiLSTM_CNN', cnn_kernels=None),
    'unknown shared builder': set_value('nn_config', 'shared_part', 'builder', 'Transformer'),
    'unknown task builder': set_value('nn_config', 'pos', 'builder', 'pos_sparse'),
    'unknown lemmatizer': set_value('nn_config', 'lemma', 'builder', 'lemma_rules'),
    'unknown task': set_value('tasks', ['pos', 'syntax']),
    'unknown optimizer': set_value('nn_config', 'general', 'optimizer', 'type', 'SGD2'),
    'unknown splitting': set_value('nn_config', 'pos', 'config', 'splitting', 'pos_FX'),
    'unknown shared features': set_value('nn_config', 'pos', 'config', 'shared_name', 'bilstm_and_words'),
    'unknown segmenter': set_value('nn_config', 'shared_part', 'features_config', {'word_characters': {
        'segmenter': 'letters', 'embed_size': 4, 'min_frequency': 1, 'trainable': True, 'aggregator': 'average', 'highway_layer': False}}),
    'unknown aggregator': set_value('nn_config', 'shared_part', 'features_config', {'word_characters': {
        'segmenter': 'char', 'embed_size': 4, 'min_frequency': 1, 'trainable': True, 'aggregator': 'maximum', 'highway_layer': False}}),
    'missing embeddings': set_value('nn_config', 'shared_part', 'features_config', {'word_embedding': {'path': '/nonexistent', 'trainable': True, 'lowercase': True}}),
}


def refused(ctx):
    """wrong configurations are not trained"""
    rng = ctx.rng
    base = os.path.join(ctx.scratch, 'c42r', str(ctx.index))
    groups, files = sets(ctx, base)
    settings = setting(ctx, base, files, 3, True)
    hyper = hyperparameters(ctx, groups, base, 1)
    hyper['tasks'] = ['pos', 'lemma']
    method = 'neural'
    names = sorted(WRONG) + ['unknown method']
    name = names[ctx.index % len(names)]
    if name in WRONG:
        WRONG[name](hyper, rng)
    else:
        method = rng.choice(['Neural', 'neural2', 'pretrained', ''])
    ctx.case((name, hyper, groups))
    with Watch(ctx, groups[1], groups[2]) as watch:
        out, error = run('evaluation.py', base, settings, hyper, method)
    ctx.event('wrong configurations')
    ctx.check(error is not None, '{}: accepted', name)
    ctx.equal(evalkit.tables(out), [], 'printed scores for ' + name)
    ctx.equal([r['losses'] for r in watch.runs if r['losses']], [], 'training with ' + name)
    ctx.equal(written(os.path.join(base, 'models')) + written(os.path.join(base, 'results')), [], 'written files for ' + name)


def sums(ctx):
    """sum connections of equal sizes work"""
    rng = ctx.rng
    base = os.path.join(ctx.scratch, 'c42u', str(ctx.index))
    groups, files = sets(ctx, base)
    settings = setting(ctx, base, files, 3, True)
    hyper = hyperparameters(ctx, groups, base, 1)
    part = hyper['nn_config']['shared_part']
    part['features_config'] = {'word_trained_embedding': {'trainable': True, 'size': 6, 'min_frequency': 1, 'lowercase': True}}
    part['builder'] = ['BiLSTM', 'BiLSTM_CNN', 'Dilated_CNN'][ctx.index % 3]
    part['config'].update(skip_connection='sum', lstm_cell_size=3, cnn_kernels=[{'size': 3, 'count': 6, 'dilation': 1}])
    for task in ('pos', 'lemma'):
        hyper['nn_config'][task]['config']['shared_name'] = rng.choice(neural.shared_names(part['builder'], True)[1:])
    ctx.case((hyper, groups))
    with Watch(ctx, groups[1], groups[2]) as watch:
        out, error = run('evaluation.py', base, settings, hyper, 'neural')
    if error is not None:
        raise error
    judge(ctx, watch, groups, settings, 1, out, True, base)
    ctx.event('sums')


def setup(ctx):
    pass


setup.big = True
WALL = 400


def parts(tier):
    return [Part('experiment', experiment, 30, 240, timeout=300, required=['programs run', 'pretrained programs', 'final hyperparameters', 'average tables', 'saved answers', 'final tables']),
            Part('sample', sample, 6, 40, timeout=300, required=['samples']),
            Part('refused', refused, 19, 95, timeout=120, required=['wrong configurations']),
            Part('sums', sums, 6, 36, timeout=200, required=['sums'])]
