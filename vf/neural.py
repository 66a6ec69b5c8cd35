"""Workloads for the neural part: configurations, treebanks and runs of the real trainer on the real (tiny) networks."""
import copy
import os
import warnings

from vf import tf1

tf = tf1.install()
warnings.filterwarnings('ignore')

from vf import feat, gen, ref  # noqa: E402
import babylondigger.datamodel as dm  # noqa: E402

SHARED = ['WE_charCNN', 'BiLSTM', 'BiLSTM_CNN', 'Dilated_CNN']
SPLITTINGS = ['pos_joint', 'pos_XF', 'pos_UXF', 'pos_gran']
LEMMAS = ['lemma_dense', 'lemma_suffix', 'lemma_combo', 'lemma_binary']
AGGREGATORS = ['average', 'cnn', 'rnn', 'self-attention']


def shared_names(shared, skip):
    names = ['word_features']
    if shared.startswith('BiLSTM'):
        names.append('bilstm')
        if skip:
            names.append('bilstm_and_word_features')
    if shared == 'BiLSTM_CNN':
        names.append('bilstm_cnn')
    if shared == 'Dilated_CNN':
        names.append('dilated_cnn')
        if skip:
            names.append('dilated_cnn_and_word_features')
    return names


def config(rng, emb=None, tasks=None, shared=None, pos=None, lemma=None, aggregator=None, features=None, **over):
    """hyperparameters of a tiny network"""
    shared = shared or rng.choice(SHARED)
    pos = pos or rng.choice(SPLITTINGS)
    lemma = lemma or rng.choice(LEMMAS)
    aggregator = aggregator or rng.choice(AGGREGATORS)
    skip = rng.choice([None, 'concat']) if shared != 'WE_charCNN' else None
    kernels = [{'size': 3, 'count': 4, 'dilation': 1}, {'size': 2, 'count': 5, 'dilation': 1}][:rng.randint(1, 2)]
    shared_config = {'lstm_cell_size': 3, 'bilstm_layer_count': rng.choice([1, 1, 2]), 'cnn_kernels': kernels,
                     'sparse_input_prob': 0}
    if skip:
        shared_config['skip_connection'] = skip
    names = shared_names(shared, skip)
    available = ['word_characters', 'word_trained_embedding'] + (['word_embedding'] if emb else [])
    chosen = features or (available if rng.random() < 0.3 else rng.sample(available, rng.randint(1, len(available))))
    features_config = {}
    if 'word_embedding' in chosen:
        features_config['word_embedding'] = {'path': emb, 'trainable': rng.random() < 0.5, 'lowercase': rng.random() < 0.5}
        if rng.random() < 0.5:
            features_config['word_embedding']['we_dense_size'] = 4
    if 'word_characters' in chosen:
        features_config['word_characters'] = {
            'segmenter': 'char', 'embed_size': 4, 'min_frequency': rng.choice([1, 1, 2]), 'trainable': True, 'aggregator': aggregator,
            'aggregator_config': {'cnn_kernels': [{'size': 2, 'count': 4, 'dilation': 1}], 'lstm_cell_size': 2, 'bilstm_layer_count': 1},
            'highway_layer': rng.random() < 0.5}
    if 'word_trained_embedding' in chosen:
        features_config['word_trained_embedding'] = {'trainable': True, 'size': 4, 'min_frequency': rng.choice([1, 1, 2]),
                                                     'lowercase': rng.random() < 0.5}
    last = names[-1] if rng.random() < 0.7 else rng.choice(names)
    result = {
        'epochs': 1, 'dropout': 1.0, 'batch_size': rng.choice([1, 2, 3, 8]),
        'tasks': tasks or rng.choice([['pos', 'lemma'], ['pos', 'lemma'], ['lemma', 'pos'], ['pos'], ['lemma']]),
        'nn_config': {
            'general': {'optimizer': {'type': rng.choice(['Adam', 'GD', 'RMSProp']), 'lr_decrease_factor': 2, 'initial_lr': 0.01, 'lr_decay': 0.0}},
            'shared_part': {'builder': shared, 'config': shared_config, 'features_config': features_config},
            'pos': {'builder': 'pos_dense', 'config': {'shared_name': last, 'splitting': pos, 'dense_size': 5}},
            'lemma': {'builder': lemma,
                      'config': {'shared_name': last, 'dense_size': 5, 'cnn_bilstm_dense_size': 3,
                                 'cnn_kernels': [{'size': 3, 'count': 4, 'dilation': 1}]},
                      'features_config': {
                          'lemma_suffix_transformation': {'rules_threshold': rng.choice([0, 0, 1])},
                          'input_subwords': {'min_frequency': 1, 'embed_size': 4, 'segmenter': 'char', 'trainable': True,
                                             'highway_layer': rng.random() < 0.5},
                          'output_subwords': {'min_frequency': 1, 'max_word_length': rng.choice([4, 8]), 'segmenter': 'char'}}}}}
    if rng.random() < 0.5:
        result['nn_config']['pos']['config']['loss_weights'] = {'default': 0.2, 'UPOS': 0.5}
        result['nn_config']['lemma']['config']['loss_weights'] = {'LEMMA': 0.7, 'default': 1.0}
    result.update(over)
    return result


def word_file(path, rng, docs, dim=3):
    """pretrained vectors for some of the words of the documents"""
    words = sorted({w.form.lower() for d in docs for w in gen.doc_words(d)} | {w.form for d in docs for w in gen.doc_words(d)})
    words = [w for w in words if len(w.split()) == 1 and w.split()[0] == w]
    rng.shuffle(words)
    words = words[:max(2, len(words) * 2 // 3)] or ['x', 'y']
    vectors = {w: [round(rng.uniform(-1, 1), 3) for _ in range(dim)] for w in words}
    with open(path, 'w', encoding='utf8') as f:
        if rng.random() < 0.5:
            f.write('{} {}\n'.format(len(vectors), dim))
        for w, v in vectors.items():
            f.write('{} {}\n'.format(w, ' '.join(map(str, v))))
    return vectors


def treebank(rng, docs=3, **kwargs):
    """(plain, real) documents for training: not hostile to the networks, but with different lengths and multiword tokens"""
    pool = feat.pool(rng, 6)
    kwargs.setdefault('pool', pool)
    kwargs.setdefault('gran', True)
    return feat.corpus(rng, docs=docs, **kwargs)


def trainer():
    from babylondigger.neural.tagger import neural_tagger
    return neural_tagger.NeuralTaggerTrainer()


def train(documents, hyper, model_dir, seed=1, dev_tester=None, **kwargs):
    """run the real trainer to the end: list of (scores, tagger)"""
    if dev_tester is None:
        def dev_tester(tagger):
            return {}
    return list(trainer().train(documents, dev_tester=dev_tester, seed=seed, model_dir=model_dir, **copy.deepcopy(hyper), **kwargs))


def tags(doc):
    return [(ref.pos_view(t.pos), t.lemma) for t in doc.tokens]
