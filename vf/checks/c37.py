"""C37: embeddings are updated in training exactly when their configuration says so, and only those of words that occur."""
import copy
import os

import numpy as np

from vf import feat, gen, neural
from vf.core import Part, Skip
from vf.checks.c19 import entries_for, make_file
from babylondigger.features.provider import FeatureExtractorBuilderProvider
from babylondigger.neural.model import Model
from babylondigger.neural.tagger.network_provider import get_nn_builder

tf = neural.tf
RULE = ('a case is a treebank, embedding files of words and characters and a network with every combination of fixed and trainable embeddings '
        'under every optimizer; the embedding matrices are read from the session before and after training steps; non-trivial when the '
        'network has both fixed and trainable embeddings')
ASSUMPTIONS = ['the neural part runs over the TensorFlow 1 interface of the installed TensorFlow 2, on tiny networks',
               'characters without pretrained embeddings are always trained: nothing is specified about `trainable` there']
WORDS, CHARS, TRAINED, LEMMA = 131, 137, 139, 149  # sizes of embeddings, nothing else in the tiny networks has them


def settings(ctx, texts, docs):
    rng, k = ctx.rng, ctx.index
    files, tables = {}, {}
    candidates = {WORDS: [t.text for t in feat.tokens(docs)] + [t.text.lower() for t in feat.tokens(docs)],
                  CHARS: [c for t in feat.tokens(docs) for c in t.text], LEMMA: [c for t in feat.tokens(docs) for c in t.text]}
    for dim, keys in candidates.items():
        # small values: large ones saturate the network, and then nothing moves
        entries = [(w, [round(x / 20, 6) for x in v]) for w, v in entries_for(rng, keys, dim)]
        if k % 8 == 5 and dim != LEMMA:
            # a large file of words from elsewhere
            more = [('zz{}'.format(n), [round(rng.uniform(-1, 1), 2) for _ in range(dim)]) for n in range(rng.choice([250, 1100]))]
            entries = more + entries if rng.random() < 0.5 else entries + more
        tables[dim] = dict(entries)
        files[dim] = make_file(ctx, entries, dim, rng.random() < 0.5, os.path.join(ctx.scratch, 'c37-{}-{}'.format(dim, k)))
    chosen = rng.choice([['word_embedding', 'word_characters', 'word_trained_embedding'], ['word_embedding', 'word_trained_embedding'],
                         ['word_embedding', 'word_characters'], ['word_characters', 'word_trained_embedding'], ['word_embedding']])
    lemma = rng.choice(['lemma_combo', 'lemma_dense', 'lemma_suffix'])
    hyper = neural.config(rng, files[WORDS], shared=rng.choice(['WE_charCNN', 'BiLSTM', 'Dilated_CNN', 'BiLSTM_CNN']), features=chosen, lemma=lemma,
                          aggregator=neural.AGGREGATORS[k // 3 % 4], tasks=rng.choice([['pos', 'lemma'], ['lemma', 'pos'], ['pos'], ['lemma']]))
    hyper['nn_config']['general']['optimizer']['type'] = ['GD', 'Adam', 'RMSProp'][k % 3]
    fc = hyper['nn_config']['shared_part']['features_config']
    wanted = {}

    def flag(dim, config):
        config['trainable'] = wanted[dim] = rng.random() < 0.5
    if 'word_embedding' in fc:
        flag(WORDS, fc['word_embedding'])
    if 'word_trained_embedding' in fc:
        fc['word_trained_embedding']['size'] = TRAINED
        flag(TRAINED, fc['word_trained_embedding'])
    if 'word_characters' in fc:
        fc['word_characters'].update(embedding_path=files[CHARS], embed_size=CHARS, highway_layer=rng.random() < 0.4)
        flag(CHARS, fc['word_characters'])
    if lemma == 'lemma_combo' and 'lemma' in hyper['tasks']:
        config = hyper['nn_config']['lemma']['features_config']['input_subwords']
        config.update(embedding_path=files[LEMMA], embed_size=LEMMA, highway_layer=False)
        flag(LEMMA, config)
    return hyper, wanted, tables


def used_ids(features, dim):
    name = {WORDS: 'words', CHARS: 'characters', TRAINED: 'trained_words', LEMMA: 'input_subwords'}[dim]
    return {int(i) for i in np.asarray(features[name]).reshape(-1)}


def run(ctx, hyper, docs, wanted, tables, seed):
    """train a little; the set of trainable embeddings that have moved"""
    nn = copy.deepcopy(hyper['nn_config'])
    builder = get_nn_builder(nn['shared_part'], [nn[t] for t in hyper['tasks']], nn['general'], seed)
    features, labels, _, initializer = FeatureExtractorBuilderProvider(builder.feature_providers()).build(docs)
    network, graph = builder.build(initializer.shapes())
    sents = feat.sentences(docs)
    sents = sents[:max(1, len(sents) * 2 // 3)]
    with tf.Session(graph=graph) as session:
        model = Model(network, session)
        model.initialize(**initializer.initial_values())
        variables = {}
        for v in graph.get_collection('variables'):
            shape = v.shape.as_list()
            if len(shape) == 2 and shape[1] in wanted and shape[0] != shape[1]:  # square ones are those of highways
                variables.setdefault(shape[1], []).append(v)
        start, chosen = {}, {}
        for dim in wanted:
            ctx.check(variables.get(dim), 'no matrix of embeddings of size {}', dim)
            for v in variables[dim]:  # the rest are the slots of the optimizer: constant
                value = session.run(v)
                if value.min() != value.max():
                    ctx.check(dim not in chosen, 'two matrices of embeddings of size {}', dim)
                    chosen[dim], start[dim] = v, value
            ctx.check(dim in chosen, 'the embeddings of size {} are constant', dim)
            if dim in tables:
                rows = {tuple(np.float32(r).tolist()) for r in tables[dim].values()}
                found = {tuple(r) for r in start[dim].tolist()}
                ctx.check(rows <= found, 'the initial embeddings of size {} are not those of the file', dim)
        others = [v for v in graph.get_collection('trainable_variables') if v.name not in {c.name for c in chosen.values()}]
        before = session.run(others)
        used, losses = {dim: set() for dim in wanted}, []
        for step in range(5):
            batch = ctx.rng.sample(sents, min(len(sents), ctx.rng.randint(1, 3)))
            fs, ls = features.get_features(batch), labels.get_features(batch)
            for dim in wanted:
                used[dim] |= used_ids(fs, dim)
            ls['learning_rate'], ls['dropout_probability'] = 0.2, ctx.rng.choice([1.0, 1.0, 0.7])
            losses.append(abs(float(model.train(fs, ls))))
            ctx.event('steps')
            if step == 2:
                model.predict(features.get_features(sents))
        if max(losses) < 1e-6:
            raise Skip()  # one label only: there is nothing to learn
        ctx.check(any((a != b).any() for a, b in zip(before, session.run(others))), 'training changed nothing but embeddings')
        moved = set()
        for dim in wanted:
            value = session.run(chosen[dim])
            changed = {int(i) for i in np.nonzero((value != start[dim]).any(axis=1))[0]}
            if not wanted[dim]:
                ctx.event('fixed embeddings')
                ctx.equal(changed, set(), 'changed rows of fixed embeddings of size {}'.format(dim))
            else:
                ctx.event('trainable embeddings')
                if changed:
                    moved.add(dim)
                ctx.event('rows of words that did not occur', len(value) - len(used[dim]))
                ctx.check(changed <= used[dim], 'embeddings {} changed, but their words were not in the training set ({} of size {})',
                          sorted(changed - used[dim]), hyper['nn_config']['general']['optimizer']['type'], dim)
        return moved


def trainable(ctx):
    texts, docs = neural.treebank(ctx.rng, docs=2)
    hyper, wanted, tables = settings(ctx, texts, docs)
    ctx.case((hyper, wanted, texts), nontrivial=len(set(wanted.values())) == 2)
    missing = {d for d, t in wanted.items() if t}
    for seed in range(1, 13):
        missing -= run(ctx, hyper, docs, wanted, tables, seed)
        if not missing:
            return
    ctx.check(False, 'trainable embeddings of sizes {} were not updated', sorted(missing))


def experiment(ctx):
    """the same through the trainer: the embeddings in the saved models of the first and the last epoch"""
    rng = ctx.rng
    texts, docs = neural.treebank(rng, docs=2)
    hyper, wanted, tables = settings(ctx, texts, docs)
    hyper.update(epochs=3, batch_size=2)
    hyper['nn_config']['general']['optimizer']['initial_lr'] = 0.2
    path = os.path.join(ctx.scratch, 'c37-models-{}'.format(ctx.index))
    ctx.case((hyper, wanted, texts), nontrivial=len(set(wanted.values())) == 2)
    neural.train(feat.dataset(rng, docs), hyper, path)
    values = []
    for epoch in (0, 2):
        model = os.path.join(path, 'epoch-{}'.format(epoch))
        prefixes = [os.path.join(model, f[:-len('.index')]) for f in os.listdir(model) if f.endswith('.index')]
        ctx.equal(len(prefixes), 1, 'number of checkpoints')
        reader = tf.train.load_checkpoint(prefixes[0])
        values.append({n: reader.get_tensor(n) for n, s in reader.get_variable_to_shape_map().items() if len(s) == 2 and s[1] in wanted and s[0] != s[1]})
    for dim in wanted:
        if dim == TRAINED:
            continue
        found = False
        for value in values[-1].values():
            if value.shape[1] != dim:
                continue
            rows = {tuple(r) for r in value.tolist()}
            if {tuple(np.float32(r).tolist()) for r in tables[dim].values()} <= rows:
                found = True
        if not wanted[dim]:
            ctx.event('fixed embeddings')
            ctx.check(found, 'no saved matrix has the fixed embeddings of the file of size {}', dim)
    for dim in wanted:
        if not wanted[dim]:
            first = sorted(tuple(map(tuple, v.tolist())) for v in values[0].values() if v.shape[1] == dim)
            last = sorted(tuple(map(tuple, v.tolist())) for v in values[1].values() if v.shape[1] == dim)
            ctx.equal(len(last), 1, 'number of matrices of fixed embeddings of size {}'.format(dim))
            ctx.check(first == last, 'fixed embeddings of size {} differ between epochs', dim)


def setup(ctx):
    pass


setup.big = True
WALL = 400


def parts(tier):
    return [Part('trainable', trainable, 48, 480, timeout=300, required=['fixed embeddings', 'trainable embeddings', 'rows of words that did not occur']),
            Part('experiment', experiment, 12, 120, timeout=300, required=['fixed embeddings'])]
