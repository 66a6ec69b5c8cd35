"""C34: the answers for a sentence do not depend on its batch, and the loss is a weighted mean over the words of the batch."""
import copy
import math
import os

import numpy as np

from vf import feat, gen, neural
from vf.core import Part
from babylondigger.features.provider import FeatureExtractorBuilderProvider
from babylondigger.neural.model import Model
from babylondigger.neural.tagger.network_provider import get_nn_builder

RULE = ('a case is a configuration without convolutions over padding, a treebank and batches of sentences of different lengths; answers '
        'and losses of batches are compared with those of single sentences, losses under different weights and under different labels with each other; '
        'non-trivial when a batch has sentences of different lengths')
ASSUMPTIONS = ['the neural part runs over the TensorFlow 1 interface of the installed TensorFlow 2, on tiny networks',
               'losses are compared with a relative tolerance of 1e-4',
               'convolutions over words of a sentence or characters of a word see the padding by design: they are not in the scope']


def case(ctx, tag, **over):
    rng = ctx.rng
    texts, docs = neural.treebank(rng, docs=rng.randint(2, 3))
    if over.get('long'):
        more, extra = neural.treebank(rng, docs=1, sentences=1, n=over['long'])
        texts, docs = texts + more, docs + extra
    emb = os.path.join(ctx.scratch, 'c34-emb-{}-{}'.format(tag, ctx.index))
    neural.word_file(emb, rng, texts)
    k = ctx.index
    hyper = neural.config(rng, emb, shared=over.get('shared') or neural.SHARED[k % 3], pos=neural.SPLITTINGS[(k // 3) % 4],
                          lemma=over.get('lemma') or ['lemma_dense', 'lemma_suffix', 'lemma_binary'][(k + k // 3) % 3], aggregator='average',
                          tasks=over.get('tasks'))
    hyper['nn_config']['general']['optimizer']['type'] = 'GD'
    hyper['nn_config']['lemma']['features_config']['lemma_suffix_transformation']['rules_threshold'] = 0
    return texts, docs, hyper


def network(hyper, docs, seed=1):
    nn = copy.deepcopy(hyper['nn_config'])
    builder = get_nn_builder(nn['shared_part'], [nn[t] for t in hyper['tasks']], nn['general'], seed)
    features, labels, _, initializer = FeatureExtractorBuilderProvider(builder.feature_providers()).build(docs)
    net, graph = builder.build(initializer.shapes())
    model = Model.new(net, graph)
    model.initialize(**initializer.initial_values())

    def loss(sentences, lr=0.0, dropout=1.0):
        ls = labels.get_features(sentences)
        ls['learning_rate'], ls['dropout_probability'] = lr, dropout
        return float(model.train(features.get_features(sentences), ls))

    def answers(sentences):
        out = model.predict(features.get_features(sentences))
        return [{name: np.asarray(v)[i][:s.tokens_count].tolist() for name, v in out.items()} for i, s in enumerate(sentences)]
    return model, loss, answers


def close(a, b):
    return a == b or (math.isfinite(a) and math.isfinite(b) and abs(a - b) <= 1e-4 * max(abs(a), abs(b)) + 1e-6)


def lengthen(doc):
    return [sent + [gen.Unit('longlongword', [sent[0].words[0]._replace(form='longlongword', lemma='longlong')], False, True)] for sent in doc]


def batches(ctx):
    # the padding of characters is the same in all batches if every sentence has a long word
    combo = ctx.index % 6 == 4
    texts, docs, hyper = case(ctx, 'b', long=[0, 0, 0, 45, 0, 0, 70][ctx.index % 7], lemma='lemma_combo' if combo else None)
    if combo:
        texts = [lengthen(d) for d in texts]
        docs = [gen.build_document(neural.dm, d) for d in texts]
        ctx.event('lemma_combo')
    rng = ctx.rng
    # sentences which the network has not seen in training: with unknown words and long words
    others = [feat.simple_doc(rng, sentences=2, gran=True, n=rng.choice([1, 2, 15])) for _ in range(2)]
    if combo:
        others = [lengthen(d) for d in others]
    others = [gen.build_document(neural.dm, d) for d in others]
    own = feat.sentences(docs)
    pool = own + feat.sentences(others)
    ctx.case((texts, hyper), nontrivial=len({s.tokens_count for s in pool}) > 1)
    model, loss, answers = network(hyper, docs)
    with model:
        for _ in range(6):
            loss(rng.sample(own, min(2, len(own))), lr=0.3)
        alone = {id(s): answers([s])[0] for s in pool}
        losses = {id(s): loss([s]) for s in own}
        for n in range(12):
            chosen = rng.sample(pool, min(len(pool), rng.randint(2, 6)))
            if n == 0:
                chosen = sorted(pool, key=lambda s: s.tokens_count)
            elif n == 1:
                chosen = [pool[-1]] * 3
            got = answers(chosen)
            ctx.event('batches predicted')
            for s, g in zip(chosen, got):
                ctx.event('sentences in batches')
                ctx.equal(g, alone[id(s)], 'answers for a sentence of {} words in a batch of {}'.format(
                    s.tokens_count, [x.tokens_count for x in chosen]))
            known = [s for s in chosen if id(s) in losses]
            if known:
                expected = sum(losses[id(s)] * s.tokens_count for s in known) / sum(s.tokens_count for s in known)
                found = loss(known)
                ctx.event('losses')
                if len({s.tokens_count for s in known}) > 1:
                    ctx.event('losses over padding')
                ctx.check(close(found, expected), 'loss {} of a batch of {} words, but its sentences give {}', found,
                          [s.tokens_count for s in known], expected)
        for s in pool:
            ctx.equal(answers([s])[0], alone[id(s)], 'answers after steps with learning rate 0')


def weights(ctx):
    """the loss is linear in the weights"""
    rng = ctx.rng
    task = ['pos', 'lemma', 'both'][ctx.index % 3]
    lemma = ['lemma_dense', 'lemma_suffix', 'lemma_combo', 'lemma_binary'][ctx.index // 3 % 4]
    texts, docs, hyper = case(ctx, 'w', tasks={'pos': ['pos'], 'lemma': ['lemma'], 'both': ['pos', 'lemma']}[task], lemma=lemma,
                              shared=rng.choice(['WE_charCNN', 'BiLSTM']))
    if lemma == 'lemma_binary':
        # rules dropped by the threshold have infinite losses
        hyper['nn_config']['lemma']['features_config']['lemma_suffix_transformation']['rules_threshold'] = 0
    part = {'pos_joint': 'POS'}.get(hyper['nn_config']['pos']['config']['splitting'], rng.choice(['UPOS', 'UPOS', 'default']))
    ctx.case((task, lemma, texts, hyper))
    own = feat.sentences(docs)

    def total(a, b):
        """weight a of one component, b of the other"""
        nn = hyper['nn_config']
        if task == 'pos':
            nn['pos']['config']['loss_weights'] = {'default': b, part: a} if part != 'default' else {'default': b, 'UPOS': a}
        elif task == 'lemma':
            nn['lemma']['config']['loss_weights'] = {'default': 7, 'LEMMA': a + b}
        else:
            nn['pos']['config']['loss_weights'] = {'default': a}
            nn['lemma']['config']['loss_weights'] = {'LEMMA': b}
        model, loss, _ = network(hyper, docs)
        with model:
            return loss(own)
    base = total(2.0, 2.0)
    first, second = total(3.0, 2.0) - base, total(2.0, 3.0) - base
    ctx.event('weights compared')
    if first > 1e-3 and second > 1e-3:
        ctx.event('both components')
    ctx.check(first >= -1e-4 and second >= -1e-4, 'a component of the loss is negative: {} {}', first, second)
    if task == 'lemma':
        first = second = base / 4
        if base > 1e-3:
            ctx.event('lemma weights')
            ctx.event('weights of ' + lemma)
    for a, b in ((2.0, 2.0), (5.0, 4.0), (0.25, 8.0), (0.0, 3.0), (3.0, 0.0), (0.0, 0.0)):
        found = total(a, b)
        expected = a * first + b * second
        ctx.check(abs(found - expected) <= 1e-3 * max(1.0, abs(expected)), 'loss {} with weights {} and {}, its components are {} and {}',
                  found, a, b, first, second)


def labels(ctx):
    """every word has its own share in the loss: the same for every place in the sentence and whatever the other words are"""
    rng = ctx.rng
    k = ctx.index
    n = [2, 5, 12, 50, 90][k % 5]
    more, _ = neural.treebank(rng, docs=1, sentences=3)
    texts, docs, hyper = case(ctx, 'l', tasks=[['pos', 'lemma'], ['pos'], ['lemma']][k // 5 % 3])
    plain = feat.simple_doc(rng, sentences=1, n=n, gran=True)
    words = [w for u in plain[0] for w in u.words]
    others = [w for d in more + texts for s in d for u in s for w in u.words]

    def changed(places):
        """the document with other labels at some places"""
        out, count = [], 0
        for u in plain[0]:
            new = []
            for w in u.words:
                if count in places:
                    o = places[count]
                    w = w._replace(upos=o.upos, xpos=o.xpos, feats=dict(o.feats), lemma=o.lemma)
                new.append(w)
                count += 1
            out.append(u._replace(words=new) if u.multi else gen.Unit(new[0].form, new, u.multi, u.space))
        return gen.build_document(neural.dm, [out])
    pairs = []
    for i, j in [(0, len(words) - 1)] + [rng.sample(range(len(words)), 2) for _ in range(2)]:
        a, b = rng.choice(others), rng.choice(others)
        pairs.append((i, j, a, b, [changed({}), changed({i: a}), changed({j: b}), changed({i: a, j: b})]))
    every = docs + [d for p in pairs for d in p[-1]]
    ctx.case((texts, hyper, plain, [p[:4] for p in pairs]), nontrivial=len(words) > 2)
    model, loss, _ = network(hyper, every)
    own = feat.sentences(docs)
    with model:
        for _ in range(4):
            loss(rng.sample(own, min(2, len(own))), lr=0.3)
        company = rng.sample(own, min(len(own), rng.randint(0, 2)))
        for i, j, a, b, variants in pairs:
            def shares():
                return [loss(company + feat.sentences([v])) for v in variants]
            base, first, second, both = shares()
            if not all(map(math.isfinite, (base, first, second, both))):
                ctx.event('infinite losses')
                continue
            ctx.event('pairs of words')
            bound = 3e-5 * max(1.0, abs(base), abs(both))
            ctx.check(abs(both - first - second + base) <= bound, 'other labels of words {} and {} of {} change the loss from {} to {}, but one by one '
                      'to {} and {}', i, j, len(words), base, both, first, second)
            for place, other, which in ((i, a, 1), (j, b, 2)):
                w = words[place]
                if 'pos' not in hyper['tasks'] or w.upos == other.upos or w.xpos == other.xpos:
                    continue
                ctx.event('words with another label')
                for attempt in range(4):
                    found = shares()
                    if found[which] != found[0]:
                        break
                    loss(own, lr=0.3)
                else:
                    ctx.check(False, 'the label of word {} of {} has no influence on the loss {}', place, len(words), found[0])


def dropout(ctx):
    """dropout is used in training only, and only if it is asked for"""
    texts, docs, hyper = case(ctx, 'd')
    rng = ctx.rng
    own = feat.sentences(docs)
    ctx.case((texts, hyper))
    model, loss, answers = network(hyper, docs)
    with model:
        fixed = {loss(own) for _ in range(4)}
        ctx.check(max(fixed) - min(fixed) <= 1e-6 * max(1, max(fixed)), 'the loss without dropout and learning changes: {}', fixed)
        free = {loss(own, dropout=0.5) for _ in range(6)}
        if max(fixed) > 1e-3:
            ctx.event('dropped' if len(free) > 1 else 'same')
        first = answers(own)
        for _ in range(3):
            ctx.equal(answers(own), first, 'answers of the same network')
        again = loss(own)
        ctx.check(close(again, max(fixed)), 'the loss was {}, now it is {}', max(fixed), again)
        # a small step down the gradient
        small = loss(own, lr=1e-4)
        after = loss(own)
        ctx.event('steps')
        ctx.check(after <= small + 1e-4 * max(1, small), 'the loss grows from {} to {} after a small step', small, after)


def setup(ctx):
    pass


setup.big = True
WALL = 400


def parts(tier):
    return [Part('batches', batches, 36, 400, timeout=200, required=['batches predicted', 'losses over padding', 'lemma_combo']),
            Part('weights', weights, 24, 120, timeout=200, required=['weights compared', 'both components', 'lemma weights', 'weights of lemma_binary']),
            Part('labels', labels, 30, 300, timeout=200, required=['pairs of words', 'words with another label']),
            Part('dropout', dropout, 12, 120, timeout=200, required=['dropped', 'steps'])]
