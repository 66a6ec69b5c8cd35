"""C38: a training step moves the parameters by the rule of the configured optimizer along the clipped gradient of the reported loss."""
import copy
import math
import os

import numpy as np

from vf import feat, neural
from vf.core import Part, Skip
from babylondigger.features.provider import FeatureExtractorBuilderProvider
from babylondigger.neural.model import Model
from babylondigger.neural.tagger.network_provider import get_nn_builder

tf = neural.tf
RULE = ('a case is a network of a random configuration and a sequence of training steps with changing batches, learning rates and (through '
        'the weights of losses) sizes of gradients; all parameters are read before and after each step and compared with a reference '
        'optimizer over the gradients of the reported loss; non-trivial when gradients of both kinds, clipped and not clipped, occur')
ASSUMPTIONS = ['the neural part runs over the TensorFlow 1 interface of the installed TensorFlow 2, on tiny networks',
               'gradients of single operations are those of TensorFlow; that they flow through the whole network is checked with finite differences',
               'the norm may count the repeated rows of embeddings separately (as TensorFlow does) or together']
CLIP = 5.0


def build(ctx, optimizer, **over):
    rng = ctx.rng
    texts, docs = neural.treebank(rng, docs=2)
    emb = os.path.join(ctx.scratch, 'c38-emb-{}'.format(ctx.index))
    neural.word_file(emb, rng, texts)
    hyper = neural.config(rng, emb, shared=over.get('shared') or neural.SHARED[ctx.index % 4], lemma=neural.LEMMAS[ctx.index // 3 % 4])
    nn = hyper['nn_config']
    nn['general']['optimizer']['type'] = optimizer
    nn['lemma']['features_config']['lemma_suffix_transformation']['rules_threshold'] = 0
    if over.get('weights', True):
        weight = rng.choice([0.2, 1.0, 5.0, 30.0, 1000.0])
        nn['pos']['config']['loss_weights'] = {'default': weight}
        nn['lemma']['config']['loss_weights'] = {'default': weight, 'LEMMA': weight}
    ctx.case((hyper, texts))
    copied = copy.deepcopy(nn)
    builder = get_nn_builder(copied['shared_part'], [copied[t] for t in hyper['tasks']], copied['general'], rng.randrange(1000))
    features, labels, _, initializer = FeatureExtractorBuilderProvider(builder.feature_providers()).build(docs)
    network, graph = builder.build(initializer.shapes())
    return hyper, docs, features, labels, initializer, network, graph


class Reference(object):
    """the optimizers with their standard parameters, in double precision"""

    def __init__(self, kind, values):
        self.kind, self.t = kind, 0
        self.m = [np.zeros_like(v) for v in values]
        self.v = [np.ones_like(v) if kind == 'RMSProp' else np.zeros_like(v) for v in values]

    def step(self, lr, gradients, rows):
        """the changes of the parameters; rows: used rows of embeddings or None"""
        self.t += 1
        result = []
        for k, g in enumerate(gradients):
            if self.kind == 'GD':
                result.append(-lr * g)
            elif self.kind == 'Adam':
                self.m[k] = 0.9 * self.m[k] + 0.1 * g
                self.v[k] = 0.999 * self.v[k] + 0.001 * g * g
                rate = lr * math.sqrt(1 - 0.999 ** self.t) / (1 - 0.9 ** self.t)
                result.append(-rate * self.m[k] / (np.sqrt(self.v[k]) + 1e-8))
            else:
                used = np.ones(len(g) if g.ndim else 1, bool) if rows[k] is None else rows[k]
                used = used.reshape([-1] + [1] * (g.ndim - 1))
                self.v[k] = np.where(used, 0.9 * self.v[k] + 0.1 * g * g, self.v[k])
                result.append(np.where(used, -lr * g / np.sqrt(self.v[k] + 1e-10), 0))
        return result


def steps(ctx):
    rng = ctx.rng
    kind = ['GD', 'Adam', 'RMSProp'][ctx.index % 3]
    hyper, docs, features, labels, initializer, network, graph = build(ctx, kind)
    sents = feat.sentences(docs)
    with graph.as_default():
        loss_tensor = network.get_optimizer()[0]
        variables = graph.get_collection('trainable_variables')
        raw = tf.gradients(loss_tensor, variables)
        raw = [tf.zeros_like(v) if g is None else g for v, g in zip(variables, raw)]  # layers that no task looks at
        sparse = [isinstance(g, tf.IndexedSlices) for g in raw]
        fetch = [{'g': g.values, 'i': g.indices, 'd': tf.convert_to_tensor(g)} if s else {'d': g} for g, s in zip(raw, sparse)]
    clipped = set()
    with tf.Session(graph=graph) as session:
        model = Model(network, session)
        model.initialize(**initializer.initial_values())
        values = [v.astype(np.float64) for v in session.run(variables)]
        references = [Reference(kind, values) for _ in range(2)]  # the two ways to count the norm
        alive = [True, True]
        for number in range(8):
            batch = rng.sample(sents, min(len(sents), rng.randint(1, 3)))
            lr = rng.choice([0.0, 1e-3, 1e-2, 0.1])
            fs, ls = features.get_features(batch), labels.get_features(batch)
            feed = network.get_feed_dict(input=fs, gold=ls)
            reported, got = session.run([loss_tensor, fetch], feed)
            if not math.isfinite(reported) or abs(reported) > 1e6:
                raise Skip()
            dense = [np.asarray(g['d'], np.float64) for g in got]
            rows = [np.isin(np.arange(len(d)), g['i']) if s else None for d, g, s in zip(dense, got, sparse)]
            repeated = [np.bincount(g['i'], minlength=len(d)).reshape([-1] + [1] * (d.ndim - 1)) if s else 1  # so many roundings
                        for d, g, s in zip(dense, got, sparse)]
            norms = [math.sqrt(sum(float((np.asarray(g.get('g', g['d']), np.float64) ** 2).sum()) for g in got)),
                     math.sqrt(sum(float((d ** 2).sum()) for d in dense))]
            ls['learning_rate'], ls['dropout_probability'] = lr, 1.0
            before = values
            loss = float(model.train(fs, ls))
            values = [v.astype(np.float64) for v in session.run(variables)]
            ctx.event('steps')
            ctx.event('parameters', sum(v.size for v in values))
            ctx.check(abs(loss - reported) <= 1e-4 * max(1, abs(reported)), 'the step reports loss {}, it was {} before the step', loss, reported)
            kinds = {n > CLIP for n in norms}
            clipped |= kinds
            ctx.event('clipped steps' if True in kinds else 'steps without clipping')
            problems = []
            for k in range(2):
                if not alive[k]:
                    continue
                scale = min(1.0, CLIP / norms[k]) if norms[k] else 1.0
                changes = references[k].step(lr, [d * scale for d in dense], rows)
                for v, a, b, c, n in zip(variables, before, values, changes, repeated):
                    tolerance = (2e-6 + 1.2e-7 * n) * np.maximum(np.abs(a), np.abs(c)) + 2e-3 * np.abs(c) + (2e-3 * lr if kind != 'GD' else 1e-7 * lr) + 1e-7
                    wrong = np.abs(b - a - c) > tolerance
                    # noise around zero is of any direction for the optimizers that divide by the size of gradients
                    if wrong.sum() > (0 if kind == 'GD' else 0.02 * wrong.size):
                        alive[k] = False
                        where = np.unravel_index(np.argmax(np.abs(b - a - c)), wrong.shape)
                        problems.append('step {} of {} with rate {} and norm {}: {}{} moved by {}, expected {}'.format(
                            number, kind, lr, norms[k], v.name, where, (b - a)[where], c[where]))
                        break
            ctx.check(any(alive), '{}', problems)
            if rng.random() < 0.5:
                model.predict(features.get_features(sents[:2]))
                after = session.run(variables)
                ctx.event('predictions')
                ctx.check(all((a == b.astype(np.float64)).all() for a, b in zip(values, after)), 'prediction changed parameters')
    if len(clipped) == 2:
        ctx.event('cases with and without clipping')


def flow(ctx):
    """every parameter that influences the loss is trained along its true (numerical) derivative"""
    rng = ctx.rng
    hyper, docs, features, labels, initializer, network, graph = build(ctx, 'GD', weights=False)
    fc = hyper['nn_config']['shared_part']['features_config']
    fixed = 'word_embedding' in fc and not fc['word_embedding']['trainable']
    sents = feat.sentences(docs)
    batch = sents[:3]
    with graph.as_default():
        everything = [v for v in graph.get_collection('variables') if v.dtype.base_dtype == tf.float32]
        trainable = {v.name for v in graph.get_collection('trainable_variables')}
        loss_tensor = network.get_optimizer()[0]
        inputs = {v.name: tf.placeholder(tf.float32, v.shape) for v in everything}
        assigns = {v.name: tf.assign(v, inputs[v.name]) for v in everything}
    fs, ls = features.get_features(batch), labels.get_features(batch)
    feed = network.get_feed_dict(input=fs, gold=ls)
    with tf.Session(graph=graph) as session:
        model = Model(network, session)
        model.initialize(**initializer.initial_values())
        shake = np.random.RandomState(rng.randrange(1 << 30))
        start = {}
        for v, value in zip(everything, session.run(everything)):  # away from the kinks: biases are 0 at first
            start[v.name] = (value + shake.normal(0, 0.3, value.shape)).astype(np.float32)
            session.run(assigns[v.name], {inputs[v.name]: start[v.name]})
        lr = 1e-2
        ls['learning_rate'], ls['dropout_probability'] = lr, 1.0
        base = float(model.train(fs, ls))
        if not math.isfinite(base) or base > 1e4:
            raise Skip()
        end = dict(zip([v.name for v in everything], session.run(everything)))
        step = {n: (end[n].astype(np.float64) - start[n]) / -lr for n in start}
        if math.sqrt(sum((s ** 2).sum() for s in step.values())) > 4.9:
            raise Skip()  # clipped: the sizes are judged by the other part
        for n, v in start.items():
            session.run(assigns[n], {inputs[n]: v})

        def loss(name, value):
            session.run(assigns[name], {inputs[name]: value})
            result = float(session.run(loss_tensor, feed))
            session.run(assigns[name], {inputs[name]: start[name]})
            return result

        frozen = 0
        for n in sorted(start):
            good, tries = False, []
            for eps in (1e-2, 3e-3, 1e-3, 3e-2):
                close = 0
                for attempt in range(4):
                    if attempt == 3 and step[n].any():
                        direction = step[n] * np.array([rng.random() for _ in range(step[n].size)]).reshape(step[n].shape)
                    else:
                        direction = np.array([rng.gauss(0, 1) for _ in range(start[n].size)]).reshape(start[n].shape)
                    direction /= math.sqrt((direction ** 2).sum())
                    numeric = (loss(n, start[n] + eps * direction) - loss(n, start[n] - eps * direction)) / (2 * eps)
                    analytic = float((step[n] * direction).sum())
                    tries.append((numeric, analytic))
                    close += abs(numeric - analytic) <= 0.1 * abs(numeric) + 3e-4 * max(1.0, base)
                if close >= 3:  # the others may be steps over the kinks of the network
                    good = True
                    break
            ctx.event('derivatives')
            if not good and fixed and not step[n].any() and n not in trainable:
                frozen += 1
                ctx.event('fixed embeddings')
                ctx.check(frozen == 1, 'several parameters are not trained')
                continue
            if max(abs(a) for a, _ in tries) > 1e-2:
                ctx.event('derivatives that are not zero')
            ctx.check(good, 'parameter {}: derivatives of the loss {} and steps {}', n, [a for a, _ in tries], [b for _, b in tries])


def unknown(ctx):
    rng = ctx.rng
    kind = rng.choice(['SGD', 'adam', '', 'Adagrad', 'gd', None, 'Momentum'])
    ctx.rejects(lambda: build(ctx, kind), 'optimizer {!r}'.format(kind))


def setup(ctx):
    pass


setup.big = True
WALL = 400


def parts(tier):
    return [Part('steps', steps, 60, 600, timeout=300, required=['clipped steps', 'steps without clipping']),
            Part('flow', flow, 36, 360, timeout=300, required=['derivatives that are not zero']),
            Part('unknown', unknown, 8, 24, timeout=100, required=['rejections'])]
