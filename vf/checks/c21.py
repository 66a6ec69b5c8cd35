"""C21: sparse input replaces feature values by OOV with the given rate, only there, only when asked, and never labels."""
import math
import random

from vf import feat
from vf.core import Part
from vf.checks.c20 import Scripted, nested
from babylondigger.features import builder as b, provider

RULE = ('a case is a set of feature values or a corpus with all features and labels of a network, and a rate; results are compared position by '
        'position with the values without replacement, under an ordinary and under an adversarial random source; replacement counts are '
        'compared with the rate (bounds of 7 standard deviations); non-trivial when the rate is neither 0 nor 1')


def flat(value):
    if isinstance(value, list):
        return [x for v in value for x in flat(v)]
    return [value]


def shape(value):
    return [shape(v) for v in value] if isinstance(value, list) else None


class Biased(object):
    """replaces the random source of the module `random` for a while"""

    def __init__(self, values):
        self.values = values

    def __enter__(self):
        self.saved = random.random
        random.random = self.values
        return self

    def __exit__(self, *args):
        random.random = self.saved


def sparse(values, wrap=True):
    extractor, _, _ = b.SparseFeatureExtractorBuilder(Scripted(values)).build([])
    return extractor


def extremes(ctx):
    rng = ctx.rng
    values = {'f{}'.format(k): {0: nested(rng, rng.randint(0, 3), 6)} for k in range(rng.randint(1, 3))}
    ctx.case(values)
    extractor = sparse(values)
    sources = [lambda: 0.0, lambda: 1.0 - 2.0 ** -53, lambda: 0.5, random.random]
    for source in sources:
        with Biased(source):
            for kwargs in ({}, {'sparse_rate': 0}, {'sparse_rate': 0.0}):
                ctx.event('unchanged')
                ctx.equal(extractor.get_features(0, **kwargs), {n: v[0] for n, v in values.items()}, 'features with rate 0')
            got = extractor.get_features(0, sparse_rate=1)
            for name, v in values.items():
                ctx.equal(shape(got[name]), shape(v[0]), 'structure with rate 1')
                ctx.event('replaced')
                ctx.check(all(x == b.OOV for x in flat(got[name])), 'rate 1 left values: {}', got[name])


def rates(ctx):
    rng = ctx.rng
    rate = rng.choice([0.01, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99])
    width = rng.choice([1, 3, 20])
    value = [rng.randint(4, 90) for _ in range(width)]
    values = {'f': {0: value if width > 1 else value[0]}}
    ctx.case((rate, values))
    extractor = sparse(values)
    rounds = 4000 // width
    per_place, pairs = [0] * width, 0
    for _ in range(rounds):
        got = flat(extractor.get_features(0, sparse_rate=rate)['f'])
        ctx.equal(len(got), width, 'number of values')
        for k, (g, v) in enumerate(zip(got, value)):
            ctx.check(g == v or g == b.OOV, 'value {} became {}', v, g)
            per_place[k] += g == b.OOV and v != b.OOV
    total, n = sum(per_place), rounds * width
    ctx.event('observed values', n)

    def bound(n):
        return 7 * math.sqrt(n * rate * (1 - rate)) + 2

    ctx.check(abs(total - n * rate) <= bound(n), '{} of {} values replaced with rate {}', total, n, rate)
    for k in per_place:  # every place of the list alike
        ctx.check(abs(k - rounds * rate) <= bound(rounds), '{} of {} replaced at one place with rate {}', k, rounds, rate)


def network(ctx):
    """all features and labels of a network"""
    rng = ctx.rng
    pool = feat.pool(rng)
    plain, docs = feat.corpus(rng, pool=pool, gran=True)
    providers = [provider.SentenceLengthExtractorProvider('len'),
                 provider.TrainableWordEmbeddingExtractorProvider('w', {'min_frequency': 1, 'lowercase': True}),
                 provider.SubwordsExtractorProvider('c', {'min_frequency': 1, 'segmenter': 'char'}),
                 provider.PosDictExtractorProvider('pos', 'pos_UXF'),
                 provider.LemmaTransformationExtractorProvider('mask', 'rule', {'rules_threshold': 0})]
    rng.shuffle(providers)
    extractor, labels, _, _ = provider.FeatureExtractorBuilderProvider(providers).build(feat.dataset(rng, docs))
    sents = feat.sentences(docs)[:6]
    rate = rng.choice([0, 0.3, 0.5, 1])
    ctx.case((rate, plain), nontrivial=0 < rate < 1)
    plain_features = extractor.get_features(sents)
    for source in (random.random, lambda: 0.0, lambda: 0.999999):
        with Biased(source):
            got = extractor.get_features(sents, sparse_rate=rate)
            again = labels.get_features(sents)
        for name, value in plain_features.items():
            ctx.equal(shape(got[name]), shape(value), 'structure of ' + name)
            a, c = flat(got[name]), flat(value)
            if name in ('len', 'mask') or rate == 0:
                ctx.event('unchanged')
                ctx.equal(a, c, '{} with rate {}'.format(name, rate))
            else:
                for x, y in zip(a, c):
                    ctx.check(x == y or (x == b.OOV and y != b.PADDING), '{} of {} became {}', y, name, x)
                    if rate == 1 and y != b.PADDING:
                        ctx.event('replaced')
                        ctx.equal(x, b.OOV, 'value of {} with rate 1'.format(name))
        ctx.equal(again, labels.get_features(sents), 'labels')
    ctx.equal(extractor.get_features(sents), plain_features, 'features without rate afterwards')


def parts(tier):
    return [Part('extremes', extremes, 1000, 10000, required=['unchanged', 'replaced']),
            Part('rates', rates, 96, 1500, required=['observed values']),
            Part('network', network, 400, 5000)]
