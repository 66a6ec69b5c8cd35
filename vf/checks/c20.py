"""C20: batches are rectangular, keep every value at its place, and everything else in them is padding."""
import copy

from vf import feat, gen
from vf.core import Part
from babylondigger.features import builder as b, provider

RULE = ('a case is a batch: nested values of depth one to four behind a scripted extractor, or the real features and labels of sentences of '
        'very different lengths; the batch is compared with a reference padding of the values of each sentence alone; non-trivial when '
        'at least two elements have different lengths')


class Scripted(b.FeatureExtractorBuilder, b.FeatureExtractorInterface):
    """builder and extractor at once: gives a fresh copy of the value scripted for the object"""

    def __init__(self, values):
        self.values = values

    def build(self, dataset):
        return self, b.DoNothingInterpreter(), b.EmptyFeatureInitializer()

    def get_features(self, obj, **kwargs):
        return {name: copy.deepcopy(v[obj]) for name, v in self.values.items()}


def depth(value):
    return 1 + max([depth(v) for v in value], default=0) if isinstance(value, list) else 0


def lengths(values, level, found):
    """longest list at each level"""
    for v in values:
        if isinstance(v, list):
            found[level] = max(found.get(level, 0), len(v))
            lengths(v, level + 1, found)
    return found


def pad(value, level, longest, total):
    if level == total:
        return value
    out = [pad(v, level + 1, longest, total) for v in value]
    while len(out) < longest[level]:
        out.append(empty(level + 1, longest, total))
    return out


def empty(level, longest, total):
    return 0 if level == total else [empty(level + 1, longest, total) for _ in range(longest[level])]


def reference(values):
    total = depth(values)
    longest = lengths(values, 1, {})
    return [pad(v, 1, longest, total) for v in values]


def nested(rng, level, wide):
    if level == 0:
        return rng.choice([1, 2, 3, 4, rng.randint(5, 90), 0])
    return [nested(rng, level - 1, wide) for _ in range(rng.choice([1, 1, 2, 3, rng.randint(1, wide)]))]


def same(ctx, got, expected, what):
    ctx.event('batches')
    ctx.equal(got, expected, what)


def scripted(ctx):
    rng = ctx.rng
    n = rng.randint(1, 6)
    values = {}
    for k in range(rng.randint(1, 3)):
        level = rng.randint(0, 3)
        values['f{}'.format(k)] = {i: nested(rng, level, 7) for i in range(n)}
    if rng.random() < 0.3:  # true / false features
        values['mask'] = {i: [[rng.random() < 0.5 for _ in range(3)] for _ in range(rng.randint(1, 5))] for i in range(n)}
    objects = [rng.randrange(n) for _ in range(rng.randint(1, 7))]
    ctx.case((values, objects), nontrivial=any(len({repr(v) for v in vs.values()}) > 1 for vs in values.values()))
    extractor, _, _ = b.wrap_sentence_level(Scripted(values)).build([])
    for _ in range(2):  # twice: nothing is remembered
        got = extractor.get_features(list(objects))
        ctx.equal(set(got), set(values), 'feature names')
        for name, vs in values.items():
            same(ctx, got[name], reference([vs[i] for i in objects]), 'batch of {}'.format(name))
    # ... and an iterator of objects is as good as a list
    again = extractor.get_features(iter(objects))
    for name, vs in values.items():
        same(ctx, again[name], reference([vs[i] for i in objects]), 'batch of {} from an iterator'.format(name))


def tokens(ctx):
    """token level extractor over sentences of objects"""
    rng = ctx.rng
    level = rng.randint(0, 2)
    values = {'f': {i: nested(rng, level, 9) for i in range(12)}}
    sents = [[rng.randrange(12) for _ in range(rng.choice([1, 1, 2, 3, rng.randint(1, 20)]))] for _ in range(rng.randint(1, 6))]
    ctx.case((values, sents), nontrivial=len({len(s) for s in sents}) > 1)
    sparsify = rng.random() < 0.5
    extractor, _, _ = b.wrap_word_level(Scripted(values), sparsify).build([])
    got = extractor.get_features(sents, **({'sparse_rate': 0} if sparsify and rng.random() < 0.5 else {}))
    same(ctx, got['f'], reference([[values['f'][i] for i in s] for s in sents]), 'batch')


def inhomogeneous(ctx):
    rng = ctx.rng
    values = {'f': {0: [1, 2], 1: 3, 2: [[1], [2]], 3: [4]}}
    bad = rng.choice([[0, 1], [1, 0], [0, 2], [2, 0, 0], [1, 3, 0], [2, 3]])
    ctx.case(bad)
    extractor, _, _ = b.wrap_sentence_level(Scripted(values)).build([])
    ctx.rejects(lambda: extractor.get_features(bad), 'lists mixed with numbers: {}'.format([values['f'][i] for i in bad]))


def real(ctx):
    rng = ctx.rng
    pool = feat.pool(rng)
    plain, docs = feat.corpus(rng, pool=pool, gran=True, n=None)
    providers = [provider.SentenceLengthExtractorProvider('len'),
                 provider.TrainableWordEmbeddingExtractorProvider('w', {'min_frequency': rng.choice([1, 2]), 'lowercase': True}),
                 provider.SubwordsExtractorProvider('c', {'min_frequency': 1, 'segmenter': 'char'}),
                 provider.PosDictExtractorProvider('pos', rng.choice(['pos_UXF', 'pos_gran', 'pos_XF', 'pos_joint'])),
                 provider.LemmaCharExtractorProvider('lc', {'min_frequency': 1, 'max_word_length': 6, 'segmenter': 'char'}),
                 provider.LemmaTransformationExtractorProvider('mask', 'rule', {'rules_threshold': 0})]
    rng.shuffle(providers)
    features, labels, _, _ = provider.FeatureExtractorBuilderProvider(providers).build(feat.dataset(rng, docs))
    sents = feat.sentences(docs)
    rng.shuffle(sents)
    sents = sents[:rng.randint(1, 6)]
    ctx.case((plain, [s.text for s in sents]), nontrivial=len({s.tokens_count for s in sents}) > 1)
    for extractor in (features, labels):
        alone, first = [], []
        for s in sents:
            alone.append(extractor.get_features([s]))
            first.append(copy.deepcopy(alone[-1]))
        together = extractor.get_features(sents)
        if extractor is features:
            same(ctx, together['len'], [sum(1 for _ in s) for s in sents], 'sentence lengths')
        kept = copy.deepcopy(together)
        for name, value in together.items():
            same(ctx, [strip(v, name) for v in value], [strip(a[name][0], name) for a in first], '{}: batch against single sentences'.format(name))
            same(ctx, value, reference([a[name][0] for a in first]), '{}: padding'.format(name))
        # other batches in between change nothing, neither in this batch nor in the next ones
        for _ in range(3):
            group = [rng.choice(sents) for _ in range(rng.randint(1, 4))]
            got = extractor.get_features(group)
            for name, value in got.items():
                same(ctx, value, reference([first[sents.index(s)][name][0] for s in group]), '{}: padding of a later batch'.format(name))
        same(ctx, together, kept, 'a batch after other ones')
        same(ctx, alone, first, 'batches of single sentences after other ones')


def strip(value, name):
    """drop trailing padding of a list of words and of characters"""
    if not isinstance(value, list):
        return value
    if name == 'c':
        value = [w[:w.index(3) + 1] if 3 in w else w[:0] for w in value]
        while value and not value[-1]:
            value = value[:-1]
        return value
    if name == 'w':
        while value and value[-1] == 0:
            value = value[:-1]
        return value
    if name in ('rule', 'pos'):
        return None  # label 0 is a real label: covered by the comparison with the reference
    if name == 'lc':
        while value and not any(value[-1]):
            value = value[:-1]
        return value
    return None


def parts(tier):
    return [Part('scripted', scripted, 2500, 30000, required=['batches']),
            Part('tokens', tokens, 2000, 25000),
            Part('inhomogeneous', inhomogeneous, 30, 60, required=['rejections']),
            Part('real', real, 500, 8000)]
