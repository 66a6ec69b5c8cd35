"""C22: assembling features loses, mixes and invents none: the assembly gives exactly the union of what its members give alone."""
import os

from vf import feat
from vf.core import Part
from vf.checks.c20 import Scripted
from babylondigger.features import builder as b, provider

RULE = ('a case is a list of feature and label providers (any kinds, any order, with empty ones, nested assemblies) and a corpus; features, '
        'labels, shapes, initial values and interpretation of the assembly are compared with those of each provider alone; non-trivial '
        'when there are at least two providers')


def make(ctx, rng, docs, prefix=''):
    """name -> function making a fresh provider, with its feature and label names"""
    path = os.path.join(ctx.scratch, 'emb')
    words = [t.text for t in feat.tokens(docs) if len(t.text.split()) == 1 and t.text.split()[0] == t.text]
    with open(path, 'w', encoding='utf8') as f:
        for w in sorted(set(words + ['zz']))[::2] + ['zy']:
            f.write('{} {} 0.5\n'.format(w, len(w)))
    lower = rng.random() < 0.5
    return {
        'len': lambda: provider.SentenceLengthExtractorProvider('len'),
        'tw': lambda: provider.TrainableWordEmbeddingExtractorProvider('tw', {'min_frequency': 1, 'lowercase': lower}),
        'tw2': lambda: provider.TrainableWordEmbeddingExtractorProvider('tw2', {'min_frequency': 2, 'lowercase': not lower}),
        'we': lambda: provider.WordEmbeddingExtractorProvider('we', 'we_init', {'path': path, 'lowercase': lower}),
        'c': lambda: provider.SubwordsExtractorProvider('c', {'min_frequency': 1, 'segmenter': 'char'}),
        'c2': lambda: provider.SubwordsExtractorProvider('c2', {'min_frequency': 2, 'segmenter': 'char'}),
        'se': lambda: provider.SubwordEmbeddingExtractorProvider('se', 'se_init', {'embedding_path': path, 'segmenter': 'char'}),
        'pos': lambda: provider.PosDictExtractorProvider('pos', 'pos_UXF'),
        'lemma': lambda: provider.LemmaDictExtractorProvider('lemma'),
        'rule': lambda: provider.LemmaTransformationExtractorProvider('mask', 'rule', {'rules_threshold': 0}),
        'lc': lambda: provider.LemmaCharExtractorProvider('lc', {'min_frequency': 1, 'max_word_length': 9, 'segmenter': 'char'}),
        'none': lambda: provider.AbstractExtractorBuilderProvider(),
    }


def frozen(values):
    return {k: [(i, list(v)) for i, v in vs] for k, vs in values.items()}


def plain_shapes(shapes):
    return {k: (list(v.items()) if hasattr(v, 'items') else list(v)) for k, v in shapes.items()}


def assembly(ctx):
    rng = ctx.rng
    plain, docs = feat.corpus(rng, docs=2, pool=feat.pool(rng), gran=True)
    kinds = make(ctx, rng, docs)
    names = rng.sample(sorted(kinds), rng.randint(1, len(kinds)))
    if rng.random() < 0.3:
        names.insert(rng.randint(0, len(names)), 'none')
    ctx.case((names, plain), nontrivial=len(names) > 1)
    data = feat.dataset(rng, docs)
    extractor, labels, interpreter, initializer = provider.FeatureExtractorBuilderProvider([kinds[n]() for n in names]).build(data)
    sents = feat.sentences(docs)
    sents = [sents[rng.randrange(len(sents))] for _ in range(rng.randint(1, 4))]
    features, label_values = {}, {}
    shapes, initial = {}, {}
    for n in names:
        f, l, _, i = provider.FeatureExtractorBuilderProvider([kinds[n]()]).build(data)
        # asked for first, of an initializer of its own
        initial.update(frozen(provider.FeatureExtractorBuilderProvider([kinds[n]()]).build(data)[3].initial_values()))
        features.update(f.get_features(sents))
        label_values.update(l.get_features(sents))
        shapes.update(plain_shapes(i.shapes()))
    ctx.event('members', len(names))
    for _ in range(2):
        ctx.equal(extractor.get_features(sents), features, 'features of {}'.format(names))
        ctx.equal(labels.get_features(sents), label_values, 'labels of {}'.format(names))
    for _ in range(2):
        ctx.equal(plain_shapes(initializer.shapes()), shapes, 'shapes of {}'.format(names))
        ctx.equal(frozen(initializer.initial_values()), initial, 'initial values of {}'.format(names))
    ctx.event('values', len(features) + len(label_values))
    # interpretation by all members
    lemma_kinds = [n for n in names if n in ('lemma', 'rule', 'lc', 'lemma2')]
    if lemma_kinds or 'pos' in names:
        results = interpreter.interpret(sents, label_values) if label_values else sents
        for s, result in zip(sents, results):
            for t, done in zip(s, result):
                ctx.event('interpreted')
                if 'pos' in names:
                    ctx.equal(done.pos, t.pos, 'POS')
                if lemma_kinds == ['lemma']:
                    ctx.equal(done.lemma, t.lemma, 'lemma')
                if lemma_kinds == ['rule']:
                    ctx.equal(done.lemma, t.lemma.lower(), 'lemma')


class Marker(b.FeatureExtractorBuilder, b.FeatureExtractorInterface, b.InterpreterInterface):
    """label provider: its interpretation adds its own name and label to the object"""

    def __init__(self, name, values):
        self.name, self.values = name, values

    def build(self, dataset):
        return self, self, b.EmptyFeatureInitializer()

    def get_features(self, obj, **kwargs):
        return {self.name: self.values[obj]}

    def interpret(self, obj, value):
        return obj + ((self.name, value[self.name]),)


class Silent(Marker):
    """a member with features only: it interprets nothing"""

    def build(self, dataset):
        return self, b.DoNothingInterpreter(), b.EmptyFeatureInitializer()


def interpreters(ctx):
    """each member interprets its own label of each object, once"""
    rng = ctx.rng
    n = rng.randint(1, 6)
    objects = [(k,) for k in range(4)]
    values = {'l{}'.format(k): {o: rng.randint(1, 99) for o in objects} for k in range(n)}
    ctx.case(values, nontrivial=n > 1)
    silent = {name for name in values if rng.random() < 0.3}
    leaves = [b.wrap_word_level((Silent if name in silent else Marker)(name, vs), False) for name, vs in values.items()]

    def build(members):
        if len(members) == 1 or rng.random() < 0.5:
            return b.merge(iter(members)) if rng.random() < 0.7 or len(members) == 1 else b.CompositeFeatureExtractorBuilder(members)
        k = rng.randint(1, len(members) - 1)
        return b.merge(iter([build(members[:k]), build(members[k:])]))

    extractor, interpreter, _ = build(leaves).build([])
    sents = [[rng.choice(objects) for _ in range(rng.randint(1, 4) if rng.random() < 0.95 else rng.choice([130, 300, 1100]))]
             for _ in range(rng.randint(1, 3) if rng.random() < 0.97 else 70)]
    labels = extractor.get_features(sents)
    ctx.equal(set(labels), set(values), 'labels')
    for sent, done in zip(sents, interpreter.interpret(sents, labels)):
        done = list(done)
        ctx.equal(len(done), len(sent), 'interpreted objects')
        for o, d in zip(sent, done):
            ctx.event('interpreted')
            ctx.equal(d[:1], o, 'object')
            ctx.equal(sorted(d[1:]), sorted((name, vs[o]) for name, vs in values.items() if name not in silent), 'interpretations of an object')


def duplicates(ctx):
    rng = ctx.rng
    plain, docs = feat.corpus(rng, docs=1, pool=feat.pool(rng), gran=True)
    kinds = make(ctx, rng, docs)
    twice = rng.choice([n for n in kinds if n != 'none'])
    names = rng.sample([n for n in sorted(kinds) if n != twice], rng.randint(0, 4)) + [twice, twice]
    rng.shuffle(names)
    if twice in ('tw', 'c', 'len') and rng.random() < 0.5:
        # another kind under the same name
        other = {'tw': 'c', 'c': 'tw', 'len': 'tw'}[twice]
        def clash():
            return {'c': provider.SubwordsExtractorProvider(twice, {'min_frequency': 1, 'segmenter': 'char'}),
                    'tw': provider.TrainableWordEmbeddingExtractorProvider(twice, {'min_frequency': 1, 'lowercase': True})}[other]
        made = [kinds[n]() for n in dict.fromkeys(names)] + [clash()]
    else:
        made = [kinds[n]() for n in names]
    ctx.case((names, plain))
    sents = feat.sentences(docs)

    def use():
        extractor, labels, _, initializer = provider.FeatureExtractorBuilderProvider(made).build(docs)
        return extractor.get_features(sents), labels.get_features(sents), initializer.shapes()

    ctx.rejects(use, 'two members called {}'.format(twice))


def nested(ctx):
    """assemblies of assemblies of scripted extractors"""
    rng = ctx.rng
    counter = [0]
    expected = {}

    def leaf():
        k = counter[0]
        counter[0] += 1
        name = 'f{}'.format(k)
        expected[name] = [rng.randint(1, 99) for _ in range(3)]
        return b.wrap_sentence_level(Scripted({name: dict(enumerate(expected[name]))}))

    def tree(level):
        r = rng.random()
        if level == 0 or r < 0.4:
            return b.EmptyFeatureExtractorBuilder() if rng.random() < 0.15 else leaf()
        members = [tree(level - 1) for _ in range(rng.randint(1, 4))]
        return b.merge(iter(members)) if r < 0.7 else b.CompositeFeatureExtractorBuilder(members)

    top = b.merge(iter([tree(2) for _ in range(rng.randint(1, 4))]))
    ctx.case((rng.random(), expected), nontrivial=len(expected) > 1)
    extractor, _, _ = top.build([])
    objects = [0, 2, 1]
    ctx.event('members', len(expected))
    ctx.equal(extractor.get_features(objects), {n: [v[i] for i in objects] for n, v in expected.items()}, 'features')


def nothing(ctx):
    ctx.case(0)
    ctx.rejects(lambda: b.merge(iter([])), 'an empty assembly')


def parts(tier):
    return [Part('assembly', assembly, 700, 10000, required=['members', 'values', 'interpreted']),
            Part('duplicates', duplicates, 500, 5000, required=['rejections']),
            Part('interpreters', interpreters, 1500, 15000),
            Part('nested', nested, 1500, 15000),
            Part('nothing', nothing, 1, 1)]
