"""C18: words and subwords get the ids of their vocabulary: frequent ones their own, all others OOV, with the right bounds."""
import os
import shutil
import tempfile
from collections import Counter

import bpemb


class FakeBPEmb(object):
    """stands in for the BPE models, which are downloaded by the library: cuts a word at places that depend on the word only"""
    made = []

    def __init__(self, *args, **kwargs):
        self.args = (args, kwargs)
        FakeBPEmb.made.append(self.args)

    def encode(self, text):
        if 'real' in self.args[0] or 'real' in self.args[1].values():
            return real_bpe().encode(text)
        return fake_pieces(text)


RealBPEmb = bpemb.BPEmb
_real = []


def real_bpe():
    """a real BPE model of the library, trained here (its pieces of blanks and zero-width characters are none at all)"""
    if not _real:
        import random
        import sentencepiece
        rng = random.Random('bpe')
        syllables = ['ka', 'lo', 'ing', 'er', 'the', 'до', 'ма', 'ми', 'ого', 'st', 'a', 'b', 'и', '1', '-']
        lines = [' '.join(''.join(rng.choice(syllables) for _ in range(rng.randint(1, 4))) for _ in range(8)) for _ in range(500)]
        folder = tempfile.mkdtemp()
        try:
            prefix = os.path.join(folder, 'bpe')
            with open(prefix + '.txt', 'w', encoding='utf8') as f:
                f.write('\n'.join(lines))
            sentencepiece.SentencePieceTrainer.train(input=prefix + '.txt', model_prefix=prefix, vocab_size=90, model_type='bpe', minloglevel=2,
                                                     num_threads=1)
            _real.append(RealBPEmb(model_file=prefix + '.model', emb_file=prefix, segmentation_only=True))
        finally:
            shutil.rmtree(folder)
    return _real[0]


def fake_pieces(text):
    key = sum(ord(c) * (i + 3) for i, c in enumerate(text))
    pieces, current = [], '\u2581'
    if key % 5 == 0:
        pieces, current = ['\u2581'], ''
    for i, c in enumerate(text.replace(' ', '\u2581')):
        if current and (key >> (i % 11)) & 1:
            pieces.append(current)
            current = ''
        current += c
    return pieces + [current] if current else pieces


bpemb.BPEmb = FakeBPEmb

import morfessor  # noqa: E402

from vf import feat, gen  # noqa: E402
from vf.core import Part  # noqa: E402
from babylondigger.features import extractors as ex, provider  # noqa: E402

RULE = ('a case is a training corpus, a frequency bound and a vocabulary kind (words with or without lowercasing, characters, BPE pieces, '
        'morphs); ids of all tokens of the corpus and of an unseen one are compared with a count of the corpus; non-trivial when there are '
        'both kept and dropped or at least two kept entries')
ASSUMPTIONS = ['BPE pieces come from a stand-in for the downloaded BPEmb model with the same interface or from a small model trained by the check']


def mapping(ctx, ids, key, table, kept, size, first, what):
    """key must have an own id in [first, size) iff kept"""
    if key in kept:
        ctx.event('kept')
        ctx.check(isinstance(ids, int) and first <= ids < size, 'id {} of the frequent {} {} is outside of [{}, {})', ids, what, key, first, size)
        ctx.check(table.setdefault(ids, key) == key, 'id {} means {} and {}', ids, table.get(ids), key)
    else:
        ctx.event('oov')
        ctx.equal(ids, 1, 'id of the rare or unseen {} {!r}'.format(what, key))


def complete(ctx, table, kept):
    back = {v: k for k, v in table.items()}
    ctx.equal(len(back), len(table), 'different entries have different ids')
    ctx.equal(set(back), kept, 'entries with own ids')


def words(ctx):
    rng = ctx.rng
    pool = feat.pool(rng)
    plain, docs = feat.corpus(rng, pool=pool)
    _, others = feat.corpus(rng, docs=1, pool=pool + feat.pool(rng, 3))
    threshold, lower = rng.choice([0, 1, 1, 2, 2, 3, 5]), rng.random() < 0.6
    norm = (lambda s: s.lower()) if lower else (lambda s: s)
    counts = Counter(norm(t.text) for t in feat.tokens(docs))
    kept = {w for w, c in counts.items() if c >= threshold}
    ctx.case((threshold, lower, plain), nontrivial=len(kept) > 1)
    builder = ex.TrainableEmbeddingsExtractorBuilder('w', threshold, lower)
    extractor, _, initializer = builder.build(feat.dataset(rng, docs))
    size = initializer.shapes()['w'][0]
    ctx.equal(size, len(kept) + 2, 'vocabulary size with minimum frequency {}'.format(threshold))
    table = {}
    for t in feat.tokens(docs) + feat.tokens(others):
        got = extractor.get_features(t)
        ctx.equal(list(got), ['w'], 'feature names')
        mapping(ctx, got['w'], norm(t.text), table, kept, size, 2, 'word')
    complete(ctx, table, kept)


BLANK = ['\u200b', '\u00a0', '\ufeff', '\u2581', '\u3000', '\u2581a', 'a\u00a0b', '\x07']


def subwords(ctx, kind, config, cut):
    rng = ctx.rng
    pool = feat.pool(rng)
    if rng.random() < 0.3:
        pool = pool + [(w, w, 'X', None, {}) for w in rng.sample(BLANK, 3)]
    plain, docs = feat.corpus(rng, pool=pool)
    _, others = feat.corpus(rng, docs=1, pool=pool + feat.pool(rng, 3))
    threshold = rng.choice([0, 1, 1, 2, 3, 6])
    counts = Counter(c for t in feat.tokens(docs) for c in cut(t.text))
    kept = {w for w, c in counts.items() if c >= threshold}
    ctx.case((kind, threshold, plain), nontrivial=len(kept) > 1)
    config = dict(config, segmenter=kind, min_frequency=threshold)
    builder = ex.TokenCharactersFeatureExtractorBuilder('s', config)
    extractor, _, initializer = builder.build(feat.dataset(rng, docs))
    size = initializer.shapes()['s'][0]
    ctx.equal(size, len(kept) + 4, 'vocabulary size with minimum frequency {}'.format(threshold))
    table = {}
    for t in feat.tokens(docs) + feat.tokens(others):
        got = extractor.get_features(t)['s']
        pieces = cut(t.text)
        ctx.event('segmented')
        ctx.equal((len(got), got[0], got[-1]), (len(pieces) + 2, 2, 3), 'length, start and end of {!r} as {}'.format(t.text, pieces))
        for i, piece in zip(got[1:-1], pieces):
            mapping(ctx, i, piece, table, kept, size, 4, 'subword')
    complete(ctx, table, kept)


def chars(ctx):
    subwords(ctx, 'char', {}, list)


def bpe_pieces(ctx, text, language):
    pieces = list(real_bpe().encode(text)) if language == 'real' else fake_pieces(text)
    if not pieces:
        ctx.event('words without pieces')
        return []
    if pieces[0].startswith('\u2581'):
        pieces[0] = pieces[0][1:]      # the mark of the beginning of a word
    return [p for k, p in enumerate(pieces) if p or k]


def segmentation(ctx):
    """name, settings and expected pieces of a segmenter that is not 'char'"""
    if ctx.rng.random() < 0.5:
        path, model, _ = morfessor_model(ctx)
        return 'morfessor', {'path': path}, lambda text: list(model.viterbi_segment(text)[0])
    language = ctx.rng.choice(['hy', 'real'])
    return 'bpe', {'language': language, 'vocab_size': 1000}, lambda text: bpe_pieces(ctx, text, language)


def bpe(ctx):
    def cut(text):
        return bpe_pieces(ctx, text, language)

    language, vs = ctx.rng.choice(['hy', 'en', 'ru', 'real', 'real']), ctx.rng.choice([1000, 50000])
    before = len(FakeBPEmb.made)
    subwords(ctx, 'bpe', {'segmenter_config': {'language': language, 'vocab_size': vs}}, cut)
    if len(FakeBPEmb.made) > before:
        args, kwargs = FakeBPEmb.made[-1]
        values = list(args) + list(kwargs.values())
        ctx.check(language in values and vs in values, 'BPE model {} is loaded for {} {}', (args, kwargs), language, vs)


_models = {}


def morfessor_model(ctx):
    key = ctx.index % 4
    if key not in _models:
        import random
        rng = random.Random('m{}'.format(key))
        stems = [gen.word(rng, 0.1) for _ in range(8)] + [gen.word(rng, 0.5) for _ in range(8)]
        ends = ['a', 'er', 'ing', 'ами', 'ти', 'ого']
        items = [(rng.randint(1, 5), s.lower() + rng.choice(ends)) for s in stems for _ in range(4)]
        model = morfessor.BaselineModel()
        model.load_data(items)
        model.train_batch()
        path = os.path.join(ctx.scratch, 'morfessor{}.bin'.format(key))
        morfessor.MorfessorIO().write_binary_model_file(path, model)
        _models[key] = (path, morfessor.MorfessorIO().read_any_model(path), [w for _, w in items])
    return _models[key]


def morphs(ctx):
    path, model, known = morfessor_model(ctx)

    def cut(text):
        return list(model.viterbi_segment(text)[0])

    subwords(ctx, 'morfessor', {'segmenter_config': {'path': path}}, cut)


def unknown_segmenter(ctx):
    _, docs = feat.corpus(ctx.rng, docs=1)
    name = ctx.rng.choice(['chars', '', 'BPE', 'word', None])
    ctx.case(name)
    ctx.rejects(lambda: ex.TokenCharactersFeatureExtractorBuilder('s', {'min_frequency': 1, 'segmenter': name}).build(docs), 'segmenter {}'.format(name))


def assembled(ctx):
    """all features of a network together, for batches"""
    rng = ctx.rng
    pool = feat.pool(rng)
    plain, docs = feat.corpus(rng, pool=pool)
    _, others = feat.corpus(rng, docs=1, pool=pool)
    lower, minimum = rng.random() < 0.5, rng.choice([1, 2])
    ctx.case((lower, minimum, plain))
    providers = [provider.SentenceLengthExtractorProvider('len'),
                 provider.TrainableWordEmbeddingExtractorProvider('w', {'min_frequency': minimum, 'lowercase': lower}),
                 provider.SubwordsExtractorProvider('c', {'min_frequency': minimum, 'segmenter': 'char'})]
    rng.shuffle(providers)
    extractor, _, _, initializer = provider.FeatureExtractorBuilderProvider(providers).build(feat.dataset(rng, docs))
    norm = (lambda s: s.lower()) if lower else (lambda s: s)
    wc = Counter(norm(t.text) for t in feat.tokens(docs))
    cc = Counter(c for t in feat.tokens(docs) for c in t.text)
    wk, ck = {w for w, c in wc.items() if c >= minimum}, {c for c, n in cc.items() if n >= minimum}
    ctx.equal((initializer.shapes()['w'][0], initializer.shapes()['c'][0]), (len(wk) + 2, len(ck) + 4), 'vocabulary sizes')
    tw, tc = {}, {}
    for group in (feat.sentences(docs), feat.sentences(others)):
        got = extractor.get_features(group)
        ctx.equal(got['len'], [s.tokens_count for s in group], 'sentence lengths')
        for k, s in enumerate(group):
            for j, t in enumerate(s):
                mapping(ctx, got['w'][k][j], norm(t.text), tw, wk, len(wk) + 2, 2, 'word')
                row = got['c'][k][j]
                ctx.equal((row[0], row[len(t.text) + 1]), (2, 3), 'start and end')
                for i, c in zip(row[1:], t.text):
                    mapping(ctx, i, c, tc, ck, len(ck) + 4, 4, 'character')
    complete(ctx, tw, wk)


def big(ctx):
    """vocabularies of realistic size"""
    rng = ctx.rng
    n = rng.choice([3000, 7000, 12000]) if not ctx.thorough else rng.choice([3000, 12000, 70000])
    words = ['w{}'.format(i) if i % 3 else chr(0x4e00 + i % 20000) + str(i % 7) for i in range(n)]
    repeated = {w: rng.choice([1, 1, 2, 3]) for w in words}
    flat = [w for w in repeated for _ in range(repeated[w])]
    rng.shuffle(flat)
    ctx.case((n, flat[:5], ctx.index))
    docs, sizes = [], rng.choice([50, 997])
    for k in range(0, len(flat), sizes):
        part, text, tokens = flat[k:k + sizes], [], []
        place = 0
        for w in part:
            tokens.append(feat.dm.Token(place, place + len(w)))
            place += len(w) + 1
            text.append(w)
        docs.append(feat.dm.Document(' '.join(text), tokens))
    minimum = rng.choice([1, 1, 2])
    kept = {w for w, c in repeated.items() if c >= minimum}
    extractor, _, initializer = ex.TrainableEmbeddingsExtractorBuilder('w', minimum, False).build(docs)
    chars, _, chars_init = ex.TokenCharactersFeatureExtractorBuilder('s', {'segmenter': 'char', 'min_frequency': 1}).build(docs)
    size, table = initializer.shapes()['w'][0], {}
    cs, ctable = chars_init.shapes()['s'][0], {}
    ck = {c for w in repeated for c in w}
    ctx.equal((size, cs), (len(kept) + 2, len(ck) + 4), 'vocabulary sizes')
    for d in docs:
        for t in d.tokens:
            mapping(ctx, extractor.get_features(t)['w'], t.text, table, kept, size, 2, 'word')
            for i, c in zip(chars.get_features(t)['s'][1:-1], t.text):
                mapping(ctx, i, c, ctable, ck, cs, 4, 'character')
    complete(ctx, table, kept)
    complete(ctx, ctable, ck)
    ctx.event('big vocabularies')


def parts(tier):
    return [Part('words', words, 1500, 20000, required=['kept', 'oov']),
            Part('chars', chars, 1000, 15000, required=['segmented']),
            Part('bpe', bpe, 800, 10000, required=['words without pieces']),
            Part('morphs', morphs, 300, 4000),
            Part('unknown_segmenter', unknown_segmenter, 20, 50),
            Part('assembled', assembled, 600, 8000),
            Part('big', big, 8, 40, required=['big vocabularies'])]
