"""C19: every word found in a pretrained embedding file gets its own row, filled with exactly the vector of the file."""
import os

from vf import feat, gen
from vf.checks import c18  # replaces the downloaded BPE models first
from vf import neural  # TensorFlow 1 interface first
from vf.core import Part
from babylondigger.features import extractors as ex, provider

tf = neural.tf
RULE = ('a case is an embedding file (with or without the line of sizes, different dimensions and scripts, repeated words) and a corpus; ids '
        'of tokens are joined with the initial rows and compared with the file; in the network part the rows are read back from the '
        'initialised variable of the real network; non-trivial when some corpus words are in the file and some are not')
ASSUMPTIONS = ['the network part runs the code over the TensorFlow 1 interface of the installed TensorFlow 2']


SPACED = ['10\u00a0000', 'a\u00a0b', 'x\u2009y', '\u00a0', 'q\u3000', '\u2028z', 'n\u202f%', 'e\x85f']


def one_word(s):
    """columns of the file are separated by spaces or tabs; other (no-break, thin ...) spaces are parts of words"""
    return bool(s) and not any(c in s for c in ' \t\r\n\x0b\x0c\x1c\x1d\x1e\x1f')


def spaced(rng, pool):
    if rng.random() < 0.3:
        pool = pool + [(w, w.lower(), 'X', None, {}) for w in rng.sample(SPACED, 3)]
    return pool


def make_file(ctx, entries, dim, header, path=None):
    rng = ctx.rng
    path = path or os.path.join(ctx.scratch, 'emb')
    # the programs that train embeddings end lines differently
    end = rng.choice(['\n', '\n', ' \n', '\t\n', '\r\n', ' \r\n'])
    with open(path, 'w', encoding='utf8', newline='') as f:
        if header:
            f.write('{} {}{}'.format(len(entries), dim, end if rng.random() < 0.5 else '\n'))
        for w, v in entries:
            f.write('{}{}{}{}'.format(w, rng.choice([' ', ' ', '\t', '  ']), ' '.join(map(repr, v)), end if rng.random() < 0.8 else '\n'))
        ctx.event('line ends: ' + repr(end))
    return path


def vector(rng, dim):
    return [rng.choice([round(rng.uniform(-3, 3), 4), 0.0, -1.5e-3, 1e-7, float(rng.randint(-9, 9))]) for _ in range(dim)]


def entries_for(rng, candidates, dim):
    words = sorted({w for w in candidates if one_word(w)})
    rng.shuffle(words)
    words = words[:max(1, int(len(words) * rng.choice([0.3, 0.6, 1.0])))] + ['zzqq']
    words += [w for w in (gen.word(rng) for _ in range(3)) if one_word(w)]
    words = list(dict.fromkeys(words))
    return [(w, vector(rng, dim)) for w in words]


def rows(ctx, values, size, dim):
    """initial rows as a dict, each given once"""
    result = {}
    for i, v in values:
        ctx.check(isinstance(i, int) and 0 <= i < size, 'initial row {} is outside of [0, {})', i, size)
        ctx.check(i not in result, 'row {} is given twice', i)
        ctx.equal(len(v), dim, 'length of row {}'.format(i))
        result[i] = list(v)
    ctx.equal(result.get(0), [0] * dim, 'row of the padding')
    return result


def words(ctx):
    rng = ctx.rng
    _, docs = feat.corpus(rng, docs=2, pool=spaced(rng, feat.pool(rng)))
    lower, dim, header = rng.random() < 0.6, rng.choice([1, 2, 3, 5, 17]), rng.random() < 0.5
    header = header or dim == 1
    entries = entries_for(rng, [t.text for t in feat.tokens(docs)] + [t.text.lower() for t in feat.tokens(docs)], dim)
    table = dict(entries)
    path = make_file(ctx, entries, dim, header)
    direct = rng.random() < 0.5
    found = sum((t.text.lower() if lower else t.text) in table for t in feat.tokens(docs))
    ctx.case((lower, dim, header, entries), nontrivial=0 < found < len(feat.tokens(docs)))
    if direct:
        extractor, _, initializer = ex.WordEmbeddingFeatureExtractorBuilder('f', 'init', path, lower).build(docs)
        ids = [(t, extractor.get_features(t)['f']) for t in feat.tokens(docs)]
    else:
        extractor, _, _, initializer = provider.FeatureExtractorBuilderProvider(
            [provider.WordEmbeddingExtractorProvider('f', 'init', {'path': path, 'lowercase': lower})]).build(docs)
        got = extractor.get_features(feat.sentences(docs))['f']
        ids = [(t, got[k][j]) for k, s in enumerate(feat.sentences(docs)) for j, t in enumerate(s)]
    ctx.equal(list(initializer.shapes()['init']), [len(table) + 2, dim], 'shape of the embeddings')
    initial = rows(ctx, initializer.initial_values()['init'], len(table) + 2, dim)
    ctx.equal(len(initial), len(table) + 1, 'number of initial rows')
    for t, i in ids:
        key = t.text.lower() if lower else t.text
        if key in table:
            ctx.event('found')
            if len(key.split()) != 1 or key.split()[0] != key:
                ctx.event('words with inner spaces found')
            ctx.check(i >= 2, 'id {} of {}', i, key)
            ctx.equal(initial[i], table[key], 'vector of {!r}'.format(key))
        else:
            ctx.event('oov')
            ctx.equal(i, 1, 'id of the unknown {!r}'.format(key))
    ctx.equal(sorted(v for k, v in initial.items() if k > 1), sorted(table.values()), 'all vectors of the file')


def subwords(ctx):
    rng = ctx.rng
    _, docs = feat.corpus(rng, docs=2, pool=spaced(rng, feat.pool(rng)))
    dim, header = rng.choice([2, 3, 9]), rng.random() < 0.5
    kind, segmenter_config, cut = c18.segmentation(ctx) if rng.random() < 0.4 else ('char', None, list)
    entries = entries_for(rng, [c for t in feat.tokens(docs) for c in cut(t.text)], dim)
    table = dict(entries)
    path = make_file(ctx, entries, dim, header)
    ctx.case((kind, dim, header, entries))
    config = {'embedding_path': path, 'segmenter': kind}
    if segmenter_config:
        config['segmenter_config'] = segmenter_config
    extractor, _, initializer = ex.SubwordEmbeddingFeatureExtractorBuilder('f', 'init', config).build(docs)
    ctx.event('segmenter ' + kind)
    ctx.equal(list(initializer.shapes()['init']), [len(table) + 4, dim], 'shape of the embeddings')
    initial = rows(ctx, initializer.initial_values()['init'], len(table) + 4, dim)
    for t in feat.tokens(docs):
        ids = extractor.get_features(t)['f']
        pieces = cut(t.text)
        ctx.equal((len(ids), ids[0], ids[-1]), (len(pieces) + 2, 2, 3), 'length, start and end of {!r} as {}'.format(t.text, pieces))
        for c, i in zip(pieces, ids[1:]):
            if c in table:
                ctx.event('found')
                ctx.check(i >= 4, 'id {} of {}', i, c)
                ctx.equal(initial[i], table[c], 'vector of {!r}'.format(c))
            else:
                ctx.event('oov')
                ctx.equal(i, 1, 'id of the unknown {!r}'.format(c))
    ctx.equal(sorted(v for k, v in initial.items() if k > 3), sorted(table.values()), 'all vectors of the file')


def repeated(ctx):
    """words which the file gives several times, and words which differ in case only: one row with a vector of exactly this word"""
    rng = ctx.rng
    pool = feat.pool(rng)
    pool += [(w.swapcase(), le, u, x, f) for w, le, u, x, f in pool]
    _, docs = feat.corpus(rng, docs=2, pool=pool)
    lower, dim, header = rng.random() < 0.5, rng.choice([2, 3, 5]), rng.random() < 0.5
    texts = [t.text for t in feat.tokens(docs)]
    entries = entries_for(rng, texts + [t.lower() for t in texts], dim)
    entries += [(w, vector(rng, dim)) for w, _ in rng.sample(entries, rng.randint(1, len(entries)))]
    if rng.random() < 0.5:
        rng.shuffle(entries)
    vectors = {}
    for w, v in entries:
        vectors.setdefault(w, []).append(v)
    path = make_file(ctx, entries, dim, header)
    ctx.case((lower, header, entries))
    extractor, _, initializer = ex.WordEmbeddingFeatureExtractorBuilder('f', 'init', path, lower).build(docs)
    size = initializer.shapes()['init'][0]
    ctx.equal(initializer.shapes()['init'][1], dim, 'dimension of the embeddings')
    initial = rows(ctx, initializer.initial_values()['init'], size, dim)
    of_word = {}
    for t in feat.tokens(docs):
        key = t.text.lower() if lower else t.text
        i = extractor.get_features(t)['f']
        if key not in vectors:
            ctx.equal(i, 1, 'id of the unknown {!r}'.format(key))
            continue
        ctx.event('repeated words' if len(vectors[key]) > 1 else 'single words')
        ctx.check(2 <= i < size, 'id {} of {} in {} rows', i, key, size)
        ctx.check(i in initial and initial[i] in vectors[key], 'row {} of {!r} is {}, vectors of the file: {}', i, key, initial.get(i), vectors[key])
        of_word.setdefault(key, set()).add(i)
    ids = [i for s in of_word.values() for i in s]
    ctx.equal(len(ids), len(of_word), 'ids of {} words'.format(len(of_word)))
    ctx.equal(len(set(ids)), len(ids), 'different ids of different words')


def malformed(ctx):
    rng = ctx.rng
    dim, header = rng.choice([2, 3, 5, 8]), rng.random() < 0.5
    entries = [('w{}'.format(k), vector(rng, dim)) for k in range(rng.randint(2, 12))]
    k = rng.randrange(0 if header else 1, len(entries))
    mode = rng.choice(['short', 'long', 'text', 'empty'])
    w, v = entries[k]
    if mode == 'short' and not (dim - 1 == 0):
        entries[k] = (w, v[:-1])
    elif mode == 'long':
        entries[k] = (w, v + [0.5])
    elif mode == 'empty':
        entries[k] = (w, [])
    path = make_file(ctx, entries, dim, header)
    if mode == 'text':
        with open(path, encoding='utf8') as f:
            lines = f.read().split('\n')
        lines[k + header] = 'w{} '.format(k) + ' '.join(['x'] * dim)
        with open(path, 'w', encoding='utf8') as f:
            f.write('\n'.join(lines))
    ctx.case((mode, header, entries))
    config = {'embedding_path': path, 'segmenter': 'char'}
    ctx.rejects(lambda: ex.WordEmbeddingFeatureExtractorBuilder('f', 'init', path, True).build([]), '{} vector'.format(mode))
    ctx.rejects(lambda: ex.SubwordEmbeddingFeatureExtractorBuilder('f', 'init', config).build([]), '{} vector'.format(mode))


def network(ctx):
    """the vectors in the variable of the network at the first training step, joined with the ids of the fed words"""
    rng = ctx.rng
    from babylondigger.neural import model as m
    plain, docs = neural.treebank(rng, docs=2)
    dim, header = 7, rng.random() < 0.5
    lower = rng.random() < 0.5
    entries = entries_for(rng, [t.text for t in feat.tokens(docs)] + [t.text.lower() for t in feat.tokens(docs)], dim)
    path = make_file(ctx, entries, dim, header, os.path.join(ctx.scratch, 'emb-words'))
    table = dict(entries)
    features = ['word_embedding'] + (['word_characters'] if rng.random() < 0.5 else [])
    hyper = neural.config(rng, emb=path, features=features, lemma='lemma_dense')
    hyper['nn_config']['shared_part']['features_config']['word_embedding'].update(lowercase=lower)
    hyper['batch_size'] = 1000
    chars = None
    if 'word_characters' in features and rng.random() < 0.6:
        centries = entries_for(rng, [c for t in feat.tokens(docs) for c in t.text], 11)
        chars = dict(centries)
        cpath = make_file(ctx, centries, 11, rng.random() < 0.5, os.path.join(ctx.scratch, 'emb-chars'))
        hyper['nn_config']['shared_part']['features_config']['word_characters'].update(embedding_path=cpath, embed_size=11, aggregator='average')
    ctx.case((header, lower, hyper, entries))
    seen = []
    original = m.Model.train
    sessions = []
    session_init = tf.Session.__init__

    def init(self, *args, **kwargs):
        session_init(self, *args, **kwargs)
        sessions.append(self)

    class Stop(Exception):
        pass

    def observed(self, features, labels):
        session = sessions[-1]
        variables = [v for v in session.graph.get_collection('variables') if v.shape.as_list()[1:] in ([dim], [11])]
        seen.append((features, session.run(variables)))
        raise Stop()

    m.Model.train, tf.Session.__init__ = observed, init
    try:
        neural.train(docs, hyper, os.path.join(ctx.scratch, 'models'))
    except Stop:
        pass
    finally:
        m.Model.train, tf.Session.__init__ = original, session_init
    features, variables = seen[0]
    sents = feat.sentences(docs)

    def compare(matrix, pairs, what):
        ctx.equal([float(x) for x in matrix[0]], [0.0] * matrix.shape[1], 'padding row of ' + what)
        for key, i, vectors in pairs:
            if key in vectors:
                ctx.event('rows in the network')
                got = [float(x) for x in matrix[i]]
                ctx.check(all(abs(a - b) <= 1e-5 * max(1, abs(b)) for a, b in zip(got, vectors[key])),
                          'vector of {} in the network is {}, in the file {}', key, got, vectors[key])

    words_var = [v for v in variables if v.shape == (len(table) + 2, dim)]
    ctx.check(words_var, 'no variable of {} words', len(table) + 2)
    name = next(n for n, v in features.items() if n == 'words')
    compare(words_var[0], [(t.text.lower() if lower else t.text, features[name][k][j], table)
                           for k, s in enumerate(sents) for j, t in enumerate(s)], 'words')
    if chars is not None:
        var = [v for v in variables if v.shape == (len(chars) + 4, 11)]
        ctx.check(var, 'no variable of {} characters', len(chars) + 4)
        compare(var[0], [(c, i, chars) for k, s in enumerate(sents) for j, t in enumerate(s)
                         for c, i in zip(t.text, features['characters'][k][j][1:])], 'characters')


def setup(ctx):
    pass


setup.big = True


def parts(tier):
    return [Part('words', words, 1200, 15000, required=['found', 'oov', 'words with inner spaces found']),
            Part('subwords', subwords, 600, 8000),
            Part('repeated', repeated, 300, 4000, required=['repeated words', 'single words']),
            Part('malformed', malformed, 600, 5000, required=['rejections']),
            Part('network', network, 24, 300, timeout=120, required=['rows in the network'])]
