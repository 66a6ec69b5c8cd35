"""C08: datasets deliver documents of at most `limit` sentences, in order, on every traversal, and release the file."""
import gc
import os

from vf import gen, ref
from vf.core import Part
from vf.checks.c07 import expected_docs, observed, write
from babylondigger.evaluation.conllu_io import CoNLLUReader
from babylondigger.evaluation.dataset import CoNLLUDataSet

RULE = ('a case is a CoNLL-U file with a schedule of traversals (complete, abandoned, interleaved, after errors); the documents of '
        'each traversal and the open descriptors of the file are observed; non-trivial when the file has at least three sentences')


def open_count(path):
    path = os.path.realpath(path)
    n = 0
    for fd in os.listdir('/proc/self/fd'):
        try:
            if os.readlink('/proc/self/fd/' + fd) == path:
                n += 1
        except OSError:
            pass
    return n


def setup_case(ctx, rng, **kwargs):
    doc = gen.document(rng, sentences=rng.choice([1, 2, 3, 5, 7, 11, 16]), big=6, **kwargs)
    text = ref.conllu(doc, rng, noise=rng.random() < 0.5)
    limit = rng.choice([1, 1, 2, 3, 4, len(doc), len(doc) + 1, 50])
    return doc, text, limit


def plain(want):
    return [(t, w, b) for t, w, b in want]


def chunks(ctx):
    rng = ctx.rng
    doc, text, limit = setup_case(ctx, rng)
    ctx.case((limit, text), nontrivial=len(doc) > 2)
    want = expected_docs(doc, limit)
    docs = list(CoNLLUReader(limit).read_from_str(text))
    ctx.equal([d.sentences_count for d in docs], [len(b) for _, _, b in want], 'sizes of the documents (limit {}, {} sentences)'.format(limit, len(doc)))
    ctx.equal([observed(d) for d in docs], plain(want), 'documents')
    flat = [s for d in docs for s in observed(d)[1]]
    single = [s for d in CoNLLUReader(1).read_from_str(text) for s in observed(d)[1]]
    ctx.equal([w[4:] for w in flat], [w[4:] for w in single], 'the words do not depend on the limit')


def schedule(ctx):
    rng = ctx.rng
    doc, text, limit = setup_case(ctx, rng)
    path = write(ctx, text, 'd{}.conllu'.format(ctx.index))
    if limit == 1 and rng.random() < 0.7:
        data = CoNLLUDataSet(path)
    else:
        data = CoNLLUDataSet(path, CoNLLUReader(limit))
    want = plain(expected_docs(doc, limit))
    iterators = []
    log = []
    for _ in range(rng.randint(3, 25)):
        action = rng.choice(['new', 'next', 'next', 'next', 'drop', 'full'])
        if action == 'new' or not iterators:
            iterators.append([iter(data), 0])
            action = 'new'
        elif action == 'next':
            it = rng.choice(iterators)
            ctx.event('steps')
            try:
                got = observed(next(it[0]))
            except StopIteration:
                ctx.equal(it[1], len(want), 'documents of an interleaved traversal')
                iterators.remove(it)
            else:
                ctx.check(it[1] < len(want), 'a traversal gave {} documents, expected {}', it[1] + 1, len(want))
                ctx.equal(got, want[it[1]], 'document {} of an interleaved traversal'.format(it[1]))
                it[1] += 1
        elif action == 'drop':
            it = iterators.pop(rng.randrange(len(iterators)))
            if rng.random() < 0.5 and hasattr(it[0], 'close'):
                it[0].close()
            del it
        else:
            ctx.event('traversals')
            ctx.equal([observed(d) for d in data], want, 'complete traversal')
        log.append(action)
    ctx.case((limit, text, log), nontrivial=len(doc) > 2)
    for it in iterators:
        rest = [observed(d) for d in it[0]]
        ctx.equal(rest, want[it[1]:], 'the rest of an interleaved traversal')
    del iterators
    it = None
    gc.collect()
    ctx.equal(open_count(path), 0, 'descriptors left open after all traversals are finished or dropped')
    # the dataset reads the file again for each traversal
    os.remove(path)
    ctx.rejects(lambda: list(data), 'dataset of a removed file')


def released(ctx):
    """the file is closed at exhaustion, at close in the middle and at an error (while the iterator is still referenced)"""
    rng = ctx.rng
    doc, text, limit = setup_case(ctx, rng, syntax=True, hostile=False)
    broken = rng.random() < 0.4
    kept = None
    if broken:
        lines = text.split('\n')
        k = rng.choice([i for i, line in enumerate(lines) if line and not line.startswith('#')])
        lines[k] = 'broken\tline'
        text = '\n'.join(lines)
    path = write(ctx, text, 'r{}.conllu'.format(ctx.index))
    ctx.case((limit, broken, text), nontrivial=len(doc) > 2)
    it = CoNLLUReader(limit).read_from_file(path)
    if broken:
        try:
            for _ in it:
                pass
        except Exception as e:
            kept = e  # with its traceback
            ctx.event('errors')
        else:
            ctx.check(False, 'broken line is accepted')
        ctx.event('closings')
    elif rng.random() < 0.4:
        next(it)
        it.close()
        ctx.event('closings')
    else:
        ctx.equal([observed(d) for d in it], plain(expected_docs(doc, limit)), 'documents')
        ctx.event('closings')
    ctx.equal(open_count(path), 0, 'open descriptors of the file{}'.format(' after a reported error' if kept else ''))
    os.remove(path)


def long(ctx):
    """long sentences: documents of thousands of words are cut at the same sentences"""
    rng = ctx.rng
    count, limit = rng.choice([20, 45, 60]), rng.choice([1, 10, 20, 50, 50])
    doc = [gen.sentence(rng, n=rng.choice([40, 60, 90, 130]), multi=0.02, big=4) for _ in range(count)]
    text = ref.conllu(doc)
    ctx.case((limit, text))
    want = plain(expected_docs(doc, limit))
    path = write(ctx, text, 'l{}.conllu'.format(ctx.index))
    data = CoNLLUDataSet(path, CoNLLUReader(limit))
    for _ in range(2):
        docs = list(data)
        ctx.event('long documents', len(docs))
        ctx.equal([d.sentences_count for d in docs], [len(b) for _, _, b in want], 'sizes of long documents (limit {}, {} sentences)'.format(limit, count))
        ctx.equal([observed(d) for d in docs], want, 'long documents')
    os.remove(path)


def parts(tier):
    return [Part('chunks', chunks, 1500, 20000),
            Part('schedule', schedule, 1200, 15000, required=['steps', 'traversals']),
            Part('released', released, 1000, 10000, required=['closings', 'errors']),
            Part('long', long, 16, 160, required=['long documents'])]
