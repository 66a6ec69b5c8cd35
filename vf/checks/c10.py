"""C10: the columns given to a reader or a writer are exactly what it reads or writes."""
import itertools

from vf import gen, ref
from vf.core import Part
import babylondigger.datamodel as dm
from vf.checks.c07 import norm_pos
from babylondigger.evaluation.conllu_io import CoNLLUReader, CoNLLUWriter

LEMMA, UPOS, XPOS, FEATS, HEAD, DEPREL = 2, 3, 4, 5, 6, 7
SUBSETS = [c for n in range(6) for c in itertools.combinations((LEMMA, UPOS, XPOS, FEATS, DEPREL), n)]

RULE = ('a case is a random document and one of the 32 column subsets (HEAD belongs to DEPREL); selected columns are compared with '
        'the plain document, not selected ones have to be absent; non-trivial when there are at least two words')


def given(rng, subset):
    cols = list(subset)
    if DEPREL in cols and rng.random() < 0.4:
        cols.append(HEAD)
    rng.shuffle(cols)
    return rng.choice([list, tuple, set, iter])(cols)


def expect(w, subset):
    pos = (w.upos if UPOS in subset else None, w.xpos if XPOS in subset else None,
           tuple(sorted(w.feats.items())) if FEATS in subset else ())
    return (w.lemma if LEMMA in subset else None, None if pos == (None, None, ()) else pos,
            w.head if DEPREL in subset else None, w.deprel if DEPREL in subset else None)


def reader(ctx):
    rng = ctx.rng
    subset = SUBSETS[ctx.index % len(SUBSETS)]
    doc = gen.document(rng, big=25, sentences=rng.randint(1, 4))
    text = ref.conllu(doc, rng, noise=rng.random() < 0.4)
    ctx.case((subset, text), nontrivial=sum(len(s) for s in doc) > 1)
    r = CoNLLUReader(rng.choice([1, 50]), given(rng, subset))
    for _ in range(rng.choice([1, 2])):
        docs = list(r.read_from_str(text))
        got = [(t.text, t.lemma, norm_pos(t.pos), t.head_index, t.deprel) for d in docs for s in d.sentences for t in s.tokens]
        want = [((w.form if u.multi else u.surface),) + expect(w, subset) for s in doc for u in s for w in u.words]
        ctx.event('words', len(want))
        ctx.equal(got, want, 'words read with columns {}'.format(subset))
        ctx.equal(''.join(d.text for d in docs), gen.place(doc)[0], 'text')


def writer(ctx):
    rng = ctx.rng
    subset = SUBSETS[ctx.index % len(SUBSETS)]
    doc = gen.document(rng, big=25, sentences=rng.randint(1, 3))
    text, ps = gen.place(doc)
    bare = rng.random() < 0.15
    if bare:   # documents without any annotation
        doc = [[u._replace(words=[w._replace(lemma=None, upos=None, xpos=None, feats={}, head=None, deprel=None) for w in u.words]) for u in s]
               for s in doc]
        text, ps = gen.place(doc)
    real = gen.build_document(dm, doc, rng, placed=(text, ps))
    ctx.case((subset, text, ps), nontrivial=len(ps) > 1)
    out = CoNLLUWriter(given(rng, subset)).write_to_str(real)
    try:
        parsed = ref.parse(out)
    except (ValueError, IndexError) as e:
        ctx.check(False, 'written text is not CoNLL-U: {}\n{}', str(e), out)
    rows = [r for s in parsed for u in s for r in u[3]]
    words = [(w, u) for s in doc for u in s for w in u.words]
    ctx.equal(len(rows), len(words), 'words')
    for row, (w, u) in zip(rows, words):
        ctx.event('rows')
        e = expect(w, subset)
        pos = e[1] or (None, None, ())
        ctx.equal(row[1], w.form if u.multi else u.surface, 'FORM')
        ctx.equal(row[LEMMA:FEATS + 1], [ref.u(e[0]), ref.u(pos[0]), ref.u(pos[1]), ref.feats_str(dict(pos[2]))], 'columns with {}'.format(subset))
        if e[2] is not None:
            ctx.equal(row[HEAD:DEPREL + 1], [str(e[2] + 1), ref.u(e[3])], 'syntax with {}'.format(subset))
        else:
            ctx.equal(row[DEPREL], '_', 'DEPREL is not selected')
            ctx.check(row[HEAD] == '_' or row[HEAD].isdigit(), 'HEAD placeholder {}', row)
    # the same columns read what has been written
    back = [(t.text, t.lemma, norm_pos(t.pos)) for d in CoNLLUReader(50, subset).read_from_str(out) for t in d.tokens]
    ctx.equal(back, [(w.form if u.multi else u.surface,) + expect(w, subset)[:2] for w, u in words], 'read back')


def independent(ctx):
    """readers and writers with different columns do not influence each other"""
    rng = ctx.rng
    doc = gen.document(rng, big=8, sentences=2, hostile=False, syntax=True, lemmas='always')
    text = ref.conllu(doc)
    chosen = [rng.choice(SUBSETS) for _ in range(3)]
    ctx.case((chosen, text))
    readers = [(c, CoNLLUReader(1, c)) for c in chosen] + [(SUBSETS[-1], CoNLLUReader(1))]
    its = [(c, r.read_from_str(text)) for c, r in readers]
    for sent in doc:
        for c, it in its:
            d = next(it)
            got = [(t.lemma, norm_pos(t.pos), t.head_index, t.deprel) for t in d.tokens]
            ctx.equal(got, [expect(w, c) for w in gen.words(sent)], 'interleaved reading with {}'.format(c))


def parts(tier):
    return [Part('reader', reader, 32 * 60, 32 * 800, required=['words']),
            Part('writer', writer, 32 * 60, 32 * 800, required=['rows']),
            Part('independent', independent, 300, 3000)]
