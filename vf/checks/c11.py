"""C11: whatever document is written, the scorer can load it, counts it right and scores it perfect against itself."""
import io
import os

from vf import gen, ref, scorer
from vf.core import Part
import babylondigger.datamodel as dm
from vf.checks.c03 import make
from babylondigger.evaluation.conllu_io import CoNLLUWriter
from babylondigger.evaluation import conll17_ud_eval as ud

RULE = ('a case is a random document (parsed, unparsed and mixed sentences, multiword tokens at all places, deep trees, any columns) '
        'written by the real writer and loaded and scored by the real scorer; non-trivial when there are at least two words')


def no_blank_forms(doc):
    return all(u.surface.replace(' ', '') for s in doc for u in s)


def check(ctx, doc, real, columns, text=None):
    writer = CoNLLUWriter(columns) if columns is not None else CoNLLUWriter()
    out = writer.write_to_str(real)
    if ctx.rng.random() < 0.3:
        path = os.path.join(ctx.scratch, 'w.conllu')
        writer.write_to_file(path, real)
        loaded = ud.load_conllu_file(path)
        os.remove(path)
    else:
        loaded = ud.load_conllu(io.StringIO(out))
    ctx.event('loaded')
    words = gen.doc_words(doc)
    ctx.equal((len(loaded.words), len(loaded.sentences), len(loaded.tokens)), (len(words), len(doc), sum(len(s) for s in doc)),
              'words, sentences and tokens seen by the scorer')
    ctx.equal(''.join(loaded.characters), ''.join(u.surface.replace(' ', '') for s in doc for u in s), 'characters seen by the scorer')
    other = ud.load_conllu(io.StringIO(out))
    scores = ud.evaluate(loaded, other)
    content = any(scorer.CLAS.get(('_' if w.head is None or (columns is not None and 7 not in columns) else ref.u(w.deprel)).split(':')[0], 1.0)
                  for w in words)
    for name, s in scores.items():
        ctx.event('metrics')
        if name == 'CLAS' and not content:
            continue
        ctx.equal((s.precision, s.recall, s.f1), (1.0, 1.0, 1.0), 'score of the document against itself: ' + name)
        if s.aligned_accuracy is not None:
            ctx.equal(s.aligned_accuracy, 1.0, 'aligned accuracy: ' + name)


def written(ctx):
    rng = ctx.rng
    doc, placed = make(rng, big=60)
    if not no_blank_forms(doc):
        return
    real = gen.build_document(dm, doc, rng, notation='mixed', placed=placed)
    ctx.case(placed, nontrivial=len(placed[1]) > 1)
    columns = None
    if rng.random() < 0.3:
        columns = tuple(c for c in (2, 3, 4, 5, 7) if rng.random() < 0.5)
    check(ctx, doc, real, columns)


def deep(ctx):
    """long dependency chains (in both directions)"""
    rng = ctx.rng
    n = [500, 999, 1000, 1001, 1500, 2500][ctx.index % 6]
    direction = ctx.index // 6 % 3
    words = []
    for i in range(n):
        head = i - 1 if direction == 0 else (i + 1 if i + 1 < n else -1) if direction == 1 else None
        words.append(gen.Word('w', 'w', 'X', None, {}, head, 'dep' if head is not None else None))
    doc = [[gen.Unit('w', [w], False, True) for w in words]]
    ctx.case((n, direction))
    check(ctx, doc, gen.build_document(dm, doc, rng), None)


def parts(tier):
    return [Part('written', written, 2500, 40000, required=['loaded', 'metrics']), Part('deep', deep, 18, 18)]
