"""C09: writing CoNLL-U loses nothing: the lines show every word with its annotation, and reading them gives it back."""
import os

from vf import gen, ref
from vf.core import Part
import babylondigger.datamodel as dm
from vf.checks.c03 import make
from vf.checks.c07 import norm_pos
from babylondigger.evaluation.conllu_io import CoNLLUReader, CoNLLUWriter

RULE = ('a case is one or more random documents; the written text goes through a strict independent CoNLL-U parser and through the '
        'real reader, both results are compared with the plain documents; non-trivial when there are at least two words')


def expected_units(doc, ps):
    """[[(surface, multi, space, [word, ...])]]"""
    result = []
    k = 0
    for sent in doc:
        units = []
        for unit in sent:
            units.append((unit.surface, unit.multi, ps[k].space, list(unit.words)))
            k += len(unit.words)
        result.append(units)
    return result


def check_rows(ctx, text, expected, columns=None):
    try:
        parsed = ref.parse(text)
    except (ValueError, IndexError) as e:
        ctx.check(False, 'written text is not CoNLL-U: {}\n{}', str(e), text)
    ctx.equal(len(parsed), len(expected), 'number of sentences')
    for units, want in zip(parsed, expected):
        ctx.equal([(s, m, sp, len(rows)) for s, m, sp, rows in units], [(s, m, sp, len(ws)) for s, m, sp, ws in want], 'tokens')
        i = 0
        for (_, multi, _, rows), (surface, _, _, words) in zip(units, want):
            for row, w in zip(rows, words):
                ctx.event('rows')
                exp = ref.word_row(i, w)
                exp[1] = w.form if multi else surface
                ctx.equal(row[:6], exp[:6], 'columns of word {}'.format(i))
                if w.head is not None:
                    ctx.equal(row[6:8], exp[6:8], 'syntax of word {}'.format(i))
                else:
                    ctx.check(row[6] == '_' or row[6].lstrip('-').isdigit(), 'HEAD of a word without syntax {}', row)
                    ctx.equal(row[7], '_', 'DEPREL of a word without syntax')
                ctx.equal(row[8], '_', 'DEPS')
                i += 1


def back_view(doc):
    return [[(t.text, t.doc_text, t.is_multiword, t.sub_index, t.space_after, t.lemma, norm_pos(t.pos), t.head_index, t.deprel)
             for t in s.tokens] for s in doc.sentences]


def many(rng, big=40):
    return [make(rng, big=big) for _ in range(rng.choice([1, 1, 1, 2, 3]))]


def rows(ctx):
    rng = ctx.rng
    docs = many(rng)
    real = [gen.build_document(dm, d, rng, notation='mixed', shuffle=rng.random() < 0.3, placed=p) for d, p in docs]
    ctx.case([p for _, p in docs], nontrivial=len(docs[0][1][1]) > 1)
    writer = CoNLLUWriter()
    before = [ref.doc_view(r) for r in real]
    text = writer.write_to_str(*real)
    expected = [units for d, p in docs for units in expected_units(d, p[1])]
    check_rows(ctx, text, expected)
    ctx.equal([ref.doc_view(r) for r in real], before, 'documents after writing')
    ctx.equal(writer.write_to_str(*real), text, 'second writing')
    ctx.equal(''.join(writer.write_to_str(r) for r in real), text, 'documents written one by one')
    path = os.path.join(ctx.scratch, 'out.conllu')
    if rng.random() < 0.5:
        with open(path, 'w') as f:
            f.write('old content ' * 1000)
    CoNLLUWriter().write_to_file(path, *real)
    with open(path, encoding='utf-8', newline='') as f:
        ctx.equal(f.read(), text, 'written file')
    os.remove(path)


def round_trip(ctx):
    rng = ctx.rng
    docs = many(rng)
    real = [gen.build_document(dm, d, rng, placed=p) for d, p in docs]
    ctx.case([p for _, p in docs], nontrivial=len(docs[0][1][1]) > 1)
    text = CoNLLUWriter().write_to_str(*real)
    limit = rng.choice([1, 2, 50, 1000])
    if rng.random() < 0.5:
        back = list(CoNLLUReader(limit).read_from_str(text))
    else:
        path = os.path.join(ctx.scratch, 'out.conllu')
        CoNLLUWriter().write_to_file(path, *real)
        back = list(CoNLLUReader(limit).read_from_file(path))
        os.remove(path)
    got = [s for d in back for s in back_view(d)]
    want = [s for d in real for s in back_view(d)]
    ctx.equal(len(got), len(want), 'sentences after the round trip')
    for g, w in zip(got, want):
        ctx.equal(len(g), len(w), 'words after the round trip')
        last_unit = max(i for i, x in enumerate(w) if x[3] == 0)
        for i, (a, b) in enumerate(zip(g, w)):
            ctx.event('words')
            last = i >= last_unit
            if b[7] is None:          # no syntax: the written HEAD is a placeholder
                a, b = a[:7] + (None, None), b[:7] + (None, None)
            if last:                  # the end of the text reads as white space
                a, b = a[:4] + (None,) + a[5:], b[:4] + (None,) + b[5:]
            ctx.equal(a, b, 'word {} after the round trip'.format(i))
    # what has been read is written as the same text again
    again = CoNLLUWriter().write_to_str(*CoNLLUReader(len(got) + 1).read_from_str(text))
    ctx.check(same_but_last_space(again, text), 'second round trip:\n{}\nexpected\n{}', again, text)


def same_but_last_space(a, b):
    """the last token of a document which ends there has no SpaceAfter=No"""
    la, lb = a.split('\n'), b.split('\n')
    if len(la) != len(lb):
        return False
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y and x.split('\t')[:9] != y.split('\t')[:9]:
            return False
    return True


def treebank(ctx):
    """text -> reader -> writer: the lines of the treebank come back"""
    rng = ctx.rng
    doc = gen.document(rng, big=40, syntax=True, multi=rng.choice([0, 0.3]))
    text = ref.conllu(doc)
    ctx.case(text)
    limit = rng.choice([1, 3, 50])
    out = CoNLLUWriter().write_to_str(*CoNLLUReader(limit).read_from_str(text))
    got, want = out.split('\n'), text.split('\n')
    ctx.equal(len(got), len(want), 'number of lines')
    chunk_end = set()
    k = 0
    for i, line in enumerate(want):
        if not line:
            k += 1
            if k % limit == 0 or k == len(doc):
                chunk_end.add(i)
    last_token = set()
    for end in chunk_end:
        j = end - 1
        last_token.add(j)
        while j >= 0 and want[j]:
            if '-' in want[j].split('\t')[0]:
                last_token.add(j)
            j -= 1
    for i, (a, b) in enumerate(zip(got, want)):
        ctx.event('lines')
        a, b = a.split('\t'), b.split('\t')
        if len(a) == 10 and len(b) == 10:
            a[5] = '|'.join(sorted(a[5].split('|')))
            if i in last_token:
                a[9] = b[9] = '_'
        ctx.equal(a, b, 'line {}'.format(i))


def long(ctx):
    """long sentences and multiword tokens of many words"""
    rng = ctx.rng
    doc = gen.long_document(rng)
    placed = gen.place(doc)
    real = gen.build_document(dm, doc, rng, notation='mixed', placed=placed)
    ctx.case(placed[0][:2000])
    text = CoNLLUWriter().write_to_str(real)
    check_rows(ctx, text, expected_units(doc, placed[1]))
    if all(w.head is not None for w in gen.doc_words(doc)):
        back = list(CoNLLUReader(50).read_from_str(text))
        ctx.equal([[x[:4] + x[5:] for x in s] for d in back for s in back_view(d)],
                  [[x[:4] + x[5:] for x in s] for s in back_view(real)], 'words after the round trip')
    ctx.event('words of long sentences', len(placed[1]))


def empty(ctx):
    """empty (e.g. predicted) lemmas and tags are written as unspecified, not as empty columns"""
    rng = ctx.rng
    blanked = [[[u._replace(words=[w._replace(lemma='' if rng.random() < 0.4 else w.lemma, upos='' if rng.random() < 0.2 else w.upos,
                                              xpos='' if rng.random() < 0.2 else w.xpos) for w in u.words]) for u in s]
                for s in gen.document(rng, multi=rng.choice([0, 0.15, 0.5]), big=10)] for _ in range(rng.randint(1, 3))]
    placed = [gen.place(d) for d in blanked]
    real = [gen.build_document(dm, d, rng, placed=p) for d, p in zip(blanked, placed)]
    ctx.case(blanked)
    shown = [[[u._replace(words=[w._replace(lemma=w.lemma or None, upos=w.upos or None, xpos=w.xpos or None) for w in u.words]) for u in s] for s in d]
             for d in blanked]
    text = CoNLLUWriter().write_to_str(*real)
    check_rows(ctx, text, [units for d, p in zip(shown, placed) for units in expected_units(d, p[1])])
    ctx.event('empty values', sum(w.lemma == '' for d in blanked for w in gen.doc_words(d)))


def parts(tier):
    return [Part('rows', rows, 1500, 20000, required=['rows']),
            Part('round_trip', round_trip, 1500, 20000, required=['words']),
            Part('long', long, 40, 400, required=['words of long sentences']),
            Part('treebank', treebank, 1500, 20000, required=['lines']),
            Part('empty', empty, 600, 6000, required=['empty values'])]
