"""C07: reading CoNLL-U gives exactly the annotated sentences of the text, or an error for malformed input."""
import os

from vf import gen, ref
from vf.core import Part
from babylondigger.evaluation.conllu_io import CoNLLUReader

RULE = ('a case is a CoNLL-U text printed from a random plain document (comments, empty nodes, DEPS and MISC noise, multiword tokens, '
        'CRLF, odd characters) or a malformed variant of it; what the real reader returns is compared field by field with the plain '
        'document; non-trivial when the text has at least two words')


def norm_pos(pos):
    v = ref.pos_view(pos)
    return None if v == (None, None, ()) else v


def expected_docs(doc, limit):
    result = []
    for i in range(0, len(doc), limit):
        chunk = doc[i:i + limit]
        text, ps = gen.place(chunk)
        words = []
        for p in ps:
            w = p.word
            pos = (w.upos, w.xpos, tuple(sorted(w.feats.items())))
            words.append((p.start, p.end, p.sub, p.replacement, p.text, p.doc_text, w.lemma, None if pos == (None, None, ()) else pos,
                          w.head, w.deprel))
        result.append((text, words, gen.boundaries(chunk)))
    return result


def observed(doc):
    words = [(t.start, t.end, t.sub_index, t.text_replacement, t.text, t.doc_text, t.lemma, norm_pos(t.pos), t.head_index, t.deprel)
             for s in doc.sentences for t in s.tokens]
    return doc.text, words, [(b.start, b.end) for b in doc.sentences_boundaries]


def compare(ctx, docs, want, what):
    docs = list(docs)
    ctx.event('documents', len(docs))
    ctx.equal(len(docs), len(want), what + ': number of documents')
    for k, (doc, (text, words, bounds)) in enumerate(zip(docs, want)):
        got = observed(doc)
        ctx.equal(got[2], bounds, '{}: sentences of document {}'.format(what, k))
        ctx.event('words', len(words))
        for i, (a, b) in enumerate(zip(got[1], words)):
            ctx.equal(a, b, '{}: word {} of document {}'.format(what, i, k))
        ctx.equal(len(got[1]), len(words), '{}: words of document {}'.format(what, k))
        ctx.equal(got[0], text, '{}: text of document {}'.format(what, k))




def write(ctx, text, name='in.conllu'):
    path = os.path.join(ctx.scratch, name)
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    return path


def faithful(ctx):
    rng = ctx.rng
    doc = gen.document(rng, big=70, multi=rng.choice([0, 0.15, 0.5]), sentences=rng.choice([None, None, None, 12]))
    noise = rng.random() < 0.6
    text = ref.conllu(doc, rng, noise=noise, newline=rng.choice(['\n', '\n', '\n', '\r\n']))
    limit = rng.choice([1, 1, 2, 3, 50, len(doc), len(doc) + 1])
    ctx.case((limit, text), nontrivial=sum(len(s) for s in doc) > 1)
    want = expected_docs(doc, limit)
    reader = CoNLLUReader(limit)
    if rng.random() < 0.5:
        compare(ctx, reader.read_from_str(text), want, 'string')
    else:
        compare(ctx, reader.read_from_file(write(ctx, text)), want, 'file')
    if rng.random() < 0.2:
        compare(ctx, CoNLLUReader(doc_sentences_limit=limit, columns=[2, 3, 4, 5, 6, 7]).read_from_str(text), want, 'explicit columns')


def malformed(ctx):
    """one thing is broken: an error, never a silently different document"""
    rng = ctx.rng
    doc = gen.document(rng, big=12, multi=0.25, hostile=False, syntax=True)
    si = rng.randrange(len(doc))
    rows = [ref.rows(s) for s in doc]
    target = rows[si]
    words = [r for r in target if '-' not in r[0]]
    kind = rng.randrange(11)
    tail = '\n'
    what = None
    if kind == 0:
        row = rng.choice(words)
        i = target.index(row)
        target[i] = row[:rng.randint(1, 9)]
        what = 'a line with {} columns'.format(len(target[i]))
    elif kind == 1:
        si = len(rows) - 1
        tail = ''
        what = 'the last sentence is not finished by an empty line'
    elif kind == 2:
        rng.choice(words)[6] = rng.choice(['x', '1.5', '1-2', '', ' ', 'root', '--1'])
        what = 'HEAD is not an integer'
    elif kind == 3:
        row = rng.choice(words)
        row[6] = str(len(words) + rng.randint(1, 5))
        what = 'HEAD is outside of the sentence'
    elif kind == 4:
        row = rng.choice(words)
        row[6] = str(-rng.randint(1, 4))
        what = 'HEAD is negative'
    elif kind == 5:
        if len(words) < 2:
            return
        row = rng.choice([r for r in words if r[6] != '0'])
        row[6] = '0'
        what = 'two roots'
    elif kind == 6:
        row = rng.choice(words)
        row[6] = row[0]
        what = 'a word is its own head'
    elif kind == 7:
        if len(words) < 2:
            return
        rng.choice(words)[6] = '_'
        what = 'HEAD of one word is missing'
    elif kind == 10:
        target.insert(rng.randint(0, len(target)), [rng.choice([' ', '  ', '\t', '\u00a0', ' \t'])])
        what = 'a line of white space only'
    elif kind == 9:
        ranges = [r for r in target if '-' in r[0]]
        if not ranges:
            return
        row = rng.choice(ranges)
        first, last = row[0].split('-')
        row[0] = rng.choice(['{0}-{1}-{1}', '{0}-x', '{0}-', '-{1}', '{0}--{1}', '{0}-{0}-{1}']).format(first, last)
        what = 'range of a multiword token is not two numbers'
    else:
        # a multiword token which promises more words than the sentence has
        n = len(words)
        k = rng.randint(1, n)
        word = next(r for r in target if r[0] == str(k))
        if any('-' in r[0] for r in target):
            return
        target.insert(target.index(word), ['{}-{}'.format(k, n + rng.randint(1, 3)), 'zz'] + ['_'] * 8)
        what = 'unfinished multiword token'
    text = ''
    for i, s in enumerate(rows):
        text += ''.join('\t'.join(r) + '\n' for r in s) + ('\n' if i < len(rows) - 1 else tail)
    ctx.case((what, text))
    limit = rng.choice([1, 2, 50])
    if rng.random() < 0.5:
        ctx.rejects(lambda: [observed(d) for d in CoNLLUReader(limit).read_from_str(text)], what)
    else:
        path = write(ctx, text)
        ctx.rejects(lambda: [observed(d) for d in CoNLLUReader(limit).read_from_file(path)], what)
    ctx.event('malformed: ' + what.split(' of ')[0][:40] if kind else 'malformed: columns')


def edge(ctx):
    """empty input, single words, special forms"""
    rng = ctx.rng
    if ctx.index == 0:
        for text in ('', '# comment\n', '# a\n# b\n'):
            ctx.equal(list(CoNLLUReader().read_from_str(text)), [], 'input without sentences')
            ctx.equal(list(CoNLLUReader(1).read_from_file(write(ctx, text))), [], 'file without sentences')
        ctx.rejects(lambda: list(CoNLLUReader(1).read_from_file(os.path.join(ctx.scratch, 'absent'))), 'absent file')
        ctx.rejects(lambda: CoNLLUReader(0), 'limit 0')
        ctx.rejects(lambda: CoNLLUReader(-1), 'limit -1')
        ctx.case('empty inputs', nontrivial=False)
        return
    form = rng.choice(['_', '#', '#x', '-', '1-2', '.', '1.1', '\u2028', 'a\u2028b', 'a\x85b', '\x0b', '\x1c.', '=', '|', 'SpaceAfter=No',
                       'a b', 'a  b', '\u00a0', '...', 'x' * 300, '\ufeff', '"', "''", '\\', '0', 'None'])
    w = gen.Word(form, rng.choice([None, form if form != '_' else 'x', '#', '-', '1-1', '0']), rng.choice(['X', None, '#', '-']),
                 rng.choice([None, '-', '.', '#', '_x']), rng.choice([{}, {'A': '-'}, {'A': '_'}, {'a': '1', 'B': '2'}, {'X': 'y=z'}, {'E': '', 'F': '1'}]), -1,
                 rng.choice(['root', None, '_x']))
    doc = [[gen.Unit(form, [w], False, rng.random() < 0.5)] for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.4:
        second = w._replace(head=0)
        doc[0] = [gen.Unit(gen.word(rng), [w, second], True, rng.random() < 0.5)]
    text = ref.conllu(doc)
    ctx.case(text, nontrivial=False)
    compare(ctx, CoNLLUReader(1).read_from_str(text), expected_docs(doc, 1), 'string')
    compare(ctx, CoNLLUReader(2).read_from_file(write(ctx, text)), expected_docs(doc, 2), 'file')


def large(ctx):
    """more sentences than the default limit of a document"""
    rng = ctx.rng
    n = rng.choice([49, 50, 51, 99, 100, 101, 120])
    doc = gen.document(rng, sentences=n, big=6)
    text = ref.conllu(doc, rng, noise=True)
    ctx.case((n, text[:500]))
    compare(ctx, CoNLLUReader().read_from_str(text), expected_docs(doc, 50), 'default limit')


def spaces(ctx):
    """values which begin or end with white space other than the separators of the format"""
    rng = ctx.rng
    doc = gen.document(rng, big=8, multi=rng.choice([0, 0.3]))

    def around(value):
        if not value or rng.random() < 0.5:
            return value
        blank = rng.choice([b for b in gen.INNER_SPACE if b != ' '] + [' '])
        return rng.choice(['{0}{1}', '{1}{0}', '{0}{1}{0}']).format(blank, value)

    def changed(w, form):
        return w._replace(form=form, lemma=around(w.lemma), xpos=around(w.xpos), deprel=around(w.deprel),
                          feats={around(k): around(v) for k, v in w.feats.items()})

    result = []
    for s in doc:
        units = []
        for u in s:
            if u.multi:
                units.append(u._replace(surface=around(u.surface), words=[changed(w, around(w.form)) for w in u.words]))
            else:
                surface = around(u.surface)
                units.append(u._replace(surface=surface, words=[changed(u.words[0], surface)]))
        result.append(units)
    text = ref.conllu(result, rng, noise=rng.random() < 0.3)
    limit = rng.choice([1, 2, 50])
    ctx.case((limit, text))
    ctx.event('values with outer spaces', sum(w.form != w.form.strip() for w in gen.doc_words(result)))
    if rng.random() < 0.5:
        compare(ctx, CoNLLUReader(limit).read_from_str(text), expected_docs(result, limit), 'string')
    else:
        compare(ctx, CoNLLUReader(limit).read_from_file(write(ctx, text)), expected_docs(result, limit), 'file')


def long(ctx):
    """long sentences and multiword tokens of many words"""
    rng = ctx.rng
    doc = gen.long_document(rng)
    text = ref.conllu(doc, rng, noise=rng.random() < 0.3)
    limit = rng.choice([1, 2, 50])
    ctx.case((limit, text[:2000]))
    ctx.event('words of long sentences', len(gen.doc_words(doc)))
    compare(ctx, CoNLLUReader(limit).read_from_str(text), expected_docs(doc, limit), 'string')


def parts(tier):
    return [Part('faithful', faithful, 2600, 40000, required=['documents', 'words']),
            Part('malformed', malformed, 2500, 30000, required=['rejections']),
            Part('edge', edge, 500, 4000),
            Part('spaces', spaces, 500, 6000, required=['values with outer spaces']),
            Part('long', long, 40, 400, required=['words of long sentences']),
            Part('large', large, 16, 150)]
