"""Reference models: small independent implementations of what the properties say, over the plain data of gen.py."""

COLS = ['ID', 'FORM', 'LEMMA', 'UPOS', 'XPOS', 'FEATS', 'HEAD', 'DEPREL', 'DEPS', 'MISC']
ID, FORM, LEMMA, UPOS, XPOS, FEATS, HEAD, DEPREL, DEPS, MISC = range(10)


def feats_str(feats):
    return '|'.join(sorted('{}={}'.format(k, v) for k, v in feats.items())) if feats else '_'


def u(value):
    return '_' if value is None else value


def word_row(index, w):
    """index: 0-based"""
    return [str(index + 1), w.form, u(w.lemma), u(w.upos), u(w.xpos), feats_str(w.feats),
            '_' if w.head is None else str(w.head + 1), u(w.deprel), '_', '_']


def rows(sent):
    """rows of the sentence in CoNLL-U order"""
    result, i = [], 0
    for unit in sent:
        if unit.multi:
            result.append(['{}-{}'.format(i + 1, i + len(unit.words)), unit.surface] + ['_'] * 7 +
                          ['_' if unit.space else 'SpaceAfter=No'])
            for w in unit.words:
                result.append(word_row(i, w))
                i += 1
        else:
            row = word_row(i, unit.words[0])
            row[FORM] = unit.surface
            row[MISC] = '_' if unit.space else 'SpaceAfter=No'
            result.append(row)
            i += 1
    return result


def conllu(doc, rng=None, noise=False, newline='\n'):
    """CoNLL-U text of the plain document; with noise: comments, empty nodes, DEPS and other MISC values"""
    out = []
    for sent in doc:
        if noise:
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                out.append(rng.choice(['# sent_id = 1', '# text = a b', '#', '# newpar', '#1\ta\tb', '## x', '# \t\t']))
        empties = 0
        for row in rows(sent):
            row = list(row)
            if noise:
                if rng.random() < 0.06 and '-' not in row[ID]:
                    # an empty node between two words (also inside of a multiword token)
                    empties += 1
                    out.append('\t'.join(['{}.{}'.format(int(row[ID]) - 1, empties), rng.choice(['E', '_', 'x-y']), '_',
                                          'VERB', '_', '_', '_', '_', '0:root', rng.choice(['_', 'CopyOf=1'])]))
                if rng.random() < 0.15 and '-' not in row[ID]:
                    row[DEPS] = rng.choice(['2:nsubj', '0:root', '1:a|2.1:b'])
                if rng.random() < 0.2:
                    parts = [] if row[MISC] == '_' else [row[MISC]]
                    for _ in range(rng.choice([1, 1, 1, 2, 3, 4, 6])):
                        extra = rng.choice(['Gloss=x', 'Gloss=a=b', 'Foo', 'Translit=y', 'SpacesAfter=\\n', 'X=', 'Ref=1', 'Entity=(e1)',
                                            'CorrectSpaceAfter=No', 'NoSpaceAfter=1', 'Gloss=SpaceAfter=No', 'SpaceAfterX=No', 'Gloss=SpaceAfter'])
                        parts.insert(rng.randint(0, len(parts)), extra)
                    row[MISC] = '|'.join(parts)
            out.append('\t'.join(row))
        out.append('')
    return newline.join(out) + (newline if out else '')


def parse(text):
    """strict CoNLL-U parser for what the writer produces: list of sentences of units as plain lists.

    returns [[(surface, is_multi, space_after, [row, ...]), ...], ...]; raises ValueError on malformed input
    """
    sents, cur, expect, pending = [], [], 1, None
    if text and not text.endswith('\n\n'):
        raise ValueError('does not end with an empty line')
    lines = text.split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    for line in lines:
        if line == '':
            if not cur:
                raise ValueError('empty sentence')
            if pending is not None:
                raise ValueError('unfinished multiword token')
            sents.append(cur)
            cur, expect = [], 1
            continue
        row = line.split('\t')
        if len(row) != 10:
            raise ValueError('{} columns: {!r}'.format(len(row), line))
        if any(v == '' for v in row):
            raise ValueError('empty column: {!r}'.format(line))
        if '-' in row[ID]:
            a, b = map(int, row[ID].split('-'))
            if a != expect or b < a or pending is not None:
                raise ValueError('multiword range {!r}, expected start {}'.format(row[ID], expect))
            unit = (row[FORM], True, row[MISC] != 'SpaceAfter=No', [])
            if row[MISC] not in ('_', 'SpaceAfter=No') or row[2:9] != ['_'] * 7:
                raise ValueError('multiword line {!r}'.format(line))
            cur.append(unit)
            pending = (b, unit)
            continue
        if int(row[ID]) != expect:
            raise ValueError('word id {!r}, expected {}'.format(row[ID], expect))
        if pending is not None:
            pending[1][3].append(row)
            if row[MISC] != '_':
                raise ValueError('MISC of a multiword token word {!r}'.format(line))
            if pending[0] == expect:
                pending = None
        else:
            if row[MISC] not in ('_', 'SpaceAfter=No'):
                raise ValueError('MISC {!r}'.format(row[MISC]))
            cur.append((row[FORM], False, row[MISC] != 'SpaceAfter=No', [row]))
        expect += 1
    if cur:
        raise ValueError('unfinished sentence')
    return sents


# ---------------------------------------------------------------- observing real documents


def pos_view(pos):
    return None if pos is None else (pos.upos, pos.xpos, tuple(sorted(pos.feats.items())))


def token_view(t):
    """everything observable of a token but its place among the neighbours"""
    return (t.start, t.end, t.sub_index, t.text_replacement, pos_view(t.pos), t.lemma, t.has_head, t.is_root, t.deprel,
            tuple(sorted((k, repr(t.extras[k])) for k in t.extras)))


def doc_view(doc):
    """deep plain snapshot of everything observable of a document"""
    sents = []
    for s in doc.sentences:
        sents.append((s.text, tuple((t.text, t.head_index) + token_view(t) for t in s.tokens)))
    return (doc.text, tuple((t.text, t.doc_text, t.space_after, t.head_index) + token_view(t) for t in doc.tokens),
            tuple((b.start, b.end) for b in doc.sentences_boundaries), tuple(sents))


def skeleton(doc):
    """the part an annotator may never touch"""
    return (doc.text, tuple((t.start, t.end, t.sub_index, t.text_replacement, t.text) for t in doc.tokens),
            tuple((b.start, b.end) for b in doc.sentences_boundaries))
