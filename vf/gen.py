"""Workload generators. Everything here is plain data (see Word / Unit): the reference models in ref.py and the real code
both start from it."""
from collections import namedtuple

from vf import mine

# head: 0-based index in the sentence, -1 root, None no syntax
Word = namedtuple('Word', 'form lemma upos xpos feats head deprel')
# words: one word and multi False for a plain token, or the words of a multiword token with the given surface
Unit = namedtuple('Unit', 'surface words multi space')

LATIN = 'abcdeghilmnoprstuABCDEIST'
CYR = 'абвгґдеєжзиіїйклмнопрстуфхцчшщьюяАБВІЇЄЮЯ'
ODD = ['\u0130', '\u00df', '\u1e9e', '\u017f', '\u03a3', '\u03c3\u03c2', '\ufb01', '\u0149', 'e\u0301', '\u0915\u094d\u0937',
       '\U0001f600', '\U0001f468\u200d\U0001f469', '\u200d', '\u00ad', '\ufeff', '\u05d0', '\u0627', '\u4e2d', '\uac00', '\u2581',
       '\u01c5', '\u00b5', '\u212a', '\u0345', '\U00010400']
PUNCT = list('.,!?-_:;()"\'#=|/\\*+&%@<>[]{}~^`$') + ['...', '--', '-', '_', '__', '#', '1-2', '3.1', '0', '-1', '1', '=', '|',
                                                     '\u00ab', '\u2014', '%s', '{}', '{0}', '\\n', '\\t', '<root>', 'None', 'nan']
INNER_SPACE = [' ', '\u00a0', '\u2009', '\u3000', '\u2028', '\x85', '\x0b', '\x0c', '\x1c', '\u2029']
UPOS = ['ADJ', 'ADP', 'ADV', 'AUX', 'CCONJ', 'DET', 'INTJ', 'NOUN', 'NUM', 'PART', 'PRON', 'PROPN', 'PUNCT', 'SCONJ', 'SYM',
        'VERB', 'X']
XPOS = ['NN', 'NNP', 'VB', 'VBZ', 'JJ', '.', ',', 'Ncmsny', 'Vmpis', 'V-3', '-', 'N|x', 'A=b', '0', 'dt:z']
FEAT_KEYS = ['Case', 'Number', 'Gender', 'Person', 'Tense', 'Mood', 'VerbForm', 'Number[psor]', 'Animacy', 'Aspect', 'Degree',
             'PronType', 'case', 'A', 'UPOS', 'XPOS', 'POS', 'LEMMA']
FEAT_VALUES = ['Nom', 'Acc', 'Sing', 'Plur', 'Masc', 'Fem', '1', '3', 'Acc,Dat', 'Yes', 'Past', 'Inf', 'Fin', '-', 'a b', 'None', 'x']
DEPREL = ['root', 'nsubj', 'obj', 'obl', 'amod', 'det', 'case', 'punct', 'aux', 'aux:pass', 'nsubj:pass', 'conj', 'cc', 'mark',
          'advmod', 'flat:name', 'cop', 'clf', 'compound:prt', 'dep', 'nmod', 'punct:x', 'case:gen', 'det:predet', 'acl:relcl', 'acl:relcl:x', 'obl:', 'a:b:c']


def _clean(s):
    s = ''.join(c for c in s if c not in '\t\n\r' and not 0xd800 <= ord(c) <= 0xdfff)
    while s and s[0].isspace():
        s = s[1:]
    return s


def mined_strings(rng):
    pool = mine.strings()
    return _clean(rng.choice(pool)) if pool else ''


def word(rng, kind=None, hostile=True):
    """a token text: no tabs, no line breaks, does not start with white space"""
    for _ in range(20):
        r = rng.random() if kind is None else kind
        if r < 0.40:
            s = ''.join(rng.choice(LATIN) for _ in range(rng.choice([1, 1, 2, 3, 4, 5, 6, 8, 11])))
        elif r < 0.65:
            s = ''.join(rng.choice(CYR) for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 7, 10])))
        elif r < 0.75:
            s = rng.choice(PUNCT)
        elif not hostile:
            s = ''.join(rng.choice(LATIN) for _ in range(rng.randint(1, 6)))
        elif r < 0.85:
            s = ''.join(rng.choice([rng.choice(ODD), rng.choice(LATIN), rng.choice(CYR), rng.choice(PUNCT)])
                        for _ in range(rng.randint(1, 5)))
        elif r < 0.90:
            s = mined_strings(rng)
        elif r < 0.94:
            s = rng.choice(LATIN) + rng.choice(INNER_SPACE) + ''.join(rng.choice(LATIN + '0123456789') for _ in range(rng.randint(1, 4)))
        elif r < 0.97:
            s = ''.join(rng.choice('0123456789.,-') for _ in range(rng.randint(1, 7)))
        elif r < 0.985:
            n = rng.choice(mine.ints(300))
            s = ''.join(rng.choice(LATIN) for _ in range(n))
        else:
            s = word(rng, 0.1) + rng.choice(['-', "'", '.', '_', '=', '|']) + word(rng, 0.1)
        s = _clean(s)
        if s:
            return s
    return 'w'


def lemma(rng, form):
    r = rng.random()
    if r < 0.1:
        return None
    low = form.lower()
    if r < 0.4:
        s = low
    elif r < 0.6:
        s = low[:max(1, len(low) - rng.randint(0, 3))] + rng.choice(['', 'a', 'ти', 'ий', 'er', 'o'])
    elif r < 0.7:
        s = form
    elif r < 0.9:
        s = word(rng)
    else:
        s = 'xyz'
    s = _clean(s)
    return s if s and s != '_' else 'q'


def feats(rng, big=False):
    r = rng.random()
    if r < 0.35:
        return {}
    keys = rng.sample(FEAT_KEYS, rng.randint(1, 10 if big else 4))
    result = {k: rng.choice(FEAT_VALUES) for k in keys}
    if rng.random() < 0.04:
        result[keys[0]] = 'a=b'
    return result


def morph(rng):
    upos = rng.choice(UPOS) if rng.random() < 0.93 else (mined_strings(rng) or 'X' if rng.random() < 0.3 else None)
    if upos == '_':
        upos = None
    xpos = rng.choice(XPOS) if rng.random() < 0.6 else None
    return upos, xpos, feats(rng)


def tree(rng, n):
    """a random single-rooted tree over n words as a list of 0-based heads (-1 for the root)"""
    shape = rng.random()
    heads = [None] * n
    if shape < 0.15:      # left to right chain
        heads = [i - 1 for i in range(n)]
    elif shape < 0.30:    # right to left chain
        heads = [i + 1 for i in range(n)]
        heads[-1] = -1
    elif shape < 0.40:    # star
        root = rng.randrange(n)
        heads = [root] * n
        heads[root] = -1
    else:                 # random: attach in random order to an attached word
        order = list(range(n))
        rng.shuffle(order)
        heads[order[0]] = -1
        for k in range(1, n):
            heads[order[k]] = order[rng.randrange(k)]
    return heads


def is_tree(heads):
    """heads of one sentence: exactly one -1, all others inside, everybody reaches the root"""
    n = len(heads)
    if any(h is None for h in heads) or list(heads).count(-1) != 1:
        return False
    if any(h != -1 and not 0 <= h < n for h in heads):
        return False
    for i in range(n):
        seen = 0
        while heads[i] != -1:
            i = heads[i]
            seen += 1
            if seen > n:
                return False
    return True


def length(rng, big=60):
    r = rng.random()
    if r < 0.70:
        return rng.randint(1, min(7, big))
    if r < 0.90:
        return rng.randint(min(5, big), min(16, big))
    if r < 0.97:
        return rng.choice(mine.ints(big))
    return rng.randint(min(16, big), big)


def sentence(rng, syntax=None, hostile=True, multi=0.15, n=None, big=60, lemmas='maybe', nospace=0.3):
    """list of units"""
    count = n if n is not None else length(rng, big)
    shapes = []
    for _ in range(count):
        if rng.random() < multi:
            shapes.append(rng.choice([1, 2, 2, 2, 3, 3, 4, 5] if hostile else [2, 2, 3]))
        else:
            shapes.append(0)
    total = sum(s or 1 for s in shapes)
    if syntax is None:
        syntax = rng.random() < 0.75
    heads = tree(rng, total) if syntax else [None] * total
    units, k = [], 0
    for s in shapes:
        words = []
        for _ in range(s or 1):
            form = word(rng, hostile=hostile)
            upos, xpos, fs = morph(rng)
            if not hostile and upos is None:
                upos = 'X'
            lem = lemma(rng, form)
            if lemmas == 'always' and lem is None:
                lem = form.lower() if form.lower() != '_' else 'q'
            dep = None
            if syntax:
                dep = 'root' if heads[k] == -1 and rng.random() < 0.8 else rng.choice(DEPREL)
                if rng.random() < 0.03:
                    dep = None
            words.append(Word(form, lem, upos, xpos, fs, heads[k], dep))
            k += 1
        surface = word(rng, hostile=hostile) if s else words[0].form
        if s and rng.random() < 0.5:
            surface = _clean(''.join(w.form for w in words)) or surface
        units.append(Unit(surface, words, bool(s), rng.random() >= nospace))
    # hostile neighbourhoods: equal neighbours, multiword tokens at the sentence edges
    if hostile and len(units) > 1 and rng.random() < 0.1:
        i = rng.randrange(len(units) - 1)
        a, b = units[i], units[i + 1]
        if not a.multi and not b.multi:
            w = b.words[0]._replace(form=a.words[0].form, lemma=a.words[0].lemma)
            units[i + 1] = Unit(a.surface, [w], False, b.space)
    return units


def document(rng, sentences=None, **kwargs):
    """list of sentences"""
    if sentences is None:
        r = rng.random()
        sentences = rng.randint(1, 3) if r < 0.7 else rng.randint(3, 8)
    return [sentence(rng, **kwargs) for _ in range(sentences)]


def long_document(rng, syntax=None):
    """a sentence of hundreds of words and multiword tokens of up to two dozen words, perhaps between short sentences"""
    kind = rng.random()
    if kind < 0.5:
        doc = [sentence(rng, n=rng.choice([130, 257, 300, 520, 700]), multi=rng.choice([0, 0.1]), big=5, syntax=syntax)]
    else:
        sent = sentence(rng, n=rng.randint(1, 8), syntax=False, multi=0.3)
        for _ in range(rng.randint(1, 3)):
            parts = words(sentence(rng, n=rng.choice([8, 9, 10, 11, 15, 16, 24]), multi=0, syntax=False))
            sent.insert(rng.randint(0, len(sent)), Unit(word(rng), parts, True, rng.random() < 0.7))
        heads = tree(rng, len(words(sent))) if syntax or (syntax is None and rng.random() < 0.8) else None
        if heads is not None:
            it = iter(heads)
            sent = [u._replace(words=[w._replace(head=h, deprel='root' if h == -1 else rng.choice(DEPREL)) for w, h in
                                      zip(u.words, it)]) for u in sent]
        doc = [sent]
    for _ in range(rng.randint(0, 2)):
        doc.insert(rng.randint(0, len(doc)), sentence(rng, big=6, syntax=syntax))
    return doc


def words(sent):
    return [w for unit in sent for w in unit.words]


def doc_words(doc):
    return [w for s in doc for w in words(s)]


# ---------------------------------------------------------------- layout


Placed = namedtuple('Placed', 'start end sub replacement text doc_text space word sentence index')


def place(doc, spaces=lambda: ' ', lead='', tail=None):
    """text of the document and placed words (in document order).

    spaces() gives the white space after a unit followed by a space; `tail` overrides the white space after the last unit
    """
    text = lead
    placed = []
    last = sum(len(s) for s in doc)
    k = 0
    for si, sent in enumerate(doc):
        wi = 0
        for unit in sent:
            k += 1
            start = len(text)
            text += unit.surface
            end = len(text)
            if k == last and tail is not None:
                gap = tail
            else:
                gap = spaces() if unit.space else ''
            text += gap
            for sub, w in enumerate(unit.words):
                placed.append([start, end, sub if unit.multi else 0, w.form if unit.multi else None, w.form if unit.multi else unit.surface,
                               unit.surface, None, w, si, wi])
                wi += 1
    result = []
    for p in placed:
        p[6] = p[1] == len(text) or text[p[1]:p[1] + 1].isspace()
        result.append(Placed(*p))
    return text, result


def boundaries(doc):
    """token index ranges of the sentences"""
    result, k = [], 0
    for sent in doc:
        n = sum(len(u.words) for u in sent)
        result.append((k, k + n))
        k += n
    return result


def build_document(dm, doc, rng=None, notation='sentence', validate=False, shuffle=False, placed=None, extras=None):
    """the real Document (datamodel module dm) for the plain document"""
    text, ps = placed if placed is not None else place(doc)
    bounds = boundaries(doc)
    tokens = []
    for k, p in enumerate(ps):
        w = p.word
        kwargs = {}
        if w.head is not None:
            style = notation if notation != 'mixed' else rng.choice(['sentence', 'document', 'both'])
            start = bounds[p.sentence][0]
            if style in ('sentence', 'both'):
                kwargs['head_sentence_index'] = w.head
            if style in ('document', 'both'):
                kwargs['head_document_index'] = w.head if w.head == -1 else w.head + start
        if extras is not None:
            kwargs['extras'] = dm.TokenExtras(extras(k))
        pos = dm.Pos(w.upos, w.xpos, w.feats) if (w.upos is not None or w.xpos is not None or w.feats) else None
        tokens.append(dm.Token(p.start, p.end, pos, w.lemma, w.deprel, p.sub, p.replacement, **kwargs))
    sents = [dm.Sentence(a, b) for a, b in bounds]
    if shuffle:
        rng.shuffle(tokens)
        rng.shuffle(sents)
    return dm.Document(text, tokens, sents, validate_syntax=validate)
