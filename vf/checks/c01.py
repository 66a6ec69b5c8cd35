"""C01: a document is accepted exactly when its tokens and sentences are well formed."""
import itertools

from vf import gen
from vf.core import Part
import babylondigger.datamodel as dm

RULE = ('a case is a text with tokens and sentence boundaries (enumerated over small texts, or random layouts and their mutations); '
        'non-trivial when it has at least one token; each acceptance decision of the real constructor is compared with an '
        'independent definition of well-formedness')


def well_formed(text, toks, sents):
    """toks: (start, end, sub, replacement); sents: list of ranges or None -> True / False / None (not specified)"""
    n = len(toks)
    if n == 0:
        return not sents
    if any(end > len(text) for _, end, _, _ in toks):
        return False
    spans = {}
    for start, end, sub, repl in toks:
        spans.setdefault((start, end), []).append((sub, repl))
    for members in spans.values():
        if any(r is None for _, r in members):
            if len(members) > 1:
                return False
        elif sorted(s for s, _ in members) != list(range(len(members))):
            return False
    ordered = sorted(spans)
    for (s1, e1), (s2, e2) in itertools.combinations(ordered, 2):
        if s1 < e2 and s2 < e1:
            return False
    if sents is None:
        return True
    point = 0
    for a, b in sorted(sents):
        if a != point:
            return False
        point = b
    if point != n:
        return False
    order = sorted(toks, key=lambda t: t[:3])
    for a, _ in sents:
        if a and order[a][:2] == order[a - 1][:2]:
            return None  # a sentence boundary inside of a multiword token
    return True


def make(text, toks, sents, as_iter=False):
    tokens = [dm.Token(s, e, sub_index=sub, text_replacement=r) for s, e, sub, r in toks]
    sentences = None if sents is None else [dm.Sentence(a, b) for a, b in sents]
    if as_iter and sentences is not None:
        sentences = iter(sentences)
    return dm.Document(text, tokens, sentences)


def decide(ctx, text, toks, sents, as_iter=False):
    expected = well_formed(text, toks, sents)
    try:
        doc = make(text, toks, sents, as_iter)
    except Exception as e:
        ctx.event('rejected')
        ctx.check(expected is not True, 'well formed document is rejected: {} {} {}: {}', text, toks, sents, e)
        return
    ctx.event('accepted')
    ctx.check(expected is not False, 'malformed document is accepted: text {}, tokens {}, sentences {}', text, toks, sents)
    order = sorted(toks, key=lambda t: t[:3])
    ctx.equal(doc.text, text, 'text')
    ctx.equal([(t.start, t.end, t.sub_index, t.text_replacement) for t in doc.tokens], order, 'tokens')
    ctx.equal(doc.tokens_count, len(toks), 'tokens count')
    bounds = [] if not toks else sorted(sents) if sents is not None else [(0, len(toks))]
    ctx.equal([(b.start, b.end) for b in doc.sentences_boundaries], bounds, 'sentences')
    ctx.equal(doc.sentences_count, len(bounds), 'sentences count')


_SPANS = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3), (2, 4), (3, 4)]
_TOKENS = [(s, e, 0, None) for s, e in _SPANS] + [(s, e, sub, 'xyz'[sub]) for s, e in _SPANS for sub in (0, 1, 2)]
_COMBOS = [c for k in range(4) for c in itertools.combinations_with_replacement(_TOKENS, k)]
_RANGES = [(a, b) for a in range(4) for b in range(a + 1, 5)]
_SENTS = [None, []] + [list(c) for k in (1, 2, 3) for c in itertools.combinations_with_replacement(_RANGES, k)
                       if k < 3 or c[0][0] == 0]


def enumerated(ctx):
    """all multisets of up to three tokens over a three character text x sentence boundaries"""
    toks = list(_COMBOS[ctx.index % len(_COMBOS)])
    ctx.case(toks, nontrivial=bool(toks))
    step = 1 if ctx.thorough else 7
    sents = _SENTS[:2] + _SENTS[2 + ctx.index % step::step]
    valid = [s for s in _SENTS if well_formed('abc', toks, s)]
    for s in sents + valid[:6]:
        order = list(toks)
        ctx.rng.shuffle(order)
        s = None if s is None else ctx.rng.sample(s, len(s))
        decide(ctx, 'abc', order, s)


def layout(rng, big=80):
    doc = gen.document(rng, multi=rng.choice([0, 0.1, 0.4]), big=big, syntax=False)
    text, placed = gen.place(doc, spaces=lambda: rng.choice([' ', ' ', '\n', '  ', '\t', '\u00a0']), lead=rng.choice(['', '', ' ', '\n']),
                             tail=rng.choice([None, '', ' \n']))
    toks = [(p.start, p.end, p.sub, p.replacement) for p in placed]
    return text, toks, gen.boundaries(doc)


def valid(ctx):
    rng = ctx.rng
    text, toks, sents = layout(rng)
    if rng.random() < 0.15:
        sents = None
    if rng.random() < 0.7:
        rng.shuffle(toks)
        if sents is not None:
            rng.shuffle(sents)
    ctx.case((text, toks, sents))
    assert well_formed(text, toks, sents)
    decide(ctx, text, toks, sents, as_iter=rng.random() < 0.3)


def mutate(rng, text, toks, sents):
    kind = rng.randrange(14)
    toks, sents = list(toks), [list(s) for s in sents]
    i = rng.randrange(len(toks))
    s, e, sub, r = toks[i]
    j = rng.randrange(len(sents))
    if kind == 0:
        toks[i] = (s, e + rng.randint(1, 3), sub, r)
    elif kind == 1 and s > 0:
        toks[i] = (s - 1, e, sub, r)
    elif kind == 2:
        toks.insert(rng.randint(0, len(toks)), (s, e, sub, r))
    elif kind == 3:
        toks[i] = (s, e, sub + rng.choice([1, 2, -1]), 'x' if r is None else r)
    elif kind == 4:
        del toks[i]
    elif kind == 5:
        toks.append((len(text), len(text) + rng.randint(1, 3), 0, rng.choice([None, 'y'])))
    elif kind == 6:
        sents[j][1] += 1
    elif kind == 7 and sents[j][0] > 0:
        sents[j][0] -= 1
    elif kind == 8:
        sents[j][0] += 1
    elif kind == 9:
        sents[j][1] -= 1
    elif kind == 10:
        del sents[j]
    elif kind == 11:
        sents.append(list(rng.choice(sents)))
    elif kind == 12:
        sents.append([len(toks), len(toks) + 1])
    else:
        a = rng.randrange(len(text)) if text else 0
        toks.append((a, a + rng.randint(1, 5), 0, rng.choice([None, 'z'])))
    sents = [tuple(x) for x in sents if 0 <= x[0] < x[1]]
    toks = [t for t in toks if t[0] < t[1]]
    return toks, sents


def mutated(ctx):
    rng = ctx.rng
    text, toks, sents = layout(rng, big=30)
    for _ in range(rng.choice([1, 1, 1, 2])):
        if toks and sents:
            toks, sents = mutate(rng, text, toks, sents)
    if rng.random() < 0.5:
        rng.shuffle(toks)
        rng.shuffle(sents)
    ctx.case((text, toks, sents))
    decide(ctx, text, toks, sents)


def long(ctx):
    """documents of thousands of tokens with one defect anywhere"""
    rng = ctx.rng
    n = rng.choice([300, 1100, 2100, 4500])
    text, toks, cut = 'ab ' * n, [], [0]
    for i in range(n):
        if rng.random() < 0.05:
            toks += [(3 * i, 3 * i + 2, 0, 'a'), (3 * i, 3 * i + 2, 1, 'b')]
        else:
            toks.append((3 * i, 3 * i + 2, 0, None))
    order = [t[:2] for t in toks]
    while cut[-1] < len(toks):
        cut.append(min(len(toks), cut[-1] + rng.choice([1, 5, 30, 400])))
        while cut[-1] < len(toks) and order[cut[-1]] == order[cut[-1] - 1]:
            cut[-1] += 1
    sents = list(zip(cut, cut[1:]))
    kind = rng.randrange(5)
    if kind == 1:
        i = rng.randrange(max(0, len(toks) - rng.choice([5, 50, len(toks)])), len(toks))
        toks[i] = (toks[i][0], toks[i][1] + 2) + toks[i][2:]
    elif kind == 2:
        toks.append(rng.choice(toks[-20:]))
        sents[-1] = (sents[-1][0], len(toks))
    elif kind == 3:
        k = len(sents) - 1 - rng.randrange(min(len(sents), 4))
        a, b = sents[k]
        sents[k] = rng.choice([(a, b + 1), (a, b - 1), (max(0, a - 1), b)]) if b - a > 1 else (a, b + 1)
    elif kind == 4:
        i = max(k for k, t in enumerate(toks) if t[2] == 1) if any(t[2] for t in toks) else 0
        toks[i] = (toks[i][0], toks[i][1], 2, 'c')
    if rng.random() < 0.5:
        rng.shuffle(toks)
        rng.shuffle(sents)
    ctx.case((n, kind, ctx.index))
    ctx.event('long documents')
    expected = well_formed_long(toks, sents) and all(t[1] <= len(text) for t in toks)
    ctx.event('kind %d n %d exp %s' % (kind, n, expected))
    try:
        doc = make(text, toks, sents)
    except Exception as e:
        ctx.check(not expected, 'well formed document of {} tokens is rejected: {}', len(toks), e)
        return
    ctx.check(expected, 'malformed document of {} tokens (kind {}) is accepted', len(toks), kind)
    ctx.equal([(t.start, t.end, t.sub_index) for t in doc.tokens], sorted(t[:3] for t in toks), 'tokens')
    ctx.equal([(b.start, b.end) for b in doc.sentences_boundaries], sorted(sents), 'sentences')


def well_formed_long(toks, sents):
    """the same definition in linear time"""
    order = sorted(t[:3] for t in toks)
    for (s1, e1, k1), (s2, e2, k2) in zip(order, order[1:]):
        if (s1, e1) == (s2, e2):
            if k2 != k1 + 1:
                return False
        elif e1 > s2 or k2 != 0:
            return False
    if order[0][2] != 0:
        return False
    ranges = sorted(sents)
    return ranges[0][0] == 0 and ranges[-1][1] == len(toks) and all(a[1] == b[0] for a, b in zip(ranges, ranges[1:]))


def primitive(ctx):
    """tokens and sentences themselves: empty or inverted spans are never accepted"""
    rng = ctx.rng
    a, b = rng.randint(-4, 8), rng.randint(-4, 8)
    sub = rng.choice([0, 0, 1, 2])
    repl = rng.choice([None, 'x'])
    ctx.case((a, b, sub, repl))
    ok = 0 <= a < b and (repl is not None or sub == 0)
    if ok:
        t = dm.Token(a, b, sub_index=sub, text_replacement=repl)
        ctx.equal((t.start, t.end, t.sub_index, t.text_replacement, t.is_multiword), (a, b, sub, repl, repl is not None), 'token')
    else:
        ctx.rejects(lambda: dm.Token(a, b, sub_index=sub, text_replacement=repl), 'token {}'.format((a, b, sub, repl)))
    if 0 <= a < b:
        s = dm.Sentence(a, b)
        ctx.equal((s.start, s.end, s.len), (a, b, b - a), 'sentence')
    else:
        ctx.rejects(lambda: dm.Sentence(a, b), 'sentence {}'.format((a, b)))


def parts(tier):
    return [Part('enumerated', enumerated, len(_COMBOS), len(_COMBOS), required=['accepted', 'rejected']),
            Part('valid', valid, 2500, 40000),
            Part('mutated', mutated, 6000, 90000),
            Part('long', long, 40, 600, required=['long documents']),
            Part('primitive', primitive, 1500, 5000)]
