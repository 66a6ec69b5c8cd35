"""C02: with validation on, every sentence of an accepted document carries one single-rooted tree or no syntax at all."""
import itertools

from vf import gen, ref
from vf.core import Part
import babylondigger.datamodel as dm
from babylondigger.evaluation.conllu_io import CoNLLUReader

RULE = ('a case is an assignment of heads (all assignments over small sentence layouts in sentence and in document notation; random '
        'trees and broken trees over larger ones); the real validation is compared with an independent tree definition')


def sentence_ok(heads):
    return all(h is None for h in heads) or gen.is_tree(heads)


def make(lens, heads, notation, validate):
    """heads: sentence notation; notation per token"""
    tokens, k, sents = [], 0, []
    for n in lens:
        sents.append(dm.Sentence(k, k + n))
        for i in range(n):
            h, style = heads[k + i], notation[k + i]
            kw = {}
            if h is not None:
                if style in 'sb':
                    kw['head_sentence_index'] = h
                if style in 'db':
                    kw['head_document_index'] = -1 if h == -1 else h + k
            tokens.append(dm.Token(2 * (k + i), 2 * (k + i) + 1, **kw))
        k += n
    return dm.Document('x ' * k, tokens, sents, validate_syntax=validate)


def decide(ctx, lens, heads, notation):
    bounds = list(itertools.accumulate(lens, initial=0))
    expected = all(sentence_ok(heads[a:b]) for a, b in zip(bounds, bounds[1:]))
    try:
        doc = make(lens, heads, notation, True)
    except Exception as e:
        ctx.event('rejected')
        ctx.check(not expected, 'valid syntax is rejected: sentences {}, heads {}: {}', lens, heads, e)
        return
    ctx.event('accepted')
    ctx.check(expected, 'broken syntax is accepted: sentences {}, heads {}, notation {}', lens, heads, notation)
    for s, (a, b) in zip(doc.sentences, zip(bounds, bounds[1:])):
        ctx.equal([t.head_index for t in s.tokens], heads[a:b], 'heads')
        ctx.equal([t.is_root for t in s.tokens], [h == -1 for h in heads[a:b]], 'roots')
        ctx.equal([t.has_head for t in s.tokens], [h is not None for h in heads[a:b]], 'has_head')


_LAYOUTS = [[1], [2], [3], [1, 1], [1, 2], [2, 1], [2, 2], [1, 1, 1], [1, 3], [3, 1], [1, 1, 2], [4], [2, 3]]


def _values(n):
    return [None] + list(range(-2, n + 2))


def _enumerate():
    result = []
    for lens in _LAYOUTS:
        options = [v for n in lens for v in [_values(n)] * n]
        total = 1
        for o in options:
            total *= len(o)
        result.append((lens, options, total))
    return result


_ENUM = _enumerate()
_TOTAL = sum(t for _, _, t in _ENUM)
_CHUNK = 64


def _nth(k):
    for lens, options, total in _ENUM:
        if k < total:
            heads = []
            for o in reversed(options):
                k, r = divmod(k, len(o))
                heads.append(o[r])
            return lens, heads[::-1]
        k -= total
    return None


def enumerated(ctx):
    stride = (_TOTAL + _CHUNK - 1) // _CHUNK
    first = None
    for j in range(_CHUNK):
        item = _nth(ctx.index + j * stride)
        if item is None:
            continue
        lens, heads = item
        if first is None:
            first = item
        for notation in ('s' * len(heads), 'd' * len(heads)):
            # None of the out-of-sentence values may coincide with the document notation of a root (-1)
            if notation[0] == 'd':
                bounds = list(itertools.accumulate(lens, initial=0))
                start = [a for a, n in zip(bounds, lens) for _ in range(n)]
                if any(h is not None and h != -1 and h + s == -1 for h, s in zip(heads, start)):
                    continue
            decide(ctx, lens, heads, notation)
    ctx.case((first, ctx.index))


def document_notation(ctx):
    """raw document indices, including the ones which lie outside of the sentence"""
    rng = ctx.rng
    lens = rng.choice([[2, 2], [1, 3], [3, 1], [1, 1, 2], [2, 1, 1], [1, 2, 2], [3, 3], [1], [2]])
    total = sum(lens)
    starts = [sum(lens[:i]) for i, n in enumerate(lens) for _ in range(n)]
    raw = []
    for i, n in enumerate(lens):
        if rng.random() < 0.6:
            raw.extend(h if h == -1 else h + sum(lens[:i]) for h in gen.tree(rng, n))
        else:
            raw.extend(rng.choice([None] + list(range(-3, total + 2))) for _ in range(n))
    if rng.random() < 0.6:
        raw[rng.randrange(total)] = rng.choice([None] + list(range(-3, total + 2)))
    ctx.case((lens, raw))
    heads = [None if h is None else -1 if h == -1 else h - s if h - s != -1 else -1000 for h, s in zip(raw, starts)]
    bounds = list(itertools.accumulate(lens, initial=0))
    expected = all(sentence_ok(heads[a:b]) for a, b in zip(bounds, bounds[1:]))
    tokens = [dm.Token(2 * i, 2 * i + 1, head_document_index=h) for i, h in enumerate(raw)]
    sents = [dm.Sentence(a, b) for a, b in zip(bounds, bounds[1:])]
    try:
        doc = dm.Document('x ' * total, tokens, sents, validate_syntax=True)
    except Exception as e:
        ctx.event('rejected')
        ctx.check(not expected, 'valid document notation is rejected: {} {}: {}', lens, raw, e)
        return
    ctx.event('accepted')
    ctx.check(expected, 'broken document notation is accepted: sentences {}, heads {}', lens, raw)
    ctx.equal([t.head_index for t in doc.tokens], raw, 'document heads')


def break_tree(rng, heads):
    heads = list(heads)
    n = len(heads)
    kind = rng.randrange(7)
    i = rng.randrange(n)
    if kind == 0:
        heads[i] = None
    elif kind == 1:
        heads[i] = -1
    elif kind == 2:
        heads[i] = n + rng.randint(0, 3)
    elif kind == 3:
        heads[i] = -2 - rng.randint(0, n)
    elif kind == 4:
        heads[i] = i
    elif kind == 5:
        root = heads.index(-1)
        heads[root] = rng.randrange(n)
    else:
        # a loop off the root: some word is attached to its own descendant
        desc = i
        for j in range(n):
            k, steps = j, 0
            while k != i and heads[k] not in (-1, None) and steps <= n:
                k, steps = heads[k], steps + 1
            if k == i and j != i:
                desc = j
        heads[i] = desc
    return heads


def random_trees(ctx):
    rng = ctx.rng
    lens = [gen.length(rng, 120) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    heads = []
    for n in lens:
        h = gen.tree(rng, n) if rng.random() < 0.9 else [None] * n
        heads.append(h)
    if rng.random() < 0.6:
        k = rng.randrange(len(lens))
        if heads[k][0] is not None or any(h is not None for h in heads[k]):
            heads[k] = break_tree(rng, heads[k])
        else:
            heads[k][rng.randrange(lens[k])] = rng.choice([-1, 0])
    flat = [h for hs in heads for h in hs]
    starts = [sum(lens[:i]) for i, n in enumerate(lens) for _ in range(n)]
    # document notation cannot express an index which equals -1 there
    notation = ''.join('s' if h is not None and h != -1 and h + s == -1 else rng.choice('sdb') for h, s in zip(flat, starts))
    ctx.case((lens, flat, notation))
    decide(ctx, lens, flat, notation)


def deep(ctx):
    """trees with chains and cycles of thousands of words"""
    rng = ctx.rng
    n = rng.choice([150, 400, 1100, 2500])
    order = list(range(n))
    rng.shuffle(order)
    style = rng.randrange(3)
    if style == 0:
        order = list(range(n)) if rng.random() < 0.5 else list(range(n))[::-1]
    heads = [None] * n
    heads[order[0]] = -1
    width = rng.choice([1, 1, 2, 5])
    for k in range(1, n):
        heads[order[k]] = order[max(0, k - rng.randint(1, width))]
    broken = rng.random() < 0.6
    if broken:
        # a word near the root is attached below: everything above hangs on a cycle of many words
        k = rng.randrange(1, rng.choice([2, 10, n]))
        low = order[rng.randrange(max(k, n - 10), n)]
        x, chain = low, set()
        while x != -1:
            chain.add(x)
            x = heads[x]
        target = [w for w in order[k:] if w in chain]
        if not target:
            broken = False
        else:
            heads[target[0]] = low
    before = [1] * rng.choice([0, 0, 3])
    lens = before + [n]
    flat = [-1] * len(before) + heads
    ctx.case((ctx.index, n, broken))
    ctx.event('deep trees')
    decide(ctx, lens, flat, rng.choice('sd') * len(flat) if not before else 's' * len(flat))


def overspecified(ctx):
    """contradicting notations are rejected, with and without validation; agreeing ones are accepted"""
    rng = ctx.rng
    lens = [rng.randint(1, 4), rng.randint(1, 4)]
    total = sum(lens)
    k = rng.randrange(total)
    start = 0 if k < lens[0] else lens[0]
    doc_i, sent_i = rng.randint(-1, total), rng.randint(-1, max(lens))
    ctx.case((lens, k, doc_i, sent_i))
    agree = (doc_i == sent_i == -1) or doc_i == sent_i + start
    tokens = [dm.Token(2 * i, 2 * i + 1, **({'head_document_index': doc_i, 'head_sentence_index': sent_i} if i == k else {}))
              for i in range(total)]
    sents = [dm.Sentence(0, lens[0]), dm.Sentence(lens[0], total)]
    if not agree:
        for validate in (False, True):
            ctx.rejects(lambda: dm.Document('x ' * total, tokens, sents, validate_syntax=validate),
                        'contradicting heads {} {} of token {} in {}'.format(doc_i, sent_i, k, lens))
    else:
        dm.Document('x ' * total, tokens, sents)
        ctx.event('accepted')


def unvalidated(ctx):
    """validation is a choice of the caller"""
    rng = ctx.rng
    n = rng.randint(1, 6)
    heads = [rng.choice([None] + list(range(-1, n))) for _ in range(n)]
    ctx.case(heads)
    doc = make([n], heads, 's' * n, False)
    ctx.equal([t.head_index for t in doc.tokens], heads, 'heads')


def reader(ctx):
    """trees of CoNLL-U files are validated"""
    rng = ctx.rng
    doc = gen.document(rng, sentences=rng.randint(1, 3), syntax=True, hostile=False, big=20)
    broken = rng.random() < 0.7
    target = rng.randrange(len(doc))
    heads = [w.head for w in gen.words(doc[target])]
    if broken:
        heads = break_tree(rng, heads)
        if rng.random() < 0.2:
            heads = [(h if h is None or h >= -1 else -2) for h in heads]
        it = iter(heads)
        doc[target] = [u._replace(words=[w._replace(head=next(it)) for w in u.words]) for u in doc[target]]
    text = ref.conllu(doc)
    ctx.case(text)
    expected = all(sentence_ok([w.head for w in gen.words(s)]) for s in doc)
    limit = rng.choice([1, 2, 50])
    try:
        list(CoNLLUReader(limit).read_from_str(text))
    except Exception as e:
        ctx.event('rejected')
        ctx.check(not expected, 'valid CoNLL-U trees are rejected: {}: {}', text, e)
        return
    ctx.event('accepted')
    ctx.check(expected, 'broken tree is read (heads of sentence {}: {})', target, heads)


def parts(tier):
    n = (_TOTAL + _CHUNK - 1) // _CHUNK
    return [Part('enumerated', enumerated, n, n, required=['accepted', 'rejected']),
            Part('document_notation', document_notation, 4000, 60000),
            Part('random_trees', random_trees, 4000, 60000),
            Part('deep', deep, 60, 900, timeout=120, required=['deep trees']),
            Part('overspecified', overspecified, 1500, 10000),
            Part('unvalidated', unvalidated, 500, 5000),
            Part('reader', reader, 2500, 30000)]
