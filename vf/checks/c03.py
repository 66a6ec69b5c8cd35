"""C03: every view of a document (document, sentence, token, neighbours, heads) shows the same, right token."""
from vf import gen, ref
from vf.core import Part, Violation
import babylondigger.datamodel as dm

RULE = ('a case is a random annotated document (multiword tokens, odd white space, both head notations, shuffled construction order); '
        'every view of it is compared with the plain layout it was made from; non-trivial when it has at least two words')


def expect_view(p, w):
    return (p.start, p.end, p.sub, p.replacement, p.text, p.doc_text, p.space, w.lemma,
            (w.upos, w.xpos, tuple(sorted(w.feats.items()))) if (w.upos is not None or w.xpos is not None or w.feats) else None,
            w.deprel, w.head is not None, w.head == -1)


def view(t):
    return (t.start, t.end, t.sub_index, t.text_replacement, t.text, t.doc_text, t.space_after, t.lemma, ref.pos_view(t.pos),
            t.deprel, t.has_head, t.is_root)


def make(rng, empty=False, **kwargs):
    doc = gen.document(rng, multi=rng.choice([0, 0.15, 0.5]), **kwargs)
    if empty and rng.random() < 0.15:  # parts of a multiword token without a text of their own
        doc = [[u._replace(words=[w._replace(form='') if rng.random() < 0.3 else w for w in u.words]) if u.multi else u for u in s] for s in doc]
    placed = gen.place(doc, spaces=lambda: rng.choice([' ', ' ', '\n', '   ', '\t', '\u00a0', '\u2003', '\x1f']),
                       lead=rng.choice(['', '', ' ', '\n\n']), tail=rng.choice([None, '', ' ', '\n ']))
    return doc, placed


def views(ctx):
    rng = ctx.rng
    doc, (text, ps) = make(rng, empty=True, big=40)
    real = gen.build_document(dm, doc, rng, notation=rng.choice(['sentence', 'document', 'both', 'mixed']), shuffle=rng.random() < 0.6,
                              validate=rng.random() < 0.5, placed=(text, ps))
    ctx.case((text, ps), nontrivial=len(ps) > 1)
    n = len(ps)
    bounds = gen.boundaries(doc)
    expected = [expect_view(p, p.word) for p in ps]
    ctx.equal(real.text, text, 'document text')
    ctx.equal(real.document_text, text, 'document text')
    ctx.equal(real.tokens_count, n, 'tokens count')
    ctx.equal([view(t) for t in real.tokens], expected, 'tokens of the document')
    ctx.equal([view(t) for t in real.tokens], expected, 'tokens of the document (second traversal)')
    ctx.equal([view(real[i]) for i in range(n)], expected, 'document[i]')
    ctx.equal([view(real.get_token(i - n)) for i in range(n)], expected, 'get_token of a negative index')
    for i in range(n):
        navigation(ctx, real[i - n], i, expected, 'document (negative index)')
    for i in (n, n + 1, -n - 1):
        ctx.rejects(lambda: view(real.get_token(i)), 'get_token({}) of {} tokens'.format(i, n))
    ctx.equal([(b.start, b.end, b.len) for b in real.sentences_boundaries], [(a, b, b - a) for a, b in bounds], 'boundaries')

    def head(p):
        return None if p.word.head is None else p.word.head if p.word.head == -1 else p.word.head + bounds[p.sentence][0]

    heads = [head(p) for p in ps]
    for k, t in enumerate(real.tokens):
        navigation(ctx, t, k, expected, 'document')
        ctx.equal(t.head_index, heads[k], 'document head index of token {}'.format(k))
        h = t.head
        if heads[k] is None or heads[k] == -1:
            ctx.check(h is None, 'token {} has no head, got {}', k, h)
        else:
            ctx.event('heads')
            ctx.equal(view(h), expected[heads[k]], 'head of token {}'.format(k))
            ctx.equal(h.is_first, heads[k] == 0, 'head navigation')
            ctx.equal(h.head_index, heads[heads[k]], 'head of head')
    sents = list(real.sentences)
    ctx.equal(len(sents), len(bounds), 'sentences')
    ctx.equal(real.sentences_count, len(bounds), 'sentences count')
    for si, (a, b) in enumerate(bounds):
        for s in (sents[si], real.get_sentence(si), real.get_sentence(si - len(bounds))):
            ctx.equal(s.text, text[ps[a].start:ps[b - 1].end], 'sentence text')
            ctx.equal(s.tokens_count, b - a, 'sentence length')
            ctx.equal([view(t) for t in s.tokens], expected[a:b], 'tokens of sentence {}'.format(si))
            ctx.equal([view(t) for t in s], expected[a:b], 'iteration of sentence {}'.format(si))
            ctx.equal((s.is_first, s.is_last), (si == 0, si == len(bounds) - 1), 'sentence place')
        s = sents[si]
        ctx.equal(None if s.next is None else s.next.text, None if si + 1 == len(bounds) else sents[si + 1].text, 'next sentence')
        ctx.equal(None if s.previous is None else s.previous.text, None if si == 0 else sents[si - 1].text, 'previous sentence')
        if s.next is not None:
            ctx.equal([view(t) for t in s.next.tokens], expected[bounds[si + 1][0]:bounds[si + 1][1]], 'tokens of the next sentence')
        for k, t in enumerate(s.tokens):
            navigation(ctx, t, k, expected[a:b], 'sentence')
            w = ps[a + k].word
            ctx.equal(t.head_index, w.head, 'sentence head index of token {} of sentence {}'.format(k, si))
            h = t.head
            if w.head is None or w.head == -1:
                ctx.check(h is None, 'token {} has no head, got {}', k, h)
            else:
                ctx.equal(view(h), expected[a + w.head], 'head of token {} in sentence {}'.format(k, si))
        ctx.rejects(lambda: view(s.get_token(b - a)), 'token after the sentence end')
    ctx.rejects(lambda: real.get_sentence(len(bounds)).text, 'sentence after the last one')
    # printing never fails and shows every character of the text in order
    ctx.check(subsequence(text, str(real)), 'str() loses text: {} {}', text, str(real))
    ctx.check(isinstance(repr(real), str), 'repr')
    # the roots end every chain of heads
    for t in real.tokens:
        steps = 0
        while t.head is not None:
            t = t.head
            steps += 1
            if steps > n:
                raise Violation('endless chain of heads')
            if steps > 12:
                break


def subsequence(small, big):
    it = iter(big)
    return all(c in it for c in small)


def navigation(ctx, t, k, expected, what):
    ctx.event('navigations')
    last = len(expected) - 1
    ctx.equal((t.is_first, t.is_last), (k == 0, k == last), '{} token place {}'.format(what, k))
    ctx.equal(None if t.next is None else view(t.next), None if k == last else expected[k + 1], '{} next of {}'.format(what, k))
    ctx.equal(None if t.previous is None else view(t.previous), None if k == 0 else expected[k - 1], '{} previous of {}'.format(what, k))
    if k + 2 <= last:
        ctx.equal(view(t.next.next), expected[k + 2], '{} next of next'.format(what))
    if k >= 2:
        ctx.equal(view(t.previous.previous), expected[k - 2], '{} previous of previous'.format(what))


def outside(ctx):
    """documents that are not validated: heads in other sentences, before the beginning, after the end"""
    rng = ctx.rng
    doc, (text, ps) = make(rng, empty=True, big=8, syntax=False)
    n, bounds = len(ps), gen.boundaries(doc)
    heads, tokens = [], []
    for p in ps:
        start = bounds[p.sentence][0]
        heads.append(rng.choice([None, -1, rng.randrange(n), rng.randrange(n), rng.randint(-4, n + 3)]))
        kwargs = {}
        if heads[-1] == -1:
            kwargs = rng.choice([{'head_document_index': -1}, {'head_sentence_index': -1}, {'head_document_index': -1, 'head_sentence_index': -1}])
        elif heads[-1] is not None:
            style = rng.randrange(3) if heads[-1] - start != -1 else rng.choice([0, 2])
            if style != 1:
                kwargs['head_document_index'] = heads[-1]
            if style != 0:
                kwargs['head_sentence_index'] = heads[-1] - start
        tokens.append(dm.Token(p.start, p.end, None, p.word.lemma, None, p.sub, p.replacement, **kwargs))
    ctx.case((text, ps, heads), nontrivial=any(h is not None and h != -1 for h in heads))
    real = dm.Document(text, tokens, [dm.Sentence(a, b) for a, b in bounds])
    expected = [view(t) for t in real.tokens]
    ctx.equal([(v[0], v[1], v[2], v[3]) for v in expected], [(p.start, p.end, p.sub, p.replacement) for p in ps], 'words')
    for (a, b), s in zip(bounds, real.sentences):
        for k, t in enumerate(s.tokens):
            one_head(ctx, t, heads[a + k], a, b, expected, 'sentence')
            one_head(ctx, real.get_token(a + k), heads[a + k], 0, n, expected, 'document')


def one_head(ctx, t, head, a, b, expected, what):
    ctx.equal((t.has_head, t.is_root), (head is not None, head == -1), 'kind of head')
    if head is None or head == -1:
        ctx.check(t.head is None, 'head of a word without head in the {}: {}', what, t.head)
    elif a <= head < b:
        ctx.equal(view(t.head), expected[head], 'head in the {}'.format(what))
    else:
        ctx.event('heads outside')
        try:
            got = t.head
        except Exception:
            got = None
        ctx.check(got is None, 'the head is outside of the {}, got {}', what, got)


def empty(ctx):
    text = ctx.rng.choice(['', ' ', 'abc', '\n'])
    ctx.case(text, nontrivial=False)
    for doc in (dm.Document(text, []), dm.Document(text, [], []), dm.Document(text, [], None, True)):
        ctx.equal((doc.text, doc.tokens_count, doc.sentences_count, list(doc.tokens), list(doc.sentences), list(doc.sentences_boundaries)),
                  (text, 0, 0, [], [], []), 'empty document')
        ctx.check(subsequence(text, str(doc)), 'str of the empty document')


def pair(ctx):
    """relations of two spans"""
    rng = ctx.rng

    def one():
        a = rng.randint(0, 4)
        b = rng.randint(a + 1, 6)
        sub = rng.choice([None, 0, 1, 2])
        return a, b, sub
    x, y = one(), one()
    if rng.random() < 0.4:
        y = x[:2] + (y[2],)
    ctx.case((x, y))

    def tok(v):
        return dm.Token(v[0], v[1], sub_index=v[2] or 0, text_replacement=None if v[2] is None else 'w')
    a, b = tok(x), tok(y)
    overlap = x[0] < y[1] and y[0] < x[1]
    same = x[:2] == y[:2]
    for p, q in ((a, b), (b, a)):
        ctx.equal(p.coincides(q), same, 'coincides {} {}'.format(x, y))
        ctx.equal(p.intersects(q), overlap and (not same or (x[2] or 0) == (y[2] or 0)), 'intersects {} {}'.format(x, y))


def parts(tier):
    return [Part('views', views, 2500, 40000, required=['heads', 'navigations']),
            Part('outside', outside, 800, 10000, required=['heads outside']),
            Part('empty', empty, 8, 8),
            Part('pair', pair, 1500, 10000)]
