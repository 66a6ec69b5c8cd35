"""C04: documents, tokens, POS and extras never change once made, whatever is done with them or derived from them."""
import copy

from vf import gen, ref
from vf.core import Part
import babylondigger.datamodel as dm

RULE = ('a case is a history of derivations (with_morphology, with_syntax, with_extras, update_extras, from_document, fill_heads, '
        'navigation) and of hostile mutations of every mutable value given to or returned by the API; all objects made so far are '
        're-observed after each step against snapshots taken when they were made; non-trivial when the history has 3+ steps')


class Watch(object):
    """snapshots of everything made so far"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.items = []

    def add(self, obj, observe, what):
        self.items.append((obj, observe, observe(obj), what))
        return obj

    def verify(self, after):
        for obj, observe, before, what in self.items:
            self.ctx.event('reobservations')
            self.ctx.equal(observe(obj), before, '{} changed after {}'.format(what, after))


def tok_view(t):
    return ref.token_view(t) + (getattr(t, 'head_index', None), getattr(t, 'text', None), getattr(t, 'doc_text', None))


def extras_view(e):
    return repr(sorted((k, e[k]) for k in e)), repr(sorted(e.as_dict().items())), sorted(e.keys())


def extras_value(rng):
    return rng.choice([lambda: [1, 2], lambda: {'a': [1]}, lambda: {'n': {'m': [0]}}, lambda: [[1], {'x': 2}], lambda: 'text', lambda: 5,
                       lambda: (1, [2]), lambda: {1, 2}, lambda: None, lambda: 1, lambda: [0, True]])()


def extras_dict(rng):
    return {rng.choice('abcdefg'): extras_value(rng) for _ in range(rng.randint(0, 4))}


def twins(rng, extras):
    """updates equal to some of the extras, also of another type"""
    def twin(value):
        if isinstance(value, bool):
            return int(value)
        if isinstance(value, int):
            return rng.choice([float(value), value, bool(value) if value in (0, 1) else value])
        return [twin(v) for v in value] if isinstance(value, list) else value
    return {k: twin(v) for k, v in extras.items() if rng.random() < 0.7}


def kinds(extras):
    return sorted((k, repr(v)) for k, v in extras.items())


def spoil(rng, value, depth=0):
    """mutate a value in place as deep as possible"""
    if depth > 4:
        return
    if isinstance(value, dict):
        for v in list(value.values()):
            spoil(rng, v, depth + 1)
        value['spoiled'] = rng.random()
        if len(value) > 1 and rng.random() < 0.5:
            del value[next(iter(value))]
    elif isinstance(value, list):
        for v in list(value):
            spoil(rng, v, depth + 1)
        value.append('spoiled')
        value.reverse()
    elif isinstance(value, set):
        value.add('spoiled')
    elif isinstance(value, tuple):
        for v in value:
            spoil(rng, v, depth + 1)


def history(ctx):
    rng = ctx.rng
    watch = Watch(ctx)
    plain = gen.document(rng, sentences=rng.randint(1, 3), big=8, hostile=False)
    text, ps = gen.place(plain)
    given = {k: extras_dict(rng) for k in range(len(ps))}
    first = {k: copy.deepcopy(v) for k, v in given.items()}
    doc = gen.build_document(dm, plain, rng, notation='mixed', extras=lambda k: given[k], placed=(text, ps))
    log = []
    docs = [watch.add(doc, ref.doc_view, 'document 0')]
    for k, t in enumerate(doc.tokens):
        ctx.equal(t.extras.as_dict(), first[k], 'extras')
        watch.add(t, tok_view, 'token {} of document 0'.format(k))
    spoil(rng, given)
    watch.verify('mutation of the extras dictionaries given to the constructor')
    steps = rng.randint(2, 10)
    for step in range(steps):
        source = rng.choice(docs)
        kind = rng.randrange(12)
        toks = list(source.tokens) if rng.random() < 0.7 else [t for s in source.sentences for t in s.tokens]
        i = rng.randrange(len(toks))
        t = toks[i]
        before = tok_view(t)
        if kind == 0:
            feats = gen.feats(rng)
            upos = rng.choice(gen.UPOS)
            lem = gen.word(rng)
            pos = dm.Pos(upos, rng.choice([None, 'NN']), feats)
            watch.add(pos, ref.pos_view, 'pos')
            new = rng.choice([type(t).with_morphology, dm.Token.with_morphology, dm.DocumentToken.with_morphology, t.with_morphology])(t, pos, lem)
            ctx.equal((new.pos, new.lemma), (pos, lem), 'new morphology')
            ctx.equal(derived(new, 'm'), derived(t, 'm'), 'with_morphology keeps the rest')
            spoil(rng, feats)
        elif kind == 1:
            new = rng.choice([type(t).with_syntax, dm.Token.with_syntax, dm.DocumentToken.with_syntax])(
                t, rng.choice(gen.DEPREL), head_sentence_index=None if rng.random() < 0.2 else -1)
            ctx.equal(derived(new, 's'), derived(t, 's'), 'with_syntax keeps the rest')
        elif kind == 2:
            d = extras_dict(rng)
            want = copy.deepcopy(d)
            new = rng.choice([type(t).with_extras, dm.Token.with_extras])(t, dm.TokenExtras(d))
            ctx.equal(new.extras.as_dict(), want, 'new extras')
            spoil(rng, d)
            ctx.equal(new.extras.as_dict(), want, 'new extras after mutation of the given dictionary')
            ctx.equal(derived(new, 'e'), derived(t, 'e'), 'with_extras keeps the rest')
        elif kind == 3:
            d = extras_dict(rng) if rng.random() < 0.9 else None
            if rng.random() < 0.3:
                d = twins(rng, t.extras.as_dict())
            want = t.extras.as_dict()
            want.update(copy.deepcopy(d or {}))
            new = rng.choice([type(t).update_extras, dm.Token.update_extras])(t, d)
            ctx.equal(new.extras.as_dict(), want, 'updated extras')
            ctx.equal(kinds(new.extras.as_dict()), kinds(want), 'updated extras')
            spoil(rng, d)
            ctx.equal(new.extras.as_dict(), want, 'updated extras after mutation of the updates')
            ctx.equal(derived(new, 'e'), derived(t, 'e'), 'update_extras keeps the rest')
        elif kind == 4:
            new = t
            if t.pos is not None:
                feats = t.pos.feats
                spoil(rng, feats)
                t.pos.feature('Case')
        elif kind == 5:
            new = t
            for key in list(t.extras):
                spoil(rng, t.extras[key])
            spoil(rng, t.extras.as_dict())
        elif kind == 6:
            new = t
            d = extras_dict(rng)
            e = t.extras.update(d)
            watch.add(e, extras_view, 'updated extras')
            spoil(rng, d)
            spoil(rng, e.as_dict())
            for key in list(e):
                spoil(rng, e[key])
        elif kind == 7:
            new = t
            b = source.sentences_boundaries
            if isinstance(b, list):
                b.append(dm.Sentence(0, 1))
            lst = list(source.tokens)
            lst.clear()
        elif kind == 8:
            new = t
            str(source), repr(source), repr(t), hash(t.pos) if t.pos is not None else None
            sorted(x.pos for x in source.tokens if x.pos is not None)
            _ = [x.head for x in source.tokens], [s.text for s in source.sentences], source == docs[0], t == toks[0]
        elif kind == 9:
            start = next(b.start for b in source.sentences_boundaries if b.start <= i < b.end)
            new = dm.Token.fill_heads(t, start)
            ctx.equal(derived(new, ''), derived(t, ''), 'fill_heads keeps the token')
        else:
            # a list of tokens given to a document and mutated afterwards
            order = [dm.Token.with_morphology(x, dm.Pos('X', None, {'k': str(step)}), 'lemma{}'.format(step)) for x in toks]
            rng.shuffle(order)
            made = dm.Document.from_document(source, order)
            snap = ref.doc_view(made)
            order.clear()
            bounds = [dm.Sentence(b.start, b.end) for b in source.sentences_boundaries]
            rng.shuffle(bounds)
            order2 = list(toks)
            rng.shuffle(order2)
            made2 = dm.Document(source.text, order2, bounds)
            snap2 = ref.doc_view(made2)
            order2.reverse()
            order2.pop()
            bounds.reverse()
            bounds.append(dm.Sentence(0, 1))
            ctx.equal(ref.doc_view(made), snap, 'document after mutation of the list of tokens')
            ctx.equal(ref.doc_view(made2), snap2, 'document after mutation of the lists given to the constructor')
            docs.append(watch.add(made, ref.doc_view, 'document {}'.format(len(docs))))
            docs.append(watch.add(made2, ref.doc_view, 'document {}'.format(len(docs))))
            new = t
        log.append((step, kind, i))
        ctx.event('operations')
        ctx.equal(tok_view(t), before, 'the token itself changed by operation {}'.format(kind))
        watch.verify('operation {} (kind {})'.format(step, kind))
        if new is not t:
            watch.add(new, tok_view, 'derived token')
            replaced = list(toks)
            replaced[i] = new
            if new.is_root or not new.has_head or kind != 1:
                made = dm.Document.from_document(source, replaced)
                docs.append(watch.add(made, ref.doc_view, 'document {}'.format(len(docs))))
                got = list(made.tokens)[i]
                ctx.equal((got.pos, got.lemma, got.extras.as_dict(), got.deprel), (new.pos, new.lemma, new.extras.as_dict(), new.deprel),
                          'derived token in a new document')
        watch.verify('making a document')
    ctx.case((text, log, ps), nontrivial=steps >= 3)


def derived(t, without):
    result = [t.start, t.end, t.sub_index, t.text_replacement]
    if 'm' not in without:
        result += [ref.pos_view(t.pos), t.lemma]
    if 's' not in without:
        result += [t.deprel, t.has_head, t.is_root]
    if 'e' not in without:
        result += [repr(sorted(t.extras.as_dict().items(), key=repr))]
    return result


def pos_history(ctx):
    rng = ctx.rng
    feats = gen.feats(rng, big=True) if rng.random() < 0.9 else None
    want = dict(feats or {})
    ctx.case(want)
    pos = dm.Pos('X', 'Y', feats)
    seen = hash(pos), repr(pos)
    other = dm.Pos('X', 'Y', dict(want))
    for _ in range(4):
        if feats is not None:
            spoil(rng, feats)
        spoil(rng, pos.feats)
        ctx.equal(pos.feats, want, 'feats')
        ctx.equal((hash(pos), pos == other, hash(pos) == hash(other)), (seen[0], True, True), 'identity of the pos')
        for k in gen.FEAT_KEYS:
            ctx.equal(pos.feature(k), want.get(k), 'feature ' + k)


def raw(ctx):
    """derivations of tokens which do not belong to a document yet, with heads in any notation"""
    rng = ctx.rng
    plain = gen.document(rng, sentences=rng.randint(1, 4), big=8, hostile=False)
    text, ps = gen.place(plain)
    bounds = gen.boundaries(plain)
    tokens, changed, want = [], [], []
    for k, p in enumerate(ps):
        w, kwargs = p.word, {}
        if w.head is not None:
            style, start = rng.randrange(3), bounds[p.sentence][0]
            if style != 0:
                kwargs['head_sentence_index'] = w.head
            if style != 1:
                kwargs['head_document_index'] = w.head if w.head == -1 else w.head + start
        pos = dm.Pos(w.upos, w.xpos, w.feats) if rng.random() < 0.8 else None
        extras = extras_dict(rng)
        t = dm.Token(p.start, p.end, pos, w.lemma, w.deprel, p.sub, p.replacement, extras=dm.TokenExtras(extras), **kwargs)
        seen = derived(t, ''), repr(t)
        tokens.append(t)
        lemma, head, deprel = w.lemma, w.head, w.deprel
        new = t
        for _ in range(rng.randint(0, 4)):
            kind = rng.randrange(5)
            ctx.event('derivations')
            if kind == 0:
                pos, lemma = dm.Pos(rng.choice(gen.UPOS), None, gen.feats(rng)), rng.choice([None, '', 'l'])
                new = dm.Token.with_morphology(new, pos, lemma)
            elif kind == 1:
                size = bounds[p.sentence][1] - start if w.head is not None else 0
                head, deprel = (rng.randint(-1, size - 1), rng.choice(gen.DEPREL)) if size and rng.random() < 0.8 else (None, None)
                if head is None:
                    new = dm.Token.with_syntax(new)
                elif rng.random() < 0.5:
                    new = dm.Token.with_syntax(new, deprel, head_sentence_index=head)
                else:
                    new = dm.Token.with_syntax(new, deprel, head_document_index=head if head == -1 else head + start)
            elif kind == 2:
                extras = extras_dict(rng)
                new = dm.Token.with_extras(new, dm.TokenExtras(extras))
            elif kind == 3:
                more = extras_dict(rng)
                extras = dict(extras, **more)
                new = dm.Token.update_extras(new, more)
            else:
                same = dm.Token.with_morphology(dm.Token.with_extras(new, dm.TokenExtras(extras)), pos, lemma)
                ctx.check(same == new and not same != new, 'a token with its own annotation differs from it: {} {}', same, new)
                new = same
        ctx.equal((derived(t, ''), repr(t)), seen, 'the original token')
        changed.append(new)
        want.append((p.start, p.end, p.sub, p.replacement, ref.pos_view(pos), lemma, deprel, extras, head))
    ctx.case((text, ps, want), nontrivial=len(ps) > 1)
    sents = [dm.Sentence(a, b) for a, b in bounds]
    doc = dm.Document(text, tokens, sents)
    for made in (dm.Document(text, changed, sents), dm.Document.from_document(doc, changed)):
        ctx.event('documents of derived tokens')
        got = [(t.start, t.end, t.sub_index, t.text_replacement, ref.pos_view(t.pos), t.lemma, t.deprel, t.extras.as_dict(), t.head_index)
               for s in made.sentences for t in s.tokens]
        ctx.equal(got, want, 'tokens of the document')
        starts = [a for a, b in bounds for _ in range(a, b)]
        ctx.equal([t.head_index for t in made.tokens],
                  [w[-1] if w[-1] in (None, -1) else w[-1] + a for w, a in zip(want, starts)], 'heads in the document')


def parts(tier):
    return [Part('raw', raw, 600, 8000, required=['derivations', 'documents of derived tokens']),
            Part('history', history, 700, 12000, required=['operations', 'reobservations']),
            Part('pos', pos_history, 500, 5000)]
