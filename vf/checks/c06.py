"""C06: equality, hashing and ordering of the value objects follow exactly their observable content."""
import itertools

from vf import gen, ref
from vf.core import Part
import babylondigger.datamodel as dm
from babylondigger.lemmas.transformation_rules import LemmaSuffixTransformation

RULE = ('a case is a small pool of value objects differing in one field or in nothing; all pairs and triples are compared with '
        'equality and order of their plain content; non-trivial when the pool holds both equal and different objects')


def laws(ctx, pool, hashable, what):
    """pool: (key, object)"""
    other = object()
    for key, obj in pool:
        ctx.check(obj == obj and not (obj != obj), '{} is not equal to itself: {}', what, obj)
        ctx.check(not (obj == other) and obj != other and not (obj == None) and not (obj == 'x'), '{} equals a foreign object: {}', what, obj)  # noqa
    for (k1, o1), (k2, o2) in itertools.product(pool, pool):
        same = k1 == k2
        ctx.event('equal' if same else 'different')
        ctx.check((o1 == o2) is same, '{}: {} == {} should be {}', what, o1, o2, same)
        ctx.check((o1 != o2) is (not same), '{}: {} != {} should be {}', what, o1, o2, not same)
        if hashable and same:
            ctx.check(hash(o1) == hash(o2), '{}: equal objects with different hashes {} {}', what, o1, o2)
    if hashable:
        distinct = []
        for k, _ in pool:
            if k not in distinct:
                distinct.append(k)
        ctx.equal(len({o for _, o in pool}), len(distinct), 'set of {}'.format(what))


def pos_pool(rng):
    base = (rng.choice(gen.UPOS + [None]), rng.choice(gen.XPOS + [None]), gen.feats(rng))
    variants = [base]
    for _ in range(5):
        upos, xpos, feats = rng.choice(variants)
        feats = dict(feats)
        r = rng.randrange(6)
        if r == 0:
            upos = rng.choice(gen.UPOS + [None, 'a', ''])
        elif r == 1:
            xpos = rng.choice(gen.XPOS + [None, ''])
        elif r == 2:
            feats[rng.choice(gen.FEAT_KEYS)] = rng.choice(gen.FEAT_VALUES)
        elif r == 3 and feats:
            del feats[rng.choice(sorted(feats))]
        elif r == 4 and len(feats) > 1:
            a, b = rng.sample(sorted(feats), 2)
            feats[a], feats[b] = feats[b], feats[a]
        else:
            items = list(feats.items())
            rng.shuffle(items)
            feats = dict(items)
        variants.append((upos, xpos, feats))
    return variants


def key_of(v):
    upos, xpos, feats = v
    return (upos is not None, upos or ''), (xpos is not None, xpos or ''), tuple(sorted(feats.items()))


def pos(ctx):
    rng = ctx.rng
    variants = pos_pool(rng)
    ctx.case(variants)
    pool = [((v[0], v[1], v[2]), dm.Pos(*v)) for v in variants]
    laws(ctx, pool, True, 'Pos')
    objs = [o for _, o in pool]
    for a, b in itertools.product(objs, objs):
        lt, gt, eq = a < b, a > b, a == b
        ctx.check([lt, gt, eq].count(True) == 1, 'order of {} and {} is not total', a, b)
        ctx.equal((a <= b, a >= b), (lt or eq, gt or eq), 'order of {} and {}'.format(a, b))
        if a.upos is not None and b.upos is not None and a.upos != b.upos:
            ctx.equal(lt, a.upos < b.upos, 'order by upos')
        ctx.event('ordered')
    for a, b, c in itertools.product(objs, objs, objs):
        if a < b and b < c:
            ctx.check(a < c, 'order is not transitive: {} {} {}', a, b, c)
    want = None
    for _ in range(3):
        rng.shuffle(objs)
        got = [ref.pos_view(p) for p in sorted(objs)]
        if want is not None:
            ctx.equal(got, want, 'sorting depends on the initial order')
        want = got
        ctx.equal(ref.pos_view(max(objs)), want[-1], 'max')


def token_variants(rng):
    base = dict(start=rng.randint(0, 5), sub=0, repl=None, pos=None, lemma=None, deprel=None, doc=None, sent=None, extras={})
    base['end'] = base['start'] + rng.randint(1, 4)
    variants = [base]
    for _ in range(7):
        v = dict(rng.choice(variants))
        r = rng.randrange(11)
        if r == 0:
            v['start'] = rng.randint(0, v['end'] - 1)
        elif r == 1:
            v['end'] = v['start'] + rng.randint(1, 5)
        elif r == 2:
            v['repl'] = rng.choice(['a', 'b', ''])
            v['sub'] = rng.choice([0, 1])
        elif r == 3:
            v['pos'] = rng.choice([None, ('X', None, {}), ('X', None, {'a': 'b'}), ('X', 'Y', {}), (None, None, {})])
        elif r == 4:
            v['lemma'] = rng.choice([None, 'x', 'X', ''])
        elif r == 5:
            v['deprel'] = rng.choice([None, 'nsubj', 'obj'])
        elif r in (6, 7):
            v['doc'], v['sent'] = rng.choice([(None, None), (-1, None), (2, None), (3, None)])
        elif r == 8:
            v['doc'], v['sent'] = rng.choice([(None, -1), (None, 2), (None, 0)])
        elif r == 9:
            v['extras'] = rng.choice([{}, {'a': [1]}, {'a': [2]}, {'b': 1}])
        variants.append(v)
    return variants


def token_key(v):
    return (v['start'], v['end'], v['sub'], v['repl'], v['pos'], v['lemma'], v['deprel'],
            v['doc'], v['sent'] if v['doc'] is None else None, v['extras'])


def make_token(v):
    return dm.Token(v['start'], v['end'], dm.Pos(*v['pos']) if v['pos'] else None, v['lemma'], v['deprel'], v['sub'], v['repl'],
                    head_document_index=v['doc'], head_sentence_index=v['sent'], extras=dm.TokenExtras(v['extras']))


def token(ctx):
    variants = token_variants(ctx.rng)
    ctx.case(variants)
    pool = [(token_key(v), make_token(v)) for v in variants]
    laws(ctx, pool, False, 'Token')


def small(ctx):
    rng = ctx.rng
    spans = []
    for _ in range(5):
        a = rng.randint(0, 3)
        spans.append((a, a + rng.randint(1, 3)))
    extras = [{}, {'a': 1}, {'a': [1, {'b': 2}]}, {'a': [1, {'b': 3}]}, {'b': 1}, {'a': 1, 'b': 2}]
    chosen = [rng.choice(extras) for _ in range(4)]
    ctx.case((spans, chosen))
    laws(ctx, [(s, dm.Sentence(*s)) for s in spans], False, 'Sentence')
    laws(ctx, [(e, dm.TokenExtras(e)) for e in chosen], False, 'TokenExtras')
    for e in chosen:
        x = dm.TokenExtras(e)
        ctx.equal((sorted(x.keys()), sorted(x), [k in x for k in 'abc'], x.as_dict(), {k: x[k] for k in x}),
                  (sorted(e), sorted(e), [k in e for k in 'abc'], e, e), 'extras')


def document(ctx):
    rng = ctx.rng
    plain = gen.document(rng, sentences=rng.randint(1, 3), big=8, hostile=False)
    text, ps = gen.place(plain)
    pool = [('base', gen.build_document(dm, plain, rng, placed=(text, ps))),
            ('base', gen.build_document(dm, plain, rng, notation='mixed', shuffle=True, placed=(text, ps))),
            ('base', gen.build_document(dm, plain, rng, notation='document', placed=(text, ps)))]
    pool.append(('text', gen.build_document(dm, plain, rng, placed=(text + ' ', ps))))
    si = rng.randrange(len(plain))
    ui = rng.randrange(len(plain[si]))

    def changed(change):
        doc = [list(s) for s in plain]
        unit = doc[si][ui]
        k = rng.randrange(len(unit.words))
        words = list(unit.words)
        new = change(words[k])
        if new is None:
            return None
        words[k] = new
        doc[si][ui] = unit._replace(words=words)
        return doc

    def other_head(w):
        if w.head is None:
            return None
        n = len(gen.words(plain[si]))
        options = [h for h in range(-1, n) if h != w.head]
        return w._replace(head=rng.choice(options)) if options else None

    for name, change in (('lemma', lambda w: w._replace(lemma='other-lemma')), ('upos', lambda w: w._replace(upos='OTHER')),
                         ('feats', lambda w: w._replace(feats=dict(w.feats, Other='1'))), ('deprel', lambda w: w._replace(deprel='other')),
                         ('xpos', lambda w: w._replace(xpos='other')), ('head', other_head)):
        doc = changed(change)
        if doc is not None:
            pool.append((name, gen.build_document(dm, doc, rng, notation=rng.choice(['sentence', 'document']), placed=gen.place(doc))))
    if len(plain) > 1:
        flat = [[u for s in plain for u in s]]
        without = [[u._replace(words=[w._replace(head=None) for w in u.words]) for u in s] for s in plain]
        flat_without = [[u for s in without for u in s]]
        pool.append(('no syntax', gen.build_document(dm, without, rng)))
        pool.append(('no syntax, one sentence', gen.build_document(dm, flat_without, rng)))
        if not any(w.head is not None for w in gen.doc_words(plain)):
            # nothing was lost
            pool = [p for p in pool if p[0] != 'no syntax']
        del flat
        # the same words without heads, cut at other places into the same number of sentences
        total = len(gen.doc_words(without))
        bounds = gen.boundaries(without)
        doc = gen.build_document(dm, without, rng)
        tokens = [dm.Token.with_syntax(t, t.deprel) for t in doc.tokens]
        for i in range(len(bounds) - 1):
            for shift in (-1, 1):
                cut = [a for a, _ in bounds] + [total]
                cut[i + 1] += shift
                if cut[i] < cut[i + 1] < cut[i + 2]:
                    pool.append((('cut', tuple(cut)), dm.Document(doc.text, tokens, [dm.Sentence(a, b) for a, b in zip(cut, cut[1:])])))
                    ctx.event('other cuts')
    ctx.case((text, ps, [k for k, _ in pool]))
    laws(ctx, pool, False, 'Document')


def lemma_rule(ctx):
    rng = ctx.rng
    suffixes = ['', 'a', 'b', 'ab', gen.word(rng), gen.word(rng)]
    specs = [(rng.choice(suffixes), rng.choice(suffixes), rng.random() < 0.3) for _ in range(8)]
    words = [gen.word(rng).lower() for _ in range(2)]
    pairs = [(w, rng.choice([w, w + 'a', w[:-1] + 'x', 'q' + w])) for w in words]
    ctx.case((specs, pairs))
    pool = [((a, b, e), LemmaSuffixTransformation(a, b, e)) for a, b, e in specs]
    for w, lem in pairs:
        rule = LemmaSuffixTransformation.get_rule(w, lem)
        pool.append(((rule.word_suffix, rule.lemma_suffix, not rule.is_regular), rule))
    laws(ctx, pool, True, 'LemmaSuffixTransformation')
    objs = [o for _, o in pool]
    for a, b in itertools.product(objs, objs):
        ctx.check([a < b, a > b, a == b].count(True) == 1, 'order of {} and {} is not total', a, b)
        ctx.equal((a <= b, a >= b), (a < b or a == b, a > b or a == b), 'order')
        ctx.equal((bool(a < b), bool(a > b)), (bool(b > a), bool(b < a)), 'order of {} and {} in both directions'.format(a, b))
    shuffled = list(objs)
    rng.shuffle(shuffled)
    ctx.equal(sorted(shuffled), sorted(objs), 'sorted rules')
    ctx.check(LemmaSuffixTransformation('a', 'b').is_regular and LemmaSuffixTransformation('a', 'b') == LemmaSuffixTransformation('a', 'b', False),
              'rules are regular unless said otherwise')
    for a in objs:
        ctx.rejects(lambda: a < 'x', 'ordering of a rule and a string')
        ctx.equal((a == 'x', a != 'x'), (False, True), 'comparison with a string')
    for a, b, c in itertools.product(objs, objs, objs):
        if a < b and b < c:
            ctx.check(a < c, 'order is not transitive: {} {} {}', a, b, c)


def parts(tier):
    return [Part('pos', pos, 2500, 30000, required=['equal', 'different', 'ordered']),
            Part('token', token, 2500, 30000),
            Part('small', small, 500, 3000),
            Part('document', document, 1200, 12000, required=['other cuts']),
            Part('lemma_rule', lemma_rule, 600, 6000)]
