"""C05: re-annotation (Document.from_document) keeps text, spans and sentences, and accepts nothing else."""
from vf import gen, ref
from vf.core import Part
import babylondigger.datamodel as dm
from vf.checks.c03 import make

RULE = ('a case is a random document and a list of tokens for it: re-annotated ones in any order (accepted, everything but the '
        'annotation is kept) or ones with a token lost, added, moved, stretched or with another part of a multiword token (rejected)')


def tokens_for(rng, doc, ps):
    result, heads = [], []
    for p in ps:
        kw = {}
        if rng.random() < 0.8:
            kw['pos'] = dm.Pos(rng.choice(gen.UPOS), rng.choice([None, 'x']), gen.feats(rng))
        if rng.random() < 0.8:
            kw['lemma'] = gen.word(rng)
        if p.word.head is not None and rng.random() < 0.9:
            kw['head_sentence_index'] = p.word.head
            kw['deprel'] = rng.choice(gen.DEPREL)
        if rng.random() < 0.3:
            kw['extras'] = dm.TokenExtras({'e': [rng.random()]})
        result.append(dm.Token(p.start, p.end, sub_index=p.sub, text_replacement=p.replacement, **kw))
        heads.append(kw.get('head_sentence_index'))
    return result, heads


def accepted(ctx):
    rng = ctx.rng
    doc, (text, ps) = make(rng, big=30)
    real = gen.build_document(dm, doc, rng, notation=rng.choice(['sentence', 'document']), placed=(text, ps))
    ctx.case((text, ps), nontrivial=len(ps) > 1)
    before = ref.doc_view(real)
    for _ in range(3):
        toks, heads = tokens_for(rng, doc, ps)
        want = [ref.token_view(t) for t in toks]
        order = list(toks)
        if rng.random() < 0.7:
            rng.shuffle(order)
        made = dm.Document.from_document(real, order if rng.random() < 0.8 else tuple(order))
        ctx.event('accepted')
        ctx.equal(ref.skeleton(made), ref.skeleton(real), 'text, spans and sentences')
        ctx.equal([ref.token_view(t) for t in made.tokens], want, 'annotation')
        ctx.equal([t.head_index for s in made.sentences for t in s.tokens], heads, 'heads')
        ctx.equal([(s.text, s.tokens_count) for s in made.sentences], [(s.text, s.tokens_count) for s in real.sentences], 'sentences')
        ctx.equal(ref.doc_view(real), before, 'the source document')
        if rng.random() < 0.5:
            real, before = made, ref.doc_view(made)
    # tokens of the document itself, and of its sentences
    for toks in (list(real.tokens), [t for s in real.sentences for t in s.tokens]):
        made = dm.Document.from_document(real, toks)
        ctx.equal(ref.doc_view(made), ref.doc_view(real), 'a document of its own tokens')
        ctx.check(made == real, 'a document of its own tokens is equal to it')


def rejected(ctx):
    rng = ctx.rng
    doc, (text, ps) = make(rng, big=20)
    real = gen.build_document(dm, doc, rng, notation='sentence', placed=(text, ps))
    specs = [(p.start, p.end, p.sub, p.replacement) for p in ps]
    taken = set(specs)
    kind = rng.randrange(9)
    i = rng.randrange(len(specs))
    s, e, sub, r = specs[i]
    new = list(specs)
    if kind == 0:
        del new[i]
    elif kind == 1:
        new = []
    elif kind == 2:
        new.append(new[i])
    elif kind == 3:
        new.append((len(text), len(text) + 1, 0, None))
    elif kind == 4:
        new[i] = (s + 1, e, sub, r)
    elif kind == 5:
        new[i] = (s, e - 1, sub, r)
    elif kind == 6:
        new[i] = (s, e + 1, sub, r)
    elif kind == 7:
        new = new[:rng.randrange(len(new))]
    else:
        new[i] = (max(0, s - 1), e, sub, r)
    new = [t for t in new if t[0] < t[1]]
    if [t[:3] for t in sorted(new, key=lambda t: t[:3])] == [t[:3] for t in specs]:
        ctx.event('unchanged')
        return
    if rng.random() < 0.5:
        rng.shuffle(new)
    ctx.case((specs, new))
    toks = [dm.Token(*t[:2], sub_index=t[2], text_replacement=t[3]) for t in new]
    ctx.rejects(lambda: dm.Document.from_document(real, toks), 'tokens {} for a document with tokens {}'.format(new, specs))


def parts(tier):
    return [Part('accepted', accepted, 1500, 20000, required=['accepted']),
            Part('rejected', rejected, 3000, 40000, required=['rejections'])]
