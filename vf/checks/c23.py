"""C23: annotators annotate and do nothing else: same documents, same order, same text, tokens and sentences, inputs untouched."""
import itertools
import os
import random
from collections import Counter

from vf import feat, gen, neural, ref, udp
from vf.core import Part
import babylondigger.datamodel as dm
from babylondigger.parser import StubParser
from babylondigger.processor import DocumentComplexProcessor
from babylondigger.tagger import StubTagger, StubTaggerTrainer
from babylondigger.wrappers import udpipe1_2 as wrapper

RULE = ('a case is a list of documents (multiword tokens, tokens without spaces, with and without previous annotation and extras) and an '
        'annotator: stub tagger and parser, UDPipe tagger and parser over a stand-in and over a trained model, a trained neural tagger, '
        'pipelines of them; snapshots before and after are compared; non-trivial when a document has at least two sentences or a multiword token')
ASSUMPTIONS = ['the neural part runs over the TensorFlow 1 interface of the installed TensorFlow 2, on tiny networks']


def documents(rng, n=None, hostile=True, syntax=None):
    plain, docs = [], []
    for k in range(n if n is not None else rng.randint(0, 4)):
        d = gen.document(rng, sentences=rng.randint(1, 4), big=12, hostile=hostile, syntax=syntax)
        lead = rng.choice(['', '', ' ', '\n'])
        extras = (lambda i: {'k': i, 'v': [i]}) if rng.random() < 0.3 else None
        docs.append(gen.build_document(dm, d, rng, rng.choice(['sentence', 'document', 'both']), placed=gen.place(d, lead=lead), extras=extras))
        plain.append(d)
    return plain, docs


def variants(rng, docs):
    """the same documents again, and documents with the same text but other tokens, sentences or annotation"""
    result = list(docs)
    for d in docs:
        tokens = [dm.Token.with_syntax(t) for t in d.tokens]
        r = rng.random()
        if r < 0.2 or not tokens:
            result.append(d)
        elif r < 0.4:  # other sentences
            cuts = sorted(rng.sample(range(1, len(tokens)), rng.randint(0, len(tokens) - 1))) if len(tokens) > 1 else []
            bounds = [0] + cuts + [len(tokens)]
            result.append(dm.Document(d.text, tokens, [dm.Sentence(a, b) for a, b in zip(bounds, bounds[1:])]))
        elif r < 0.6:  # other annotation
            result.append(dm.Document.from_document(d, [dm.Token.with_morphology(t, dm.Pos('ZZ'), 'zz') for t in tokens]))
        elif r < 0.8:  # other tokens
            result.append(dm.Document(d.text, [dm.Token(t.start, t.end) for k, t in enumerate(tokens) if t.sub_index == 0 and (k == 0 or rng.random() < 0.7)]))
        else:
            result.append(dm.Document.from_document(d, [dm.Token.with_extras(t, dm.TokenExtras({'other': 1})) for t in d.tokens]))
    order = list(range(len(result)))
    if rng.random() < 0.5:
        rng.shuffle(order)
    return [result[i] for i in order]


def keeps(ctx, process, docs, tagger, parser, complete=False):
    """run the annotator over the documents and compare with the snapshots"""
    if ctx.rng.random() < 0.5 and not complete:
        docs = variants(ctx.rng, docs)
    before = [ref.doc_view(d) for d in docs]
    how = ctx.rng.choice([iter, lambda ds: (d for d in ds), list]) if not complete else iter
    results = list(process(how(docs)))
    ctx.equal(len(results), len(docs), 'number of documents')
    for k, (d, r) in enumerate(zip(docs, results)):
        ctx.event('documents')
        ctx.equal(ref.doc_view(d), before[k], 'input document {} after annotation'.format(k))
        ctx.equal(ref.skeleton(r), ref.skeleton(d), 'text, tokens and sentences of document {}'.format(k))
        ctx.equal([s.text for s in r.sentences], [s.text for s in d.sentences], 'texts of sentences')
        for t, u in zip(d.tokens, r.tokens):
            ctx.event('tokens')
            ctx.equal(extras(u), extras(t), 'extras of {!r}'.format(t.text))
            if not tagger:
                ctx.equal((ref.pos_view(u.pos), u.lemma), (norm(t.pos), t.lemma), 'morphology of {!r} after parsing'.format(t.text))
            if not parser:
                ctx.equal((u.has_head, u.is_root, u.head_index, u.deprel), (t.has_head, t.is_root, t.head_index, t.deprel),
                          'syntax of {!r} after tagging'.format(t.text))
    return results


def norm(pos):
    v = ref.pos_view(pos)
    return None if v == (None, None, ()) else v


def extras(t):
    return sorted((k, repr(t.extras[k])) for k in t.extras)


def chain_tree(ctx, results):
    for d in results:
        for s in d.sentences:
            heads = [None if not t.has_head else t.head_index for t in s]
            ctx.equal(heads, list(range(-1, len(heads) - 1)), 'heads of the stub parser')


def stubs(ctx):
    rng = ctx.rng
    plain, docs = documents(rng)
    ctx.case(plain, nontrivial=any(len(d) > 1 or any(u.multi for s in d for u in s) for d in plain))
    pos = rng.choice([None, dm.Pos('X', None, {}), dm.Pos('NOUN', 'NN', {'Case': 'Nom'})])
    tagger, parser = StubTagger(pos), StubParser(rng.choice([None, 'dep']))
    for call in (tagger.tag, tagger.process):
        for d in keeps(ctx, call, docs, True, False):
            for t in d.tokens:
                ctx.equal((t.pos, t.lemma), (pos, t.text), 'stub morphology')
    for call in (parser.parse, parser.process):
        chain_tree(ctx, keeps(ctx, call, docs, False, True))
    both = DocumentComplexProcessor([tagger, parser])
    with both:
        chain_tree(ctx, keeps(ctx, both.process, docs, True, True))


def trained_stub(ctx):
    rng = ctx.rng
    plain, docs = feat.corpus(rng, pool=feat.pool(rng))
    if rng.random() < 0.15:
        # large counts which differ by little: two tags alternate through long sentences
        n = rng.choice([40, 101, 257, 1000])
        a, b = [gen.morph(rng)[:2] + ({},) for _ in range(2)]
        a, b = (a[0] or 'X', a[1], a[2]), (b[0] or 'Y', b[1], b[2])
        tags = [a] * n + [b] * (n + rng.choice([-1, 1]))
        rng.shuffle(tags)
        plain = [[[gen.Unit('w', [gen.Word('w', 'w', u, x, f, None, None)], False, True) for u, x, f in tags[k:k + 100]]]
                 for k in range(0, len(tags), 100)]
        docs = [gen.build_document(dm, d) for d in plain]
    ctx.case(plain)
    taggers = list(StubTaggerTrainer().train(feat.dataset(rng, docs)))
    ctx.equal(len(taggers), 1, 'number of trained stub taggers')
    counts = Counter(ref.pos_view(t.pos) for d in docs for t in d.tokens)
    best = {p for p, c in counts.items() if c == max(counts.values())}
    _, other = documents(rng, 2)
    for d in keeps(ctx, taggers[0].tag, other, True, False):
        for t in d.tokens:
            ctx.check(ref.pos_view(t.pos) in best, 'stub tag {} is not the most frequent', t.pos)
            ctx.equal(t.lemma, t.text, 'stub lemma')


def stream(ctx):
    """an endless stream of documents"""
    rng = ctx.rng
    _, docs = documents(rng, 3)
    which = ctx.index % 5
    ctx.case(which)
    model = udp.FakeModel(rng)
    annotator = [lambda: StubTagger(None), lambda: StubParser(), lambda: wrapper.UDPipeTagger(model),
                 lambda: wrapper.UDPipeTaggerParser(model),
                 lambda: DocumentComplexProcessor([StubTagger(None), StubParser(), StubTagger(None)])][which]()
    taken = [0]

    def endless():
        for d in itertools.cycle(docs):
            taken[0] += 1
            if taken[0] > 2000:
                raise RuntimeError('an endless stream is collected before the first result')
            yield d

    results = list(itertools.islice(annotator.process(endless()), 7))
    ctx.event('documents', 7)
    for k, r in enumerate(results):
        ctx.equal(ref.skeleton(r), ref.skeleton(docs[k % 3]), 'document {} of the stream'.format(k))


def udpipe(ctx):
    rng = ctx.rng
    plain, docs = documents(rng)
    ctx.case(plain, nontrivial=any(len(d) > 1 or any(u.multi for s in d for u in s) for d in plain))
    model = udp.FakeModel(rng) if ctx.index % 4 else _state['model']
    if ctx.index % 4 == 0 and rng.random() < 0.3:
        made = [getattr(wrapper, n).load_udpipe(_state['path']) for n in ('UDPipeTagger', 'UDPipeParser', 'UDPipeTaggerParser')]
    else:
        made = [wrapper.UDPipeTagger(model), wrapper.UDPipeParser(model), wrapper.UDPipeTaggerParser(model)]
    tagger, parser, both = made
    keeps(ctx, rng.choice([tagger.tag, tagger.process]), docs, True, True)
    keeps(ctx, rng.choice([parser.parse, parser.process]), docs, False, True)
    keeps(ctx, rng.choice([both.parse, both.process]), docs, True, True)
    keeps(ctx, DocumentComplexProcessor([tagger, parser]).process, docs, True, True)


_state = {}


def neural_taggers(ctx):
    rng = ctx.rng
    plain, train = neural.treebank(rng, docs=2)
    emb = os.path.join(ctx.scratch, 'emb')
    neural.word_file(emb, rng, plain)
    hyper = neural.config(rng, emb=emb)
    ctx.case((hyper, plain))
    path = os.path.join(ctx.scratch, 'model{}'.format(ctx.index))
    tagger = neural.train(train, hyper, path)[-1][1]
    _, docs = documents(rng, 3, hostile=rng.random() < 0.7)
    docs = docs + train[:1]
    docs = variants(rng, docs)
    results = keeps(ctx, tagger.tag, docs, True, False, complete=True)
    tasks = hyper['tasks']
    for d, r in zip(docs, results):
        for t, u in zip(d.tokens, r.tokens):
            ctx.event('neural tokens')
            if 'pos' in tasks:
                ctx.check(u.pos is not None, 'no POS is predicted for {}', t.text)
            else:
                ctx.equal(u.pos, t.pos, 'POS without POS task')
            if 'lemma' in tasks:
                ctx.check(u.lemma is not None, 'no lemma is predicted for {}', t.text)
            else:
                ctx.equal(u.lemma, t.lemma, 'lemma without lemma task')
    keeps(ctx, DocumentComplexProcessor([tagger, StubParser()]).process, docs, True, True)


def setup(ctx):
    _state['path'] = udp.train(random.Random(3), os.path.join(ctx.scratch, 'model.udpipe'))
    _state['model'] = udp.ud.Model.load(_state['path'])


setup.big = True


def parts(tier):
    return [Part('stubs', stubs, 800, 10000, required=['documents', 'tokens']),
            Part('trained_stub', trained_stub, 200, 2000),
            Part('stream', stream, 50, 500),
            Part('udpipe', udpipe, 800, 10000),
            Part('neural', neural_taggers, 24, 300, timeout=150, required=['neural tokens'])]
