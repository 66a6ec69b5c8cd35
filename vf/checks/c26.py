"""C26: testing shows the tagger the text and tokens only, and the scores are those of its answers against the untouched gold data."""
import os

from vf import evalkit, feat, gen, ref, scorer
from vf.core import Part
import babylondigger.datamodel as dm
from babylondigger.evaluation import evaluation
from babylondigger.tagger import StubTagger

RULE = ('a case is a gold treebank (documents in memory or a file), a scripted tagger with chosen mistakes (which records every document it '
        'is shown) and a results directory or none; non-trivial when the answers contain mistakes')
ASSUMPTIONS = ['the evaluation part imports the neural part over the TensorFlow 1 interface of the installed TensorFlow 2']


def bare(ctx, doc, gold):
    """what the tagger is shown: the gold text and tokens without any annotation"""
    ctx.event('documents shown')
    ctx.equal(ref.skeleton(doc), ref.skeleton(gold), 'text, tokens and sentences of the shown document')
    for t in doc.tokens:
        ctx.event('tokens shown')
        ctx.check(ref.pos_view(t.pos) in (None, (None, None, ())), 'gold part of speech {} is shown', t.pos)
        ctx.check(t.lemma is None, 'gold lemma {} is shown', t.lemma)
        ctx.check(not t.has_head, 'gold head is shown for {}', t.text)
        ctx.check(t.deprel is None, 'gold relation {} is shown', t.deprel)
    for s in doc.sentences:
        for t in s.tokens:
            ctx.check(ref.pos_view(t.pos) in (None, (None, None, ())) and t.lemma is None and not t.has_head and t.deprel is None,
                      'gold annotation is shown in a sentence: {}', t)


def compare(ctx, real, gold, system):
    scorer.compare(ctx, real, evalkit.expected_scores(gold, system), 'scores')
    ctx.event('scores')


def memory(ctx):
    rng = ctx.rng
    gold = evalkit.gold_docs(rng, syntax=rng.random() < 0.8)
    syntax = rng.random() < 0.3
    system = evalkit.mistakes(rng, gold, rng.choice([0, 0.1, 0.5, 1]), syntax)
    ctx.case((gold, system), nontrivial=system != gold)
    docs = [gen.build_document(dm, d, rng, rng.choice(['sentence', 'document', 'both'])) for d in gold]
    before = [ref.doc_view(d) for d in docs]
    tester = evaluation.DataSetTaggerTester(feat.dataset(rng, docs))
    tagger = evalkit.Scripted(system, syntax=syntax)
    for _ in range(rng.randint(1, 2)):  # a tester can be used again
        scores = tester.test(tagger, 'x')
        ctx.equal(len(tagger.seen), len(docs), 'number of shown documents')
        for d, g in zip(tagger.seen, docs):
            bare(ctx, d, g)
        compare(ctx, scores, gold, system)
    ctx.equal([ref.doc_view(d) for d in docs], before, 'gold documents after the test')


def file(ctx):
    rng = ctx.rng
    gold = evalkit.gold_docs(rng)
    syntax = rng.random() < 0.3
    system = evalkit.mistakes(rng, gold, rng.choice([0, 0.1, 0.5, 1]), syntax)
    noise = rng.random() < 0.3
    # empty nodes inside of multiword tokens are not for the scorer of 2017
    text = ref.conllu([s for d in gold for s in d], rng, False)
    if noise:
        text = text.replace('\n\n', '\n\n# text = x\n', 1) if text.count('\n\n') > 1 else '# c\n' + text
    ctx.case((gold, system), nontrivial=system != gold)
    path = evalkit.save(os.path.join(ctx.scratch, 'c26', 'gold.conllu'), text)
    results = rng.choice([None, 'out', 'deep/er/out'])
    name = rng.choice(['a.conll', 'params-0/1/epoch-3-dev.conll', 'best-test.conll'])
    base = os.path.join(ctx.scratch, 'c26', str(ctx.index))
    tester = evaluation.FileTaggerTester(path, os.path.join(base, results)) if results else evaluation.FileTaggerTester(path)
    tagger = evalkit.Scripted(system, syntax=syntax)
    scores = tester.test(tagger, name)
    plain = [[s] for d in gold for s in d]
    seen = [s for d in tagger.seen for s in d.sentences]
    ctx.equal(len(seen), len(plain), 'number of shown sentences')
    for d in tagger.seen:
        ctx.event('documents shown')
        for t in d.tokens:
            ctx.event('tokens shown')
            ctx.check(ref.pos_view(t.pos) in (None, (None, None, ())) and t.lemma is None and not t.has_head and t.deprel is None,
                      'gold annotation is shown: {}', t)
    for s, p in zip(seen, plain):
        ctx.equal([t.text for t in s.tokens], [w.form for w in gen.doc_words(p)], 'words of the shown sentence')
    compare(ctx, scores, gold, system)
    with open(path, encoding='utf8', newline='') as f:
        ctx.equal(f.read(), text, 'gold file after the test')
    if results:
        saved = os.path.join(base, results, name)
        ctx.check(os.path.isfile(saved), 'answers are not saved to {}', saved)
        with open(saved, encoding='utf8', newline='') as f:
            answers = f.read().replace('\r\n', '\n')
        got = ref.parse(answers)
        words = [row for sent in got for u in sent for row in u[3]]
        want = gen.doc_words([s for d in system for s in d])
        ctx.event('saved answers', len(words))
        ctx.equal([(r[1], r[2], r[3], r[4], r[5]) for r in words],
                  [(w.form, ref.u(w.lemma), ref.u(w.upos), ref.u(w.xpos), ref.feats_str(w.feats)) for w in want], 'saved answers')
    else:
        ctx.check(not os.path.exists(base), 'files are written without a results directory')
    # the same answers without files give the same scores
    again = evaluation.FileTaggerTester(path).test(evalkit.Scripted(system, syntax=syntax), 'y')
    for m in again:
        ctx.equal([round(v, 12) if v is not None else None for v in evalkit.values(again[m])],
                  [round(v, 12) if v is not None else None for v in evalkit.values(scores[m])], 'scores with and without results directory')


class Copycat(evalkit.TaggerInterface):
    """answers with what it is shown: gets credit for nothing but the segmentation"""

    def tag(self, documents):
        return documents


def cheat(ctx):
    """a tagger which only repeats what it is shown scores as a tagger without answers"""
    rng = ctx.rng
    gold = evalkit.gold_docs(rng)
    ctx.case(gold)
    empty = [[[u._replace(words=[w._replace(lemma=None, upos=None, xpos=None, feats={}, head=None, deprel=None) for w in u.words])
               for u in s] for s in d] for d in gold]
    docs = [gen.build_document(dm, d) for d in gold]
    if rng.random() < 0.5:
        tester = evaluation.DataSetTaggerTester(docs)
    else:
        path = evalkit.save(os.path.join(ctx.scratch, 'c26', 'gold.conllu'), ref.conllu([s for d in gold for s in d]))
        tester = evaluation.FileTaggerTester(path)
    compare(ctx, tester.test(Copycat(), 'x'), gold, empty)
    pos = rng.choice([dm.Pos('NOUN', None, {}), None])
    stub = [[[u._replace(words=[w._replace(lemma=w.form, upos=pos.upos if pos else None, xpos=None, feats={}, head=None, deprel=None)
                                for w in u.words]) for u in s] for s in d] for d in gold]
    compare(ctx, tester.test(StubTagger(pos), 'x'), gold, stub)


def setup(ctx):
    pass


setup.big = True


def parts(tier):
    return [Part('memory', memory, 900, 12000, required=['tokens shown', 'scores']),
            Part('file', file, 700, 8000, required=['saved answers']),
            Part('cheat', cheat, 300, 3000)]
