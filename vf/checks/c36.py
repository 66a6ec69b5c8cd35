"""C36: the wrapper of the graph parser gives it every word in order, and its answers arrive at the same words."""
import os

import numpy as np

from vf import dozat, gen, neural, ref
from vf.core import Part
import babylondigger.datamodel as dm
from babylondigger.evaluation import conllu_io  # noqa: F401

dozat.install()
from babylondigger.wrappers import tdozat as wrapper  # noqa: E402

tf = neural.tf
RULE = ('a case is a stand-in of the graph parser (tagger or parser network with random inputs, outputs, batch size and parameters in a saved model), '
        'documents and a history of calls, also with failures; everything the parser gets is compared with the documents, every word of the results '
        'with the answer the network gives for this very word; non-trivial when there are several sentences')
ASSUMPTIONS = ['the external parser is replaced by a stand-in with the same interface (its git submodule is not in the repository)',
               'the stand-in runs over the TensorFlow 1 interface of the installed TensorFlow 2']


def expected_rows(sentence):
    rows = []
    for i, w in enumerate(gen.words(sentence)):
        rows.append([str(i + 1), w.form, w.lemma or '_', w.upos or '_', w.xpos or '_', ref.feats_str(w.feats) or '_',
                     '_' if w.head is None else str(w.head + 1), '_' if w.head is None else w.deprel or '_'])
    return rows


def clean(w):
    """words whose annotation can be written to columns"""
    return w._replace(lemma=None if w.lemma == '_' else w.lemma)


def documents(rng, n=None):
    plain = [gen.document(rng, sentences=rng.choice([1, 1, 2, 3, 5]), big=12, multi=0.2) for _ in range(rng.choice([0, 1, 1, 2, 3]) if n is None else n)]
    plain = [[[u._replace(words=[clean(w) for w in u.words]) for u in s] for s in d] for d in plain]
    return plain, [gen.build_document(dm, d, extras=(lambda k: {'old': [k], 'n': k}) if rng.random() < 0.5 else None) for d in plain]


def none(value):
    return None if value == '_' else value


def pos_of(upos, xpos, feats):
    feats = tuple(sorted(tuple(entry.split('=', 1)) for entry in feats.split('|'))) if feats else ()
    return None if upos is None and xpos is None and not feats else (upos, xpos, feats)


def view(pos):
    v = ref.pos_view(pos)
    return None if v == (None, None, ()) else v


class Setup(object):
    """one saved model and its wrapper"""

    def __init__(self, ctx, kind, base):
        rng = ctx.rng
        self.ctx, self.kind = ctx, kind
        self.offset, self.batch = rng.randint(0, 50), rng.choice([1, 2, 3, 100])
        self.extras = {}
        options = {}
        if kind == 'parser':
            self.outputs = ['dephead', 'deprel']
            self.inputs = ['lemma', 'upos', 'xpos', 'ufeats']
            if rng.random() < 0.5:
                options['parser_recur_layer'] = True
                self.extras['parser_recur_layer'] = 1
            branch = 'deptree'
        else:
            self.outputs = ['upos'] + [f for f in ('xpos', 'ufeats', 'lemma') if rng.random() < 0.6]
            self.inputs = [f for f in ('lemma', 'xpos', 'ufeats') if f not in self.outputs]
            for name, factor in (('tagger_recur_layer', 1), ('upos_hidden', 3)) + ((('xpos_hidden', 3),) if 'xpos' in self.outputs else ()):
                if rng.random() < 0.3:
                    options[name] = True
                    self.extras[name] = factor
            branch = 'upos'
        if rng.random() < 0.4:
            options['extra_fields'] = {'own': (branch, 'hidden_layer'), 'old': (branch, 'recur_layer')}
            self.extras.update(own=3, old=1)
        rng.shuffle(self.outputs)
        self.options = options
        self.name = 'ParserNetwork' if kind == 'parser' else 'TaggerNetwork'
        self.path = os.path.join(base, kind)
        dozat.model(self.path, self.name, self.inputs, self.outputs, self.offset, self.batch, rng.random() < 0.5)

    def create(self):
        return (wrapper.TDozatParser if self.kind == 'parser' else wrapper.TDozatTagger)(self.path, **self.options)

    def judge(self, plain, docs, call):
        """annotate and compare"""
        ctx = self.ctx
        before = [ref.doc_view(d) for d in docs]
        dozat.Log.sentences = []
        results = list(call(iter(docs)))
        ctx.equal(len(results), len(docs), 'number of documents')
        rows = [expected_rows(s) for d in plain for s in d]
        ctx.equal([[r[:8] for r in s] for s in dozat.Log.sentences], rows, 'what the parser gets')
        ctx.equal([ref.doc_view(d) for d in docs], before, 'documents after the annotation')
        for p, d, r in zip(plain, docs, results):
            ctx.equal(ref.skeleton(r), ref.skeleton(d), 'text, tokens and sentences')
            for s, old, new in zip(p, d.sentences, r.sentences):
                own = expected_rows(s)
                ctx.event('sentences')
                for row, a, b in zip(own, old.tokens, new.tokens):
                    self.word(row, len(own), a, b)

    def word(self, row, length, old, new):
        ctx = self.ctx
        k = dozat.key(row)
        got = dict(zip(['id', 'form', 'lemma', 'upos', 'xpos', 'ufeats', 'dephead', 'deprel'], row))
        for f in self.outputs:
            n = dozat.number(f, k, self.offset, length)
            got[f] = str(n) if f == 'dephead' else dozat.VALUES[f][n]
        ctx.equal(view(new.pos), pos_of(none(got['upos']), none(got['xpos']), none(got['ufeats'])), 'tags of word {}'.format(row))
        ctx.equal(new.lemma, none(got['lemma']), 'lemma of word {}'.format(row))
        if self.kind == 'parser':
            ctx.equal((new.head_index, new.deprel, new.is_root), (int(got['dephead']) - 1, none(got['deprel']), got['dephead'] == '0'), 'head and relation of word {}'.format(row))
        ctx.equal(sorted(new.extras), sorted(set(old.extras) | set(self.extras)), 'names of extras')
        for name in old.extras:
            if name not in self.extras:
                ctx.equal(new.extras[name], old.extras[name], 'extra ' + name)
        for name, factor in self.extras.items():
            values = np.array(new.extras[name], dtype=float)
            expected = np.array([k, k * 2 + self.offset], dtype=float) * factor
            ctx.check(values.shape == expected.shape and np.allclose(values, expected), 'extra {} of word {}: {}, expected {}', name, row, values, expected)
            ctx.event('extras')
        ctx.event('words')


def method(rng, annotator, kind):
    return rng.choice([annotator.process, annotator.process, annotator.parse if kind == 'parser' else annotator.tag])


def answers(ctx):
    rng = ctx.rng
    base = os.path.join(ctx.scratch, 'c36', str(ctx.index))
    dozat.Log.fail = None
    s = Setup(ctx, ['parser', 'tagger'][ctx.index % 2], base)
    annotator = s.create()
    seen = []
    for _ in range(rng.choice([1, 1, 2])):  # left and entered again
        with annotator as entered:
            for _ in range(rng.choice([1, 2, 3])):
                plain, docs = documents(rng)
                seen.append(plain)
                s.judge(plain, docs, method(rng, entered, s.kind))
                ctx.event('calls')
    ctx.case((s.inputs, s.outputs, s.batch, s.options, seen), nontrivial=sum(len(d) for p in seen for d in p) > 1)
    ctx.rejects(lambda: list(annotator.process(iter(documents(rng, 1)[1]))), 'use after the context')


def failures(ctx):
    """after a failed call the next one is right"""
    rng = ctx.rng
    base = os.path.join(ctx.scratch, 'c36f', str(ctx.index))
    dozat.Log.fail = None
    s = Setup(ctx, ['parser', 'tagger'][ctx.index % 2], base)
    annotator = s.create()
    ctx.rejects(lambda: list(annotator.process(iter(documents(rng, 1)[1]))), 'use before the context')
    seen = []
    with annotator:
        for _ in range(rng.randint(1, 3)):
            plain, docs = documents(rng, rng.randint(1, 3))
            seen.append(plain)
            if rng.random() < 0.7:
                row = rng.choice([r for d in plain for x in d for r in expected_rows(x)])
                dozat.Log.fail = dozat.key(row)
                ctx.rejects(lambda: list(annotator.process(iter(docs))), 'failing parser')
                dozat.Log.fail = None
                ctx.event('failed calls')
            else:
                def broken():
                    yield docs[0]
                    raise KeyError('injected failure of the documents')
                ctx.rejects(lambda: list(annotator.process(broken())), 'failing documents')
            if rng.random() < 0.5:
                plain, docs = documents(rng, rng.randint(1, 3))
                seen.append(plain)
            s.judge(plain, docs, annotator.process)
    ctx.case((s.inputs, s.outputs, s.batch, s.options, seen))


def sessions(ctx):
    """what was opened is closed"""
    from vf.checks.c39 import Sessions
    rng = ctx.rng
    base = os.path.join(ctx.scratch, 'c36s', str(ctx.index))
    dozat.Log.fail = None
    s = Setup(ctx, ['parser', 'tagger'][ctx.index % 2], base)
    plain, docs = documents(rng, 2)
    ctx.case((s.inputs, s.outputs, s.options, plain))
    with Sessions(ctx) as watch:
        annotator = s.create()
        for fails in (False, True):
            try:
                with annotator:
                    s.judge(plain, docs, annotator.process)
                    ctx.equal(len(watch.live), 1, 'open sessions inside of the context')
                    if fails:
                        raise KeyError('injected')
            except KeyError:
                ctx.check(fails, 'an error of its own')
            ctx.equal(len(watch.live), 0, 'open sessions after the context')
        ctx.event('contexts', 2)
        # the parameters cannot be loaded
        for root, _, names in os.walk(os.path.join(s.path, s.name)):
            for n in names:
                os.remove(os.path.join(root, n))

        def use():
            with annotator:
                return list(annotator.process(iter(docs)))
        ctx.rejects(use, 'missing parameters')
        ctx.equal(len(watch.live), 0, 'open sessions after a failed entry')
        ctx.rejects(lambda: list(annotator.process(iter(docs))), 'use after a failed entry')
        ctx.event('failed entries')


def refused(ctx):
    rng = ctx.rng
    base = os.path.join(ctx.scratch, 'c36r', str(ctx.index))
    kind = ['parser', 'tagger'][ctx.index % 2]
    s = Setup(ctx, kind, base)
    case = ctx.index // 2 % 4
    ctx.case((kind, case, s.outputs))
    own = wrapper.TDozatParser if kind == 'parser' else wrapper.TDozatTagger
    branch = 'deptree' if kind == 'parser' else 'upos'
    if case == 0:
        wrong = rng.choice([('nothing',), (branch, 'nothing'), (branch, 'recur_layer', 'more'), ('semgraph', 'recur_layer')])
        ctx.rejects(lambda: own(s.path, extra_fields={'e': wrong}), 'extra field {}'.format(wrong))
    elif case == 1:
        # a configuration of the other network
        with open(os.path.join(s.path, s.name + '.cfg')) as f:
            text = f.read()
        with open(os.path.join(s.path, s.name + '.cfg'), 'w') as f:
            f.write(text.replace(s.name, 'TaggerNetwork' if kind == 'parser' else 'ParserNetwork'))
        ctx.rejects(lambda: own(s.path), 'model of the other kind')
    elif case == 2:
        ctx.rejects(lambda: own(os.path.join(base, 'nothing')), 'missing model')
    else:
        # parameters are missing
        for root, _, names in os.walk(os.path.join(s.path, s.name)):
            for n in names:
                os.remove(os.path.join(root, n))

        def use():
            with own(s.path) as annotator:
                return list(annotator.process(iter(documents(rng, 1)[1])))
        ctx.rejects(use, 'missing parameters')
    ctx.event('refused')


def setup(ctx):
    pass


setup.big = True
WALL = 400


def parts(tier):
    return [Part('answers', answers, 160, 1600, timeout=100, required=['words', 'sentences', 'extras', 'calls']),
            Part('failures', failures, 60, 600, timeout=100, required=['failed calls']),
            Part('sessions', sessions, 24, 200, timeout=100, required=['contexts', 'failed entries']),
            Part('refused', refused, 32, 200, timeout=60, required=['refused'])]
