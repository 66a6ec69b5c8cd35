"""C25: a pipeline applies its processors in order, to every document, and opens and closes every one of them, whatever fails."""
import itertools

from vf import gen, ref
from vf.core import Part
import babylondigger.datamodel as dm
from babylondigger.parser import StubParser
from babylondigger.processor import DocumentComplexProcessor, DocumentProcessorInteface
from babylondigger.tagger import StubTagger

RULE = ('a case is a pipeline of up to five recording processors and a fault assignment (failing entry, failing exits, failing body, failing '
        'processing); all assignments for up to four processors are enumerated; the event log is compared with the specification; '
        'non-trivial when the pipeline has at least two processors')


class Failure(BaseException):
    pass


class Plain(Failure, Exception):
    pass


KINDS = [Plain] + [type('Failed' + kind.__name__, (Failure, kind), {})
                   for kind in (KeyError, IndexError, ValueError, RuntimeError, OSError, TypeError, AttributeError, StopIteration, GeneratorExit,
                                AssertionError, KeyboardInterrupt, SystemExit, UnicodeError, NotImplementedError, ArithmeticError, MemoryError)]


def text(e):
    return None if e is None else e.args[0]


class Recorder(DocumentProcessorInteface):
    def __init__(self, name, log, fail_enter=False, fail_exit=False, fail_at=None, kind=Plain):
        self.name, self.log = name, log
        self.fail_enter, self.fail_exit, self.fail_at = fail_enter, fail_exit, fail_at
        self.open = 0
        self.kind = kind

    def process(self, documents):
        for k, d in enumerate(documents):
            if self.fail_at == k:
                raise self.kind('process {}'.format(self.name))
            self.log.append(('process', self.name))
            yield d + (self.name,)

    def __enter__(self):
        self.log.append(('enter', self.name))
        if self.fail_enter:
            raise self.kind('enter {}'.format(self.name))
        self.open += 1
        return self

    def __exit__(self, exc_type, exc_val, exc_tb):
        self.log.append(('exit', self.name, exc_type))
        self.open -= 1
        if self.fail_exit:
            raise self.kind('exit {}'.format(self.name))


def pipeline(members, rng=None):
    how = rng.random() if rng is not None else 0
    if how < 0.5:
        return DocumentComplexProcessor(members)
    return DocumentComplexProcessor(iter(members) if how < 0.75 else tuple(members))


_FAULTS = [(n, enter, exits, body) for n in range(0, 5) for enter in [None] + list(range(n))
           for exits in itertools.product([False, True], repeat=n) for body in (False, True)]


def faults(ctx):
    n, enter, exits, body = _FAULTS[ctx.index]
    ctx.case(_FAULTS[ctx.index], nontrivial=n > 1)
    log = []
    kind = ctx.rng.choice(KINDS)
    members = [Recorder(k, log, enter == k, exits[k], kind=ctx.rng.choice(KINDS)) for k in range(n)]
    p = pipeline(members, ctx.rng)
    raised = None
    reached = False
    try:
        with p as entered:
            reached = True
            ctx.check(entered is not None, 'entering gives nothing')
            log.append(('body',))
            if body:
                raise kind('body')
    except Failure as e:
        raised = e
    ctx.event('runs')
    ctx.equal(reached, enter is None, 'body is run')
    last = n if enter is None else enter
    ctx.equal([e[1] for e in log if e[0] == 'enter'], list(range(n if enter is None else enter + 1)), 'entered processors in order')
    ctx.equal(sorted(e[1] for e in log if e[0] == 'exit'), list(range(last)), 'every entered processor is exited once')
    for m in members:
        ctx.event('processors closed')
        ctx.equal(m.open, 0, 'open entries of processor {}'.format(m.name))
    if reached:
        marks = [e[0] for e in log]
        ctx.check('exit' not in marks[:marks.index('body')] and 'enter' not in marks[marks.index('body'):], 'order of events {}', marks)
    expected = enter is not None or body or any(exits[:last])
    ctx.equal(raised is not None, expected, 'a failure is reported')
    if expected and not any(exits[:last]):
        ctx.equal(text(raised), 'enter {}'.format(enter) if enter is not None else 'body', 'the failure')
    if body and enter is None:
        outcomes = [e[2] for e in log if e[0] == 'exit']
        ctx.check(all(o is not None for o in outcomes), 'a failed body is told to the processors: {}', outcomes)
    if enter is None and not body and not any(exits):
        ctx.check(all(e[2] is None for e in log if e[0] == 'exit'), 'a clean exit is told to the processors')


def order(ctx):
    rng = ctx.rng
    log = []
    n, docs = rng.randint(0, 6), [('d{}'.format(k),) for k in range(rng.randint(0, 5))]
    members = [Recorder(k, log) for k in range(n)]
    ctx.case((n, len(docs)), nontrivial=n > 1 and len(docs) > 0)
    # nested pipelines are pipelines
    def build(ms):
        if len(ms) < 2 or rng.random() < 0.5:
            return pipeline(ms, rng)
        k = rng.randint(1, len(ms) - 1)
        return pipeline([build(ms[:k])] + ms[k:], rng) if rng.random() < 0.5 else pipeline(ms[:k] + [build(ms[k:])], rng)
    p = build(members)
    expected = [d + tuple(range(n)) for d in docs]
    for _ in range(rng.randint(1, 3)):  # can be used again
        with p:
            ctx.event('runs')
            ctx.equal(list(p.process(iter(docs))), expected, 'results of {} processors'.format(n))
            ctx.equal([m.open for m in members], [1] * n, 'open entries inside')
            ctx.equal(list(p.process(iter(docs))), expected, 'results of a second call')
        ctx.equal([m.open for m in members], [0] * n, 'open entries after exit')
    ctx.equal(list(p.process(iter(docs))), expected, 'results without entering')
    ctx.event('documents', len(docs))
    # documents come one by one
    it = p.process(iter(docs))
    seen = []
    for d in it:
        seen.append(d)
        if len(seen) == 1 and len(docs) > 1 and n:
            ctx.check(sum(1 for e in log if e[0] == 'process') >= n, 'first document is processed')
    ctx.equal(seen, expected, 'results one by one')


def endless(ctx):
    rng = ctx.rng
    log, n = [], rng.randint(1, 4)
    p = pipeline([Recorder(k, log) for k in range(n)], rng)
    ctx.case(n)
    taken = [0]

    def source():
        for k in itertools.count():
            taken[0] += 1
            if taken[0] > 1000:
                raise RuntimeError('an endless input is collected before the first result')
            yield (k,)

    got = list(itertools.islice(p.process(source()), 5))
    ctx.equal(got, [(k,) + tuple(range(n)) for k in range(5)], 'first documents of an endless input')


def broken_processing(ctx):
    """a processor fails in the middle: the results before it are right, the failure is reported, everything is closed"""
    rng = ctx.rng
    log, n, count = [], rng.randint(1, 4), rng.randint(1, 5)
    bad, at = rng.randrange(n), rng.randrange(count)
    kind = rng.choice([k for k in KINDS if not issubclass(k, (StopIteration, GeneratorExit))])
    members = [Recorder(k, log, fail_at=at if k == bad else None, kind=kind) for k in range(n)]
    p = pipeline(members, rng)
    ctx.case((n, count, bad, at), nontrivial=n > 1)
    got, failed = [], None
    try:
        with p:
            for d in p.process(iter([(k,) for k in range(count)])):
                got.append(d)
    except Failure as e:
        failed = e
    ctx.event('runs')
    ctx.equal(text(failed), 'process {}'.format(bad), 'the failure')
    ctx.equal(got, [(k,) + tuple(range(n)) for k in range(at)], 'results before the failure')
    ctx.equal([m.open for m in members], [0] * n, 'open entries after the failure')


def real(ctx):
    """tagger and parser in both orders, and two taggers: the last one wins"""
    rng = ctx.rng
    plain = gen.document(rng, big=10)
    doc = gen.build_document(dm, plain)
    ctx.case(plain)
    a, c = dm.Pos('X', None, {}), dm.Pos('NOUN', 'NN', {'A': 'b'})
    chain = [StubTagger(a), StubParser('dep'), StubTagger(c)]
    direct = doc
    for m in chain:
        direct = next(iter(m.process(iter([direct]))))
    with pipeline(chain, rng) as p:
        got = list(p.process(iter([doc])))
    ctx.equal([ref.doc_view(d) for d in got], [ref.doc_view(direct)], 'document')
    ctx.check(all(t.pos == c for d in got for t in d.tokens), 'the last tagger wins')
    # a failure inside is reported, also when no processor has something to close
    kind = rng.choice(KINDS)
    for m in (chain[0], chain[1], pipeline(chain, rng), pipeline([], rng)):
        failed = None
        try:
            with m as entered:
                ctx.check(entered is not None, 'entering gives nothing')
                raise kind('inside')
        except Failure as e:
            failed = e
        ctx.equal(text(failed), 'inside', 'a failure inside of {}'.format(type(m).__name__))
        with m:
            pass


def parts(tier):
    return [Part('faults', faults, len(_FAULTS), len(_FAULTS), required=['runs', 'processors closed']),
            Part('order', order, 800, 8000, required=['documents']),
            Part('endless', endless, 40, 200),
            Part('broken_processing', broken_processing, 400, 3000),
            Part('real', real, 200, 2000)]
