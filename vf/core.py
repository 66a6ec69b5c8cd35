"""Case runner: generates cases, runs them under the monitors in forked workers, collects what the monitors saw."""
import hashlib
import json
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

from vf import cover, repo

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')


class Violation(Exception):
    """A monitor saw the property broken."""


class Skip(Exception):
    """The generated case lies outside of the property's quantifier."""


class CaseTimeout(BaseException):
    pass


def short(value, limit=1500):
    text = value if isinstance(value, str) else repr(value)
    return text if len(text) <= limit else text[:limit] + '...<{} chars>'.format(len(text))


class Ctx(object):
    """What a case function gets: its own random source, its index, and the counters of the monitors."""

    def __init__(self, tier, seed):
        self.tier = tier
        self.seed = seed
        self.rng = None
        self.index = None
        self.events = {}
        self.cases = 0
        self.hashes = set()
        self.samples = []
        self.case_repr = None
        self.scratch = None

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def case(self, value, nontrivial=True):
        """announce the concrete input of this case (kept for replay files, samples and the distinct count)"""
        self.case_repr = value
        text = repr(value)
        if nontrivial:
            self.hashes.add(hashlib.blake2b(text.encode('utf-8', 'surrogatepass'), digest_size=8).digest())
            if len(self.samples) < 2:
                self.samples.append(short(text, 600))

    def check(self, condition, message, *args):
        self.event('assertions')
        if not condition:
            raise Violation(message.format(*[short(a, 400) for a in args]) if args else message)

    def equal(self, got, expected, what):
        self.event('assertions')
        if not (got == expected):
            raise Violation('{}: got {}, expected {}'.format(what, short(got, 700), short(expected, 700)))

    def rejects(self, function, what):
        """the call must raise an ordinary exception"""
        self.event('rejections')
        try:
            value = function()
        except Exception:
            return
        raise Violation('{}: accepted, result {}'.format(what, short(value, 500)))


class Part(object):
    """A family of cases.

    function(ctx) runs case number ctx.index; quick / thorough: number of cases.
    """

    def __init__(self, name, function, quick, thorough=None, timeout=45, required=()):
        self.name = name
        self.function = function
        # cheap random families: three times as many cases still take only seconds
        self.quick = quick * 3 if thorough is not None and thorough >= 3 * quick and timeout <= 45 and quick >= 100 else quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.timeout = timeout
        self.required = tuple(required)


def watch_time(limit):
    """interrupt the case after the limit, on a loaded machine (little CPU time was given to it) up to PATIENCE seconds later"""
    start, cpu = time.monotonic(), time.process_time()

    def alarm(signum, frame):
        if time.process_time() - cpu < 0.5 * limit and time.monotonic() - start < limit + PATIENCE:
            signal.setitimer(signal.ITIMER_REAL, 5)
        else:
            raise CaseTimeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)


PATIENCE = 150


def run_case(ctx, part, index, seed, fault=None):
    """run one case; returns None or a description of the violation"""
    ctx.index = index
    ctx.rng = random.Random('{}:{}:{}'.format(seed, part.name, index))
    ctx.case_repr = None
    random.seed(index * 7919 + seed)
    ctx.cases += 1
    watch_time(part.timeout)
    try:
        part.function(ctx)
        return None
    except Skip:
        ctx.event('skipped')
        return None
    except Violation as e:
        return describe(part, index, seed, ctx, str(e), '')
    except CaseTimeout:
        return describe(part, index, seed, ctx, 'did not terminate within {} s'.format(part.timeout), '')
    except Exception as e:
        return describe(part, index, seed, ctx, 'unexpected {}: {}'.format(type(e).__name__, short(str(e), 500)),
                        traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def blames_repo(error, root):
    """was the exception raised in the code under test (innermost frame of Python code)?"""
    frames = traceback.extract_tb(error.__traceback__)
    return isinstance(error, Exception) and not isinstance(error, (MemoryError, OSError, ModuleNotFoundError)) and bool(frames) and \
        os.path.realpath(frames[-1].filename).startswith(os.path.join(os.path.realpath(root), ''))


class Stage(object):
    """not a part of a check: importing the code or preparing a check"""
    name = '(setup)'


def describe(part, index, seed, ctx, message, trace):
    return {'part': part.name, 'index': index, 'seed': seed, 'tier': ctx.tier, 'message': message,
            'case': short(repr(ctx.case_repr), 20000), 'traceback': short(trace, 6000)}


def _worker(parts, tier, seed, worker, workers, deadline, out, setup):
    ctx = Ctx(tier, seed)
    # beneath the folder of the run, which removes it also after a worker that was stopped
    ctx.scratch = tempfile.mkdtemp(prefix='vf-{}-'.format(worker), dir=os.path.dirname(out))
    violation = None
    counts = {}
    try:
        limit = 6 << 30
        if not getattr(setup, 'big', False):
            resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
        cover.start()
        if setup is not None:
            try:
                setup(ctx)
            except Exception as e:
                if not blames_repo(e, repo.PKG):
                    raise
                violation = describe(Stage, 0, seed, ctx, 'the code under test fails in the setup: {}'.format(short(repr(e), 300)),
                                     traceback.format_exc())
                return
        # interleave the parts, so that a deadline does not starve the last ones
        queue = []
        for part in parts:
            n = part.thorough if tier == 'thorough' else part.quick
            queue.extend((i / max(n, 1), k, i) for k, i in ((parts.index(part), i) for i in range(worker, n, workers)))
        queue.sort()
        for _, k, i in queue:
            if time.time() > deadline:
                ctx.event('cut_by_deadline')
                break
            part = parts[k]
            with open(out + '.case', 'w') as f:
                f.write('{} {} {}'.format(k, i, time.time()))
            counts[part.name] = counts.get(part.name, 0) + 1
            violation = run_case(ctx, part, i, seed)
            if violation:
                break
    except BaseException:
        violation = {'error': traceback.format_exc()}
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        with open(out, 'wb') as f:
            pickle.dump({'events': ctx.events, 'cases': ctx.cases, 'hashes': ctx.hashes, 'samples': ctx.samples,
                         'violation': violation, 'lines': cover.lines(), 'parts': counts}, f)


CRASHES = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)


def current(parts, out):
    """the case which the worker is (was) running: part, index, start"""
    try:
        with open(out + '.case') as f:
            k, i, start = f.read().split()
        return parts[int(k)], int(i), float(start)
    except (OSError, ValueError):
        return None


def run_parts(parts, tier, seed, workers, wall, setup=None):
    """fork workers over the cases of the parts; returns merged observations"""
    deadline = time.time() + wall
    out_dir = tempfile.mkdtemp(prefix='vf-run-')
    pids = {}
    try:
        for w in range(workers):
            out = os.path.join(out_dir, str(w))
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(devnull, 1)
                    if not os.environ.get('VF_DEBUG'):
                        os.dup2(devnull, 2)
                    _worker(parts, tier, seed, w, workers, deadline, out, setup)
                except BaseException:
                    code = 3
                finally:
                    os._exit(code)
            pids[pid] = (w, out)
        merged = {'events': {}, 'cases': 0, 'hashes': set(), 'samples': [], 'violations': [], 'errors': [],
                  'lines': {}, 'parts': {}}
        remaining = dict(pids)
        hard = deadline + 400
        while remaining:
            try:
                pid, status = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                break
            if pid == 0:
                if time.time() > hard:
                    for p in remaining:
                        _kill(p)
                    hung = [c for c in (current(parts, out) for _, out in remaining.values()) if c and time.time() - c[2] > c[0].timeout + PATIENCE + 50]
                    if hung:
                        part, index, _ = hung[0]
                        merged['violations'].append(describe(part, index, seed, Ctx(tier, seed), 'did not terminate (and could not be interrupted)', ''))
                    else:
                        merged['errors'].append('workers did not finish')
                    break
                time.sleep(0.01)
                continue
            if pid not in remaining:
                continue
            w, out = remaining.pop(pid)
            if not os.path.exists(out):
                crashed = current(parts, out)
                if crashed and os.WIFSIGNALED(status) and os.WTERMSIG(status) in CRASHES:
                    merged['violations'].append(describe(crashed[0], crashed[1], seed, Ctx(tier, seed),
                                                         'the process crashed with signal {}'.format(os.WTERMSIG(status)), ''))
                else:
                    merged['errors'].append('worker {} died with status {}'.format(w, status))
                continue
            with open(out, 'rb') as f:
                result = pickle.load(f)
            for k, v in result['events'].items():
                merged['events'][k] = merged['events'].get(k, 0) + v
            for k, v in result['parts'].items():
                merged['parts'][k] = merged['parts'].get(k, 0) + v
            merged['cases'] += result['cases']
            merged['hashes'] |= result['hashes']
            if w == 0 or not merged['samples']:
                merged['samples'] = result['samples'] + merged['samples']
            for name, found in result['lines'].items():
                merged['lines'].setdefault(name, set()).update(found)
            if result['violation']:
                if 'error' in result['violation']:
                    merged['errors'].append(result['violation']['error'])
                else:
                    merged['violations'].append(result['violation'])
                    # one is enough: let the others stop
                    for p in remaining:
                        _kill(p)
                    for p in remaining:
                        try:
                            os.waitpid(p, 0)
                        except ChildProcessError:
                            pass
                    remaining = {}
        return merged
    finally:
        for p in pids:
            _kill(p)
        shutil.rmtree(out_dir, ignore_errors=True)


def _kill(pid):
    for f in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
        try:
            f()
            return
        except (ProcessLookupError, PermissionError):
            pass


def write_json(path, value):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w', encoding='utf-8', errors='backslashreplace') as f:
        json.dump(value, f, indent=1, ensure_ascii=True)
        f.write('\n')
    os.replace(tmp, path)
