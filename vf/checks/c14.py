"""C14: shuffling loses, repeats and invents nothing, is bounded by its window and is reproducible from its seed."""
import os
import time

from vf.checks import c18  # noqa: F401 (stand-in for downloaded BPE models, before anything that imports them)
from vf import evalkit, gen, ref
from vf.core import Part
from babylondigger.evaluation.dataset import ShuffledDataset
from vf import mine

RULE = ('a case is a dataset size, window, seed and a schedule of complete, abandoned and interleaved traversals; every traversal is '
        'compared with the source and with the traversal of the same number of a twin with the same seed; non-trivial when there are '
        'at least three elements')


class Source(object):
    """a re-iterable dataset which counts its traversals"""

    def __init__(self, n, unhashable):
        self.items = [[i] if unhashable else i for i in range(n)]
        self.traversals = 0

    def __iter__(self):
        self.traversals += 1
        return iter(self.items)


def ident(items):
    return [x[0] if isinstance(x, list) else x for x in items]


def size(rng):
    r = rng.random()
    if r < 0.1:
        return rng.choice([0, 1, 2])
    if r < 0.6:
        return rng.randint(3, 60)
    if r < 0.8:
        return rng.choice(mine.ints(400))
    return rng.randint(60, 400)


def seeds(rng):
    return rng.choice([0, 1, 42, 12345, rng.randrange(1 << 30), -5])


def window(rng, n):
    return rng.choice([1, 2, 3, 4, 5, 10, 50, 50, n or 1, (n or 1) + 1, rng.randint(1, 100)])


def schedule(ctx):
    rng = ctx.rng
    n, seed, kwargs = size(rng), seeds(rng), {}
    w = window(rng, n)
    kwargs['max_batch_size'] = w
    if rng.random() < 0.2:
        kwargs, w = {}, 50
    source = Source(n, rng.random() < 0.3)
    data = ShuffledDataset(source if rng.random() < 0.7 else source.items, seed, **kwargs)
    twin = ShuffledDataset(list(source.items), seed, **kwargs)
    log = []
    orders, running = [], []

    def check_complete(k, got):
        ctx.event('traversals')
        got = ident(got)
        ctx.equal(sorted(got), list(range(n)), 'traversal {} of {} elements'.format(k, n))
        for place, x in enumerate(got):
            ctx.check(abs(place - x) < w, 'element {} moved to {} with window {}', x, place, w)
        orders.append((k, got))

    started = 0
    for _ in range(rng.randint(2, 8)):
        action = rng.choice(['full', 'full', 'start', 'advance', 'abandon'])
        if action == 'full':
            check_complete(started, list(data))
            started += 1
        elif action == 'start':
            it = iter(data)
            running.append([started, it, [x for _, x in zip(range(1), it)]])
            started += 1
        elif action == 'advance' and running:
            r = rng.choice(running)
            r[2].extend(x for _, x in zip(range(rng.randint(1, 10)), r[1]))
        elif action == 'abandon' and running:
            running.pop(rng.randrange(len(running)))
        log.append(action)
    rng.shuffle(running)
    for k, it, got in running:
        check_complete(k, got + list(it))
    ctx.case((n, seed, w, log), nontrivial=n > 2)
    ctx.equal(ident(source.items), list(range(n)), 'the source after shuffling')
    expected = [ident(twin) for _ in range(started)]
    for k, got in orders:
        ctx.event('reproduced')
        ctx.equal(got, expected[k], 'traversal {} with seed {}'.format(k, seed))
    ctx.check(w > 1 or all(got == list(range(n)) for _, got in orders), 'window 1 changed the order')


def epochs(ctx):
    """epochs and seeds are different from each other; the order is really shuffled"""
    rng = ctx.rng
    n = rng.randint(30, 120)
    w = rng.choice([20, 30, 50, 200])
    base = rng.randrange(1 << 20)
    ctx.case((n, w, base))
    data = ShuffledDataset(list(range(n)), base, w)
    seen = [tuple(data) for _ in range(4)]
    ctx.check(len(set(seen)) > 2, 'epochs repeat the same order')
    ctx.check(all(s != tuple(range(n)) for s in seen), 'the order is not shuffled')
    first = {tuple(ShuffledDataset(list(range(n)), s, w)) for s in range(base, base + 5)}
    ctx.check(len(first) > 3, 'different seeds give the same order')
    for s in seen:
        moved = sum(1 for i, x in enumerate(s) if i != x)
        ctx.check(moved > n // 3, 'only {} of {} elements are moved', moved, n)
    # no seed: any permutation within the window
    free = list(ShuffledDataset(list(range(n)), max_batch_size=w))
    ctx.equal(sorted(free), list(range(n)), 'traversal without seed')
    ctx.check(all(abs(i - x) < w for i, x in enumerate(free)), 'window without seed')


class Clock(object):
    """time passes quickly: every look at the clock is hours later"""

    NAMES = ['time', 'time_ns', 'monotonic', 'monotonic_ns', 'perf_counter', 'perf_counter_ns']

    def __init__(self):
        self.now = 1600000000

    def look(self):
        self.now += 5000
        return self.now

    def __enter__(self):
        self.real = {name: getattr(time, name) for name in self.NAMES}
        for name in self.NAMES:
            setattr(time, name, self.look)
        return self

    def __exit__(self, *args):
        for name, f in self.real.items():
            setattr(time, name, f)


def global_state(ctx):
    """neither the clock, nor the global random state, nor other datasets influence a seeded one"""
    with Clock():
        _global_state(ctx)


def _global_state(ctx):
    import random
    rng = ctx.rng
    n, w, seed = rng.randint(10, 80), rng.choice([5, 20, 50]), seeds(rng)
    ctx.case((n, w, seed))
    random.seed(1)
    a = ShuffledDataset(list(range(n)), seed, w)
    first = list(a)
    random.seed(rng.random())
    b = ShuffledDataset(list(range(n)), seed, w)
    other = ShuffledDataset(list(range(n)), seed + 1, w)
    for _ in range(3):
        list(other)
        random.random()
    ctx.equal(list(b), first, 'order with the same seed')
    state = random.getstate()
    list(b)
    ctx.check(random.getstate() == state, 'the global random state is used')


def experiment(ctx):
    """the training set of an experiment is shuffled exactly when the settings say so, and as they say"""
    rng = ctx.rng
    base = os.path.join(ctx.scratch, 'c14', str(ctx.index))
    sentences = [s for d in (gen.document(rng, sentences=1, big=4, syntax=True) for _ in range(rng.randint(5, 40))) for s in d]
    # every sentence with a number of its own
    sentences = [[u._replace(words=[w._replace(lemma='n{}'.format(i)) for w in u.words]) for u in s] for i, s in enumerate(sentences)]
    train = evalkit.save(os.path.join(base, 'train.conllu'), ref.conllu(sentences))
    dev = evalkit.save(os.path.join(base, 'dev.conllu'), ref.conllu(sentences[:2]))
    shuffler = [None, {}, {'seed': seeds(rng)}, {'max_batch_size': window(rng, len(sentences))},
                {'seed': seeds(rng), 'max_batch_size': window(rng, len(sentences))}][ctx.index % 5]
    settings = {'random_seed': rng.choice([3, [5], [1, 2]]), 'model_dir': os.path.join(base, 'models'), 'train_set': {'path': train}, 'dev_set': {'path': dev},
                'cmp_metric': {'fields': ['UPOS'], 'metric': 'f1'}, 'metric_printer': {'fields': ['UPOS']}}
    if shuffler is not None:
        settings['train_set']['shuffler'] = shuffler
    count = rng.choice([1, 1, 2])
    orders = []

    def train_function(documents, dev_tester, model_name_format, params):
        for epoch in range(params['epochs']):
            orders.append([int(next(iter(d.tokens)).lemma[1:]) for d in documents])
            tagger = evalkit.Scripted([[s] for s in sentences[:2]])
            yield dev_tester(tagger), tagger

    hyper = [{'epochs': rng.randint(1, 3)} for _ in range(count)]
    ctx.case((settings, hyper, len(sentences)))
    with evalkit.trainer(train_function):
        _, error = evalkit.script('evaluation.py', '--settings', evalkit.dump(os.path.join(base, 's.json'), settings), '--method', 'neural',
                                  '--hyperparams', evalkit.dump(os.path.join(base, 'h.json'), hyper if count > 1 or rng.random() < 0.5 else hyper[0]))
    if error is not None:
        raise error
    n, one = len(sentences), settings['random_seed'] != [1, 2]
    ctx.equal(len(orders), sum(h['epochs'] for h in hyper) * (1 if one else 2), 'number of traversals of the training set')
    if shuffler is None:
        for order in orders:
            ctx.equal(order, list(range(n)), 'training set without a shuffler')
        ctx.event('experiments without a shuffler')
        return
    for order in orders:
        ctx.equal(sorted(order), list(range(n)), 'shuffled training set')
        w = shuffler.get('max_batch_size', 50)
        ctx.check(all(abs(place - x) < w for place, x in enumerate(order)), 'window {} in an experiment: {}', w, order)
        # all orders of so many sentences are equally likely
        if w >= 20 and n >= 20:
            ctx.check(order != list(range(n)), 'the training set is not shuffled')
    if 'seed' in shuffler and one and count == 1:
        twin = ShuffledDataset(list(range(n)), **shuffler)
        ctx.equal(orders, [list(twin) for _ in orders], 'orders of the training set with the seed {}'.format(shuffler['seed']))
        ctx.event('reproduced experiments')
    ctx.event('experiments with a shuffler')


def parts(tier):
    return [Part('schedule', schedule, 2500, 30000, required=['traversals', 'reproduced']),
            Part('epochs', epochs, 400, 4000),
            Part('global_state', global_state, 200, 2000),
            Part('experiment', experiment, 150, 1500, required=['experiments without a shuffler', 'experiments with a shuffler', 'reproduced experiments'])]


def setup(ctx):
    pass


setup.big = True  # the evaluation program imports TensorFlow
