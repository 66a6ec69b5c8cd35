"""C29: a grid search trains every combination of the grid once, each differs from the base only in the named parameters; bad grids are refused."""
import copy
import itertools
import os

from vf import evalkit, gen, ref
from vf.core import Part

RULE = ('a case is a base configuration (nested, the documented one or random) and a grid over some of its parameters; the program is run and '
        'every training is recorded; non-trivial when the grid has at least two dimensions; the other families give grids with an unknown '
        'parameter, with two kinds of parameters in one dimension or with the same parameter in two dimensions')
ASSUMPTIONS = ['the evaluation part imports the neural part over the TensorFlow 1 interface of the installed TensorFlow 2',
               'the entries of one dimension name the same parameters in the same order; what happens to entries which agree in their first '
               'parameter only is left open']

VALUES = [0, 1, 0.5, -1, True, False, None, 'x', 'y', '', [], [1], [{'size': 3, 'count': 1}, {'size': 2}], 100, 'Adam']


def value(rng):
    return copy.deepcopy(rng.choice(VALUES))


def tree(rng, depth=0):
    result = {}
    for _ in range(rng.randint(1, 4)):
        key = rng.choice(['epochs', 'nn_config', 'general', 'optimizer', 'a', 'b', 'c', 'type', 'param1', 'config'])
        result[key] = tree(rng, depth + 1) if depth < 3 and rng.random() < 0.5 else value(rng)
    return result


def documented(rng):
    return {'epochs': rng.randint(1, 9), 'dropout': 0.5, 'batch_size': 8, 'tasks': ['pos', 'lemma'],
            'nn_config': {'general': {'optimizer': {'type': 'Adam', 'lr_decrease_factor': 2, 'initial_lr': 0.002, 'lr_decay': 0.0}},
                          'shared_part': {'builder': 'BiLSTM', 'config': {'lstm_cell_size': 200, 'cnn_kernels': [{'size': 3}]}},
                          'pos': {'config': {'loss_weights': {'default': 0.2, 'UPOS': 0.5}}}}}


def leaves(config, path=(), rng=None):
    for k, v in config.items():
        if isinstance(v, dict) and v:
            if rng is not None and rng.random() < 0.15:
                yield path + (k,)  # replaced as a whole
                continue
            yield from leaves(v, path + (k,), rng)
        elif not isinstance(v, dict):
            yield path + (k,)


def at(config, path):
    for k in path:
        config = config[k]
    return config


def entry(assignments):
    """{path: value} -> nested dictionary"""
    result = {}
    for path, v in assignments:
        d = result
        for k in path[:-1]:
            d = d.setdefault(k, {})
        d[path[-1]] = v
    return result


def applied(base, assignments):
    result = copy.deepcopy(base)
    for path, v in assignments:
        d = result
        for k in path[:-1]:
            d = d[k]
        d[path[-1]] = v
    return result


def run(ctx, base_params, grid, rates=None):
    """run the program; (recorded trainings, tested on the test set, output, error)"""
    rng = ctx.rng
    base = os.path.join(ctx.scratch, 'c29', str(ctx.index))
    gold = [[gen.sentence(rng, syntax=True, hostile=False, n=6)]]
    text = ref.conllu(gold[0])
    seeds = rng.choice([1, [1, 2]])
    settings = {'random_seed': seeds, 'model_dir': os.path.join(base, 'models'),
                'train_set': {'path': evalkit.save(os.path.join(base, 'train'), text)},
                'dev_set': {'path': evalkit.save(os.path.join(base, 'dev'), text)},
                'test_set': {'path': evalkit.save(os.path.join(base, 'test'), text)},
                'cmp_metric': {'fields': ['UPOS'], 'metric': 'f1'}, 'metric_printer': {'fields': ['UPOS', 'Lemmas']}}
    trained, finals, stage = [], [], {'dev': False}

    class Tagger(evalkit.Scripted):
        def tag(self, documents):
            if not stage['dev']:
                finals.append(self.key)
            return super().tag(documents)

    order = []

    def train(documents, dev_tester, name_format, kwargs):
        params = {k: v for k, v in kwargs.items() if k not in ('seed', 'model_dir')}
        trained.append((kwargs['seed'], copy.deepcopy(params), kwargs['model_dir']))
        place = os.path.dirname(os.path.normpath(kwargs['model_dir']))  # one place for the seeds of a combination
        if place not in order:
            order.append(place)
        k = order.index(place)
        wrong = rates[k] if rates else 0
        words, left = [], wrong
        for u in gold[0][0]:
            new = []
            for w in u.words:
                new.append(w._replace(upos='WRONG' if left > 0 else w.upos, head=None, deprel=None))
                left -= 1
            words.append(u._replace(words=new))
        tagger = Tagger([[words]], 'tagger')
        tagger.key = (k, kwargs['seed'])
        stage['dev'] = True
        scores = dev_tester(tagger)
        stage['dev'] = False
        # what a trainer does with its own parameters is its own business
        params.clear()
        yield scores, tagger

    with evalkit.trainer(train):
        out, error = evalkit.script('grid_eval.py', '--settings', evalkit.dump(os.path.join(base, 's.json'), settings), '--method', 'neural',
                                    '--hyperparams', evalkit.dump(os.path.join(base, 'h.json'), base_params),
                                    '--grid', evalkit.dump(os.path.join(base, 'g.json'), grid))
    return trained, finals, out, error, seeds


def pick(rng, base, n):
    paths = list(leaves(base, (), rng))
    rng.shuffle(paths)
    return paths[:n]


def combinations(ctx):
    rng = ctx.rng
    base = documented(rng) if rng.random() < 0.4 else tree(rng)
    dims = pick(rng, base, rng.choice([0, 1, 1, 2, 2, 3, 4]))
    grid, axes = {}, []
    k = 0
    while dims:
        joint = [dims.pop() for _ in range(min(len(dims), 2 if rng.random() < 0.15 else 1))]
        axis = [[(p, value(rng)) for p in joint] for _ in range(rng.choice([1, 2, 2, 3]))]
        if len(joint) == 1 and rng.random() < 0.15 and not isinstance(at(base, joint[0]), dict):
            axis = [[(joint[0], {'x': value(rng), 'y': value(rng)})] for _ in axis]  # a value becomes a group
        if len(joint) > 1 and list(entry(axis[0])) and rng.random() < 0.2:
            axis = axis[:1]
        axes.append(axis)
        grid[rng.choice(['param', 'x', 'k']) + str(k)] = [entry(a) for a in axis]
        k += 1
    ctx.case((base, grid), nontrivial=len(axes) > 1)
    expected = [applied(base, [a for part in combo for a in part]) for combo in itertools.product(*axes)]
    rates = [rng.randint(0, 6) for _ in expected]
    trained, finals, out, error, seeds = run(ctx, base, grid, rates)
    if error is not None:
        raise error
    ctx.event('grids')
    seed_list = seeds if isinstance(seeds, list) else [seeds]
    got = [params for s, params, _ in trained if s == seed_list[0]]
    for s in seed_list[1:]:
        ctx.equal([params for t, params, _ in trained if t == s], got, 'settings of seed {}'.format(s))
    ctx.event('combinations', len(got))
    ctx.equal(sorted(map(repr, map(canonical, got))), sorted(map(repr, map(canonical, expected))), 'trained settings')
    ctx.equal(len({d for _, _, d in trained}), len(trained), 'number of different model directories')
    # the best one wins
    ctx.equal(sorted(s for _, s in finals), sorted(seed_list), 'tested seeds')
    ctx.check(len({k for k, _ in finals}) == 1 and rates[finals[0][0]] == min(rates), 'tested combination {} of {}', finals, rates)
    chosen = [params for s, params, _ in trained if s == seed_list[0]][finals[0][0]]
    lines = [l for l in out.split('\n') if l.startswith('Hyperparams:')]
    ctx.equal(lines[-1], 'Hyperparams: {}'.format(chosen), 'printed hyperparameters')


def canonical(v):
    if isinstance(v, dict):
        return tuple(sorted((k, canonical(x)) for k, x in v.items()))
    if isinstance(v, list):
        return [canonical(x) for x in v]
    return type(v).__name__, v


def invalid(ctx):
    rng = ctx.rng
    base = documented(rng) if rng.random() < 0.4 else tree(rng)
    paths = pick(rng, base, 3)
    kind = ctx.index % 5
    grid = {}
    if kind == 0:
        # an unknown parameter: at some depth
        p = paths[0] if paths else ('a',)
        depth = rng.randint(0, len(p) - 1)
        bad = p[:depth] + ('unknown',)
        grid['p'] = [entry([(bad, value(rng))]) for _ in range(rng.randint(1, 2))]
        if len(paths) > 1 and rng.random() < 0.5:
            grid['q'] = [entry([(paths[1], value(rng))])]
    elif kind == 1:
        # two kinds of parameters in one dimension
        if len(paths) < 2:
            return
        grid['p'] = [entry([(paths[0], value(rng))]), entry([(paths[1], value(rng))])]
        if rng.random() < 0.5:
            grid['p'].append(entry([(paths[0], value(rng))]))
        rng.shuffle(grid['p'])
        if rng.random() < 0.4:
            grid['s'] = [entry([(rng.choice(paths[:2]), value(rng))])]  # as many kinds as dimensions
        if len(paths) > 2 and rng.random() < 0.5:
            grid = {'q': [entry([(paths[2], value(rng))])], **grid}
    elif kind == 3:
        # the same parameter in two dimensions, once or twice as a further parameter of an entry
        if len(paths) < 2:
            return
        more = [[paths[0], paths[1]], [paths[1], paths[0]], [paths[1]]]
        first = more[rng.randrange(2)]
        second = rng.choice(more + ([[paths[2], paths[1]], [paths[2], paths[1]]] if len(paths) > 2 else []))
        if entry([(p, 0) for p in first]) == entry([(p, 0) for p in second]):
            second = [paths[1]]
        if first[0] == second[0]:
            first = first[::-1]
        for name, joint in zip(rng.sample('pqrs', 2), (first, second)):
            grid[name] = [entry([(p, value(rng)) for p in joint]) for _ in range(rng.randint(1, 2))]
    elif kind == 4:
        # a group of parameters as a whole and one of its parameters
        deep = [p for p in leaves(base) if len(p) > 1]
        if not deep:
            return
        p = rng.choice(deep)
        dims = [[entry([(p[:rng.randint(1, len(p) - 1)], value(rng))])], [entry([(p, value(rng))]) for _ in range(rng.randint(1, 2))]]
        rng.shuffle(dims)
        others = [q for q in paths if q[0] != p[0]]
        if others and rng.random() < 0.4:
            dims.insert(rng.randint(0, 2), [entry([(others[0], value(rng))])])
        grid = {'d{}'.format(k): d for k, d in enumerate(dims)}
    else:
        # the same parameter in two dimensions
        if not paths:
            return
        grid['p'] = [entry([(paths[0], value(rng))]) for _ in range(rng.randint(1, 2))]
        if len(paths) > 1 and rng.random() < 0.5:
            grid['q'] = [entry([(paths[1], value(rng))])]
        grid['r'] = [entry([(paths[0], value(rng))]) for _ in range(rng.randint(1, 2))]
    ctx.case((kind, base, grid))
    trained, finals, out, error, _ = run(ctx, base, grid)
    ctx.event('bad grids')
    ctx.check(error is not None, 'a bad grid {} is accepted', grid)
    ctx.equal(len(trained), 0, 'number of trainings with a bad grid')
    models = os.path.join(ctx.scratch, 'c29', str(ctx.index))
    ctx.check(os.path.exists(os.path.join(models, 'train')), 'files are lost')


def setup(ctx):
    pass


setup.big = True


def parts(tier):
    return [Part('combinations', combinations, 700, 8000, required=['grids', 'combinations']),
            Part('invalid', invalid, 500, 5000, required=['bad grids'])]
