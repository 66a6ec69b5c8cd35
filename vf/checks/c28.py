"""C28: results over several seeds are the means of the results of the seeds, each with its own best model."""
import os
from collections import Counter

from vf import evalkit, gen, ref
from vf.core import Part
from vf.checks import c27
from babylondigger.evaluation import evaluation

RULE = ('a case is a set of per-seed score histories; the averages reported by the real code are compared with the means; the program is also '
        'run on files with scripted models for every seed; non-trivial when there are at least two seeds')
ASSUMPTIONS = ['the evaluation part imports the neural part over the TensorFlow 1 interface of the installed TensorFlow 2']

FIELDS = ['precision', 'recall', 'f1', 'aligned_accuracy']


def random_score(rng, aligned):
    v = [rng.choice([0.0, 1.0, rng.random(), rng.random()]) for _ in range(4)]
    return c27.Score(v[0], v[1], v[2], v[3] if aligned else None)


def mean(values):
    return None if values[0] is None else sum(values) / len(values)


def check_mean(ctx, got, all_scores, metrics, what):
    for m in metrics:
        ctx.check(m in got, '{}: no average of {}', what, m)
        for f in FIELDS:
            want = mean([getattr(s[m], f) for s in all_scores])
            value = getattr(got[m], f)
            ctx.event('averages')
            ctx.check((value is None) == (want is None) and (want is None or abs(value - want) < 1e-9),
                      '{}: average {} of {} is {}, expected {}', what, f, m, value, want)


def averager(ctx):
    rng = ctx.rng
    metrics = rng.sample(evalkit.FIELDS, rng.randint(1, 6))
    aligned = {m: m not in ('Tokens', 'Sentences', 'Words') for m in evalkit.FIELDS}
    scores = [{m: random_score(rng, aligned[m]) for m in evalkit.FIELDS} for _ in range(rng.choice([1, 2, 3, 5, 10]))]
    ctx.case((metrics, scores), nontrivial=len(scores) > 1)
    average = evaluation.get_metrics_averager(metrics)
    got = average(scores)
    check_mean(ctx, got, scores, metrics, 'averager')
    check_mean(ctx, average(scores[::-1]), scores, metrics, 'averager, other order')
    check_mean(ctx, average([got] * 3), scores, metrics, 'average of equal averages')
    check_mean(ctx, average(scores[:1]), scores[:1], metrics, 'single seed')
    check_mean(ctx, average(scores), scores, metrics, 'averager, used again')


def evaluators(ctx):
    """average over scripted evaluators"""
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4, 5, 6, 9, 12, 20])
    metrics = rng.sample(c27.METRICS, rng.randint(1, 4))
    dev = [{m: random_score(rng, True) for m in c27.METRICS} for _ in range(n)]
    test = [{m: random_score(rng, True) for m in c27.METRICS} for _ in range(n)]
    ctx.case((metrics, dev, test), nontrivial=n > 1)
    calls, tests, printed = [], [], []

    class Evaluator(evaluation.Evaluator):
        def __init__(self, k):
            self.k = k

        def evaluate(self, trainer, params, model_path=''):
            calls.append((self.k, trainer, params, model_path))

            def run(tester, name):
                tests.append((self.k, tester, name))
                return test[self.k]
            return run, dev[self.k]

    trainer, params, tester = object(), {'a': 1}, object()
    average = evaluation.AverageEvaluator([Evaluator(k) for k in range(n)], evaluation.get_metrics_averager(metrics), printed.append)
    function, scores = average.evaluate(trainer, params, 'params-3')
    check_mean(ctx, scores, dev, metrics, 'development scores')
    ctx.equal(sorted(c[0] for c in calls), list(range(n)), 'evaluated seeds')
    ctx.check(all(c[1] is trainer and c[2] == params and c[3] == 'params-3' for c in calls), 'arguments of the seeds: {}', calls)
    for repeat in range(2):
        del tests[:]
        check_mean(ctx, function(tester, 'best.conll'), test, metrics, 'test scores')
        ctx.equal(sorted(t[0] for t in tests), list(range(n)), 'tested seeds')
        ctx.check(all(t[1] is tester and os.path.basename(t[2]) == 'best.conll' for t in tests), 'arguments of the tests: {}', tests)
    ctx.check(any(all(abs(getattr(p[m], f) - getattr(scores[m], f)) < 1e-9 for m in metrics for f in FIELDS)
                  for p in printed), 'averages are not shown')
    ctx.event('evaluations')


def some_seeds(rng, n):
    values = rng.sample(range(100), n)
    if n > 1 and rng.random() < 0.3:  # seeds that are alike
        values[1] = rng.choice([-values[0] or -1, values[0] + 100, values[0] * 10 + 1, values[0] + 2 ** 31])
    return values


def seeds(ctx):
    """average over the real evaluators of seeds: each gives its best epoch"""
    rng = ctx.rng
    fields, attribute = c27.choose(rng)
    n = rng.choice([1, 2, 3, 4, 4, 12])
    seed_values = some_seeds(rng, n)
    histories = {s: c27.history(rng, rng.randint(1, 5)) for s in seed_values}
    ctx.case((fields, attribute, histories), nontrivial=n > 1)
    disposed, dirs, files = [], {}, []

    class Trainer(object):
        def train(self, documents, dev_tester=None, model_name_format='epoch-{}', **kwargs):
            seed = kwargs['seed']
            dirs.setdefault(kwargs['model_dir'], []).append(seed)
            for k, s in enumerate(histories[seed]):
                dev_tester((seed, k))
                yield s, (seed, k)

    class Tester(object):
        def test(self, tagger, name):
            files.append((tagger, name))
            return histories[tagger[0]][tagger[1]]

    better = evaluation.score_comparator(fields, lambda s: getattr(s, attribute))
    dev = Tester()
    average = evaluation.AverageEvaluator(
        [evaluation.SingleSeedEvaluator('/nowhere', s, better, [], dev, lambda x: None, disposed.append) for s in seed_values],
        evaluation.get_metrics_averager(c27.METRICS), lambda x: None)
    function, scores = average.evaluate(Trainer(), {}, 'params-0')
    best = [(s, c27.best_index(histories[s], fields, attribute)) for s in seed_values]
    check_mean(ctx, scores, [histories[s][k] for s, k in best], c27.METRICS, 'development scores')
    ctx.equal(sorted(len(v) for v in dirs.values()), [1] * n, 'trainings per model directory')
    ctx.equal(len({f for _, f in files}), sum(len(h) for h in histories.values()), 'different files of development results')
    tested = []

    class Test(object):
        def test(self, tagger, name):
            tested.append((tagger, name))
            return {m: c27.Score(*[(tagger[0] % 97 * 7 + tagger[1] + j) / 1000 for j in range(4)]) for m in c27.METRICS}
    tester = Test()
    got = function(tester, 'best.conll')
    ctx.equal(sorted(t for t, _ in tested), sorted(best), 'tested models')
    ctx.equal(len({name for _, name in tested}), n, 'different files of test results')
    del tested[:]
    check_mean(ctx, got, [tester.test(b, '') for b in best], c27.METRICS, 'test scores')
    ctx.equal(len(disposed), sum(len(h) - 1 for h in histories.values()), 'number of discarded models')
    ctx.event('evaluations')


def script(ctx):
    rng = ctx.rng
    base = os.path.join(ctx.scratch, 'c28', str(ctx.index))
    gold, test_gold = evalkit.gold_docs(rng, 2, hostile=False), evalkit.gold_docs(rng, 2, hostile=False)
    seed_values = some_seeds(rng, rng.randint(1, 3))
    count = rng.randint(1, 2)
    rates = [0, 0.1, 0.2, 0.5, 1]
    systems = {(p, s): (evalkit.mistakes(rng, gold, rng.choice(rates)), evalkit.mistakes(rng, test_gold, rng.choice(rates)))
               for p in range(count) for s in seed_values}
    fields = rng.sample(['UPOS', 'XPOS', 'Feats', 'Lemmas', 'AllTags'], rng.randint(1, 5))
    shown = rng.sample(['UPOS', 'XPOS', 'Feats', 'Lemmas', 'Words', 'Tokens'], rng.randint(1, 4))
    attribute = rng.choice(['f1', 'precision', 'recall'])
    ctx.case((gold, test_gold, systems, fields), nontrivial=len(seed_values) > 1)
    results = rng.random() < 0.5
    settings = {'random_seed': seed_values, 'model_dir': os.path.join(base, 'models'),
                'train_set': {'path': evalkit.save(os.path.join(base, 'train'), ref.conllu([s for d in gold for s in d]))},
                'dev_set': {'path': evalkit.save(os.path.join(base, 'dev'), ref.conllu([s for d in gold for s in d]))},
                'test_set': {'path': evalkit.save(os.path.join(base, 'test'), ref.conllu([s for d in test_gold for s in d]))},
                'cmp_metric': {'fields': fields, 'metric': attribute}, 'metric_printer': {'fields': shown}}
    if results:
        settings['test_set']['results_path'] = os.path.join(base, 'answers')
    stage, tested = {'dev': False}, []

    class Tagger(evalkit.Scripted):
        def tag(self, documents):
            tested.append((self.key, not stage['dev']))
            self.words = [gen.words(s) for d in systems[self.key][0 if stage['dev'] else 1] for s in d]
            return super().tag(documents)

    def train(documents, dev_tester, name_format, kwargs):
        tagger = Tagger([], 'tagger')
        tagger.key = (kwargs['p'], kwargs['seed'])
        stage['dev'] = True
        scores = dev_tester(tagger)
        stage['dev'] = False
        yield scores, tagger

    with evalkit.trainer(train):
        out, error = evalkit.script('evaluation.py', '--settings', evalkit.dump(os.path.join(base, 's.json'), settings), '--method', 'neural',
                                    '--hyperparams', evalkit.dump(os.path.join(base, 'h.json'), [{'p': p} for p in range(count)]))
    if error is not None:
        raise error
    ctx.event('programs run')
    ctx.equal(Counter(k for k, t in tested if not t), Counter({k: 1 for k in systems}), 'tests on the development set')

    def average(which, source, p):
        found = [evalkit.expected_scores(source, systems[(p, s)][which]) for s in seed_values]
        return {m: tuple(mean([f[m][j] for f in found]) for j in range(4)) for m in evalkit.FIELDS}
    index = {'precision': 0, 'recall': 1, 'f1': 2}[attribute]
    dev = {p: average(0, gold, p) for p in range(count)}
    sums = {p: sum(dev[p][f][index] for f in fields) for p in dev}
    finals = [k for k, t in tested if t]
    chosen = finals[0][0]
    ctx.equal(sorted(finals), sorted((chosen, s) for s in seed_values), 'tested models')
    ctx.check(sums[chosen] > max(sums.values()) - 1e-9, 'tested settings {} are not the best by {}', chosen, sums)
    tables = evalkit.tables(out)
    ctx.check(evalkit.same_table(tables[-1], average(1, test_gold, chosen), shown), 'printed test scores {}', tables[-1])
    ctx.check(evalkit.same_table(tables[-2], dev[chosen], shown), 'printed development scores {}', tables[-2])
    if results:
        saved = [os.path.join(r, f) for r, _, fs in os.walk(os.path.join(base, 'answers')) for f in fs]
        ctx.equal(len(saved), len(seed_values), 'number of saved test results')


def setup(ctx):
    pass


setup.big = True


def parts(tier):
    return [Part('averager', averager, 1500, 15000, required=['averages']),
            Part('evaluators', evaluators, 1500, 15000, required=['evaluations']),
            Part('seeds', seeds, 1500, 15000),
            Part('script', script, 400, 4000, required=['programs run'])]
