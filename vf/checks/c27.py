"""C27: the model kept, reported and tested is the best one by the sum of the chosen scores; every other one is discarded once."""
import os
from collections import Counter, namedtuple

from vf import evalkit, gen, ref
from vf.core import Part
from babylondigger.evaluation import evaluation

RULE = ('a case is a history of scores of epochs and hyperparameter settings (with ties, zeros, late and early maxima, scores moving in '
        'opposite directions), given by a scripted trainer to the real selection code; non-trivial when there are at least two candidates')
ASSUMPTIONS = ['the evaluation part imports the neural part over the TensorFlow 1 interface of the installed TensorFlow 2']

Score = namedtuple('Score', 'precision recall f1 aligned_accuracy')
METRICS = ['UPOS', 'XPOS', 'Feats', 'Lemmas', 'AllTags']


def score(rng, style):
    v = [rng.randrange(0, 9) / 8 if style else rng.choice([0.5, 0.75, 0.75]) for _ in range(3)]
    return Score(v[0], v[1], v[2], v[2])


def history(rng, n):
    style = rng.random() < 0.6
    first = {m: score(rng, style) for m in METRICS}
    result = []
    for _ in range(n):
        r = rng.random()
        s = dict(result[-1] if result and r < 0.25 else first if r < 0.35 else {m: score(rng, style) for m in METRICS})
        if r < 0.15:  # one goes up, another goes down
            a, b = rng.sample(METRICS, 2)
            s[a], s[b] = s[b], s[a]
        if r > 0.95:
            s = {m: Score(0.0, 0.0, 0.0, 0.0) for m in METRICS}
        result.append(s)
    if rng.random() < 0.2:  # differences far below a percent
        k = rng.choice([2.0 ** -12, 2.0 ** -20, 2.0 ** -30])
        result = [{m: Score(*(0.5 + k * v for v in x)) for m, x in s.items()} for s in result]
    return result


def total(scores, fields, attribute):
    return sum(getattr(scores[f], attribute) for f in fields)


def best_index(scores, fields, attribute):
    sums = [total(s, fields, attribute) for s in scores]
    return sums.index(max(sums))


def choose(rng):
    return rng.sample(METRICS, rng.randint(1, len(METRICS))), rng.choice(['precision', 'recall', 'f1', 'aligned_accuracy'])


def comparator(ctx):
    rng = ctx.rng
    fields, attribute = choose(rng)
    a, b = history(rng, 2)
    ctx.case((fields, attribute, a, b))
    better = evaluation.score_comparator(fields, lambda s: getattr(s, attribute))
    ta, tb = total(a, fields, attribute), total(b, fields, attribute)
    ctx.event('ties' if ta == tb else 'comparisons')
    ctx.equal(bool(better(a, b)), ta > tb, 'is better')
    ctx.equal(bool(better(b, a)), tb > ta, 'is better')
    ctx.check(not better(a, a), 'is better than itself')


class Trainer(object):
    """a trainer with a scripted history"""

    def __init__(self, scores, calls, as_list=False):
        self.scores, self.calls, self.as_list = scores, calls, as_list

    def train(self, documents, dev_tester=None, model_name_format='epoch-{}', **kwargs):
        call = {'documents': documents, 'kwargs': kwargs, 'paths': [], 'dev': []}
        self.calls.append(call)

        def epochs():
            for k, s in enumerate(self.scores):
                call['paths'].append(os.path.join(kwargs['model_dir'], model_name_format.format(k)))
                tagger = 'tagger-{}-{}'.format(len(self.calls) - 1, k)
                ctxs = dev_tester(tagger)
                call['dev'].append(ctxs)
                yield s, tagger
        return list(epochs()) if self.as_list else epochs()


class Tester(object):
    def __init__(self, answer=None):
        self.calls = []
        self.answer = answer

    def test(self, tagger, file_name):
        self.calls.append((tagger, file_name))
        return self.answer(tagger) if self.answer else {}


def single(ctx):
    rng = ctx.rng
    fields, attribute = choose(rng)
    scores = history(rng, rng.choice([1, 2, 3, 5, 8, 12]))
    ctx.case((fields, attribute, scores), nontrivial=len(scores) > 1)
    calls, disposed, printed = [], [], []
    trainer = Trainer(scores, calls)
    dev = Tester()
    seed = rng.randrange(1000)
    base = '/nowhere/base'
    params = {'epochs': len(scores), 'x': {'y': [1]}}
    data = object()
    evaluator = evaluation.SingleSeedEvaluator(base, seed, evaluation.score_comparator(fields, lambda s: getattr(s, attribute)),
                                               data, dev, printed.append, disposed.append)
    model_path = rng.choice(['', 'params-0', 'params-12'])
    args = (model_path,) if model_path or rng.random() < 0.5 else ()
    function, best = evaluator.evaluate(trainer, params, *args)
    k = best_index(scores, fields, attribute)
    ctx.event('histories')
    ctx.equal(best, scores[k], 'scores of the best epoch')
    ctx.equal(len(calls), 1, 'number of trainings')
    ctx.check(calls[0]['documents'] is data, 'training data')
    ctx.equal(calls[0]['kwargs'].get('seed'), seed, 'seed')
    ctx.equal({n: v for n, v in calls[0]['kwargs'].items() if n not in ('seed', 'model_dir')}, params, 'hyperparameters')
    ctx.equal([c[0] for c in dev.calls], ['tagger-0-{}'.format(i) for i in range(len(scores))], 'taggers tested on the development set')
    ctx.equal(len({c[1] for c in dev.calls}), len(scores), 'number of different files for development results')
    test = Tester(lambda t: ('scores of', t))
    for name in ('best-test.conll', 'again.conll'):
        ctx.equal(function(test, name), ('scores of', 'tagger-0-{}'.format(k)), 'tested model')
    ctx.equal([os.path.basename(c[1]) for c in test.calls], ['best-test.conll', 'again.conll'], 'names of the test results')
    # the discarded ones: everything but the best, each once
    ctx.event('discarded', len(disposed))
    places = [os.path.normpath(os.path.join(base, p)) for p in disposed]
    ctx.equal(sorted(places), sorted(os.path.normpath(p) for i, p in enumerate(calls[0]['paths']) if i != k), 'discarded models')


def search(ctx):
    rng = ctx.rng
    fields, attribute = choose(rng)
    scores = history(rng, rng.choice([1, 2, 3, 5, 8, 12, 25]))
    ctx.case((fields, attribute, scores), nontrivial=len(scores) > 1)
    seen, disposed = [], []

    class Evaluator(evaluation.Evaluator):
        def evaluate(self, trainer, params, model_path=''):
            seen.append((trainer, params, model_path))
            k = len(seen) - 1
            return (lambda tester, name: ('tested', k)), scores[k]

    settings = [{'k': rng.randrange(3)} for _ in scores]
    trainer = object()
    estimator = evaluation.ParametersEstimator(Evaluator(), evaluation.score_comparator(fields, lambda s: getattr(s, attribute)), disposed.append)
    best = estimator.params_search(trainer, iter(settings))
    k = best_index(scores, fields, attribute)
    ctx.event('histories')
    ctx.equal([s[1] for s in seen], settings, 'evaluated settings')
    ctx.check(all(s[0] is trainer for s in seen), 'trainer')
    paths = [s[2] for s in seen]
    ctx.equal(len(set(paths)), len(paths), 'number of different model directories')
    params, model, best_scores, path = best
    ctx.check(params is settings[k] or params == settings[k], 'best settings: {} instead of {}', params, settings[k])
    ctx.equal(best_scores, scores[k], 'best scores')
    ctx.equal(model(None, 'x'), ('tested', k), 'best model')
    ctx.equal(path, paths[k], 'path of the best model')
    ctx.event('discarded', len(disposed))
    ctx.equal(sorted(disposed), sorted(p for i, p in enumerate(paths) if i != k), 'discarded models')


def script(ctx):
    """the whole program: scripted models, real tests on files, printed results"""
    rng = ctx.rng
    base = os.path.join(ctx.scratch, 'c27', str(ctx.index))
    gold = evalkit.gold_docs(rng, 2, hostile=False)
    test_gold = evalkit.gold_docs(rng, 2, hostile=False)
    count, epochs = rng.randint(1, 3), rng.randint(1, 3)
    seed = rng.randrange(100)
    rates = [0, 0.1, 0.2, 0.5, 1]
    systems = {(p, e): (evalkit.mistakes(rng, gold, rng.choice(rates)), evalkit.mistakes(rng, test_gold, rng.choice(rates)))
               for p in range(count) for e in range(epochs)}
    fields = rng.sample(['UPOS', 'XPOS', 'Feats', 'Lemmas', 'AllTags'], rng.randint(1, 5))
    shown = rng.sample(['UPOS', 'XPOS', 'Feats', 'Lemmas', 'Words', 'Tokens'], rng.randint(1, 4))
    attribute = rng.choice(['f1', 'precision', 'recall', 'aligned_accuracy'])
    ctx.case((gold, test_gold, systems, fields, attribute), nontrivial=count * epochs > 1)
    settings = {'random_seed': seed, 'model_dir': os.path.join(base, 'models'),
                'train_set': {'path': evalkit.save(os.path.join(base, 'train'), ref.conllu([s for d in gold for s in d]))},
                'dev_set': {'path': evalkit.save(os.path.join(base, 'dev'), ref.conllu([s for d in gold for s in d]))},
                'cmp_metric': {'fields': fields, 'metric': attribute}, 'metric_printer': {'fields': shown}}
    with_test = rng.random() < 0.8
    if with_test:
        settings['test_set'] = {'path': evalkit.save(os.path.join(base, 'test'), ref.conllu([s for d in test_gold for s in d]))}
    hyper = [{'p': p, 'epochs': epochs} for p in range(count)]
    tested = []

    class Tagger(evalkit.Scripted):
        def tag(self, documents):
            documents = list(documents)
            words = [[t.text for t in s] for d in documents for s in d.sentences]
            on_test = self.stage['dev'] is False
            tested.append((self.key, on_test))
            self.words = [gen.words(s) for d in systems[self.key][1 if on_test else 0] for s in d]
            if len(words) != len(self.words):
                raise RuntimeError('a wrong set is shown')
            return super().tag(documents)

    stage = {'dev': False}

    def train(documents, dev_tester, name_format, kwargs):
        for e in range(kwargs['epochs']):
            tagger = Tagger([], 'tagger')
            tagger.key, tagger.stage = (kwargs['p'], e), stage
            stage['dev'] = True
            scores = dev_tester(tagger)
            stage['dev'] = False
            yield scores, tagger

    with evalkit.trainer(train):
        out, error = evalkit.script('evaluation.py', '--settings', evalkit.dump(os.path.join(base, 's.json'), settings), '--method', 'neural',
                                    '--hyperparams', evalkit.dump(os.path.join(base, 'h.json'), hyper if count > 1 or rng.random() < 0.5 else hyper[0]))
    if error is not None:
        raise error
    ctx.event('programs run')
    index = {'precision': 0, 'recall': 1, 'f1': 2, 'aligned_accuracy': 3}[attribute]
    dev = {k: evalkit.expected_scores(gold, v[0]) for k, v in systems.items()}
    sums = {k: sum(v[f][index] for f in fields) for k, v in dev.items()}
    ctx.equal(Counter(k for k, t in tested if not t), Counter({k: 1 for k in systems}), 'tests on the development set')
    tables = evalkit.tables(out)
    top = max(sums.values())
    candidates = [k for k in systems if sums[k] > top - 1e-9]
    if with_test:
        finals = [k for k, t in tested if t]
        ctx.equal(len(finals), 1, 'number of tests on the test set')
        ctx.check(finals[0] in candidates, 'tested model {} is not one of the best {}: {}', finals[0], candidates, sums)
        ctx.check(evalkit.same_table(tables[-1], evalkit.expected_scores(test_gold, systems[finals[0]][1]), shown),
                  'printed test scores {}', tables[-1])
        ctx.check(evalkit.same_table(tables[-2], dev[finals[0]], shown), 'printed development scores {} of {}', tables[-2], finals[0])
        chosen = [finals[0][0]]
    else:
        ctx.check(any(evalkit.same_table(tables[-1], dev[k], shown) for k in candidates), 'printed development scores {}', tables[-1])
        chosen = sorted({k[0] for k in candidates})
    lines = [l for l in out.split('\n') if l.startswith('Hyperparams:')]
    ctx.check(any(lines[-1] == 'Hyperparams: {}'.format(hyper[p]) for p in chosen), 'printed hyperparameters {}', lines[-1])


def stub(ctx):
    """the whole program with the method `stub`: the most frequent tag of the training set for all words"""
    rng = ctx.rng
    base = os.path.join(ctx.scratch, 'c27s', str(ctx.index))
    train, dev, test = [evalkit.gold_docs(rng, 2, hostile=False) for _ in range(3)]
    shown = rng.sample(['UPOS', 'XPOS', 'Feats', 'Lemmas', 'Words', 'Tokens'], rng.randint(1, 4))
    ctx.case((train, dev, test, shown))
    sets = [{'path': evalkit.save(os.path.join(base, n), ref.conllu([s for d in docs for s in d]))} for n, docs in zip('abc', (train, dev, test))]
    settings = {'random_seed': rng.choice([1, [1, 2]]), 'model_dir': os.path.join(base, 'models'), 'train_set': sets[0], 'dev_set': sets[1], 'test_set': sets[2],
                'cmp_metric': {'fields': ['UPOS'], 'metric': 'f1'}, 'metric_printer': {'fields': shown}}
    out, error = evalkit.script('evaluation.py', '--settings', evalkit.dump(os.path.join(base, 's.json'), settings), '--method', 'stub',
                                '--hyperparams', evalkit.dump(os.path.join(base, 'h.json'), {}))
    if error is not None:
        raise error
    ctx.event('stub programs')
    tags = Counter((w.upos, w.xpos, ref.feats_str(w.feats)) for d in train for w in gen.doc_words(d))
    full = {(w.upos, w.xpos, ref.feats_str(w.feats)): w.feats for d in train for w in gen.doc_words(d)}
    tables = evalkit.tables(out)
    ctx.check(len(tables) >= 2, 'printed tables: {}', out)
    allowed = []
    for tag in [t for t, n in tags.items() if n == max(tags.values())]:
        answers = [[[[u._replace(words=[w._replace(lemma=w.form, upos=tag[0], xpos=tag[1], feats=full[tag], head=None, deprel=None) for w in u.words])
                      for u in s] for s in d] for d in docs] for docs in (dev, test)]
        allowed.append([evalkit.expected_scores(g, a) for g, a in zip((dev, test), answers)])
    ctx.check(any(evalkit.same_table(tables[-2], a, shown) and evalkit.same_table(tables[-1], b, shown) for a, b in allowed),
              'printed scores {}, expected one of {}', tables[-2:], [[{m: v[m] for m in shown} for v in x] for x in allowed])


def setup(ctx):
    pass


setup.big = True


def parts(tier):
    return [Part('comparator', comparator, 2000, 20000, required=['ties', 'comparisons']),
            Part('single', single, 3000, 30000, required=['histories', 'discarded']),
            Part('search', search, 3000, 30000),
            Part('script', script, 400, 4000, required=['programs run']),
            Part('stub', stub, 200, 2000, required=['stub programs'])]
