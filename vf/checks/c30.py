"""C30: evaluation deletes nothing but the models it has made itself, and those only when asked to and not before they are tested."""
import json
import os
import shutil
import sys

from vf import evalkit, gen, ref
from vf.core import Part

RULE = ('a case is a directory layout with files of the user (next to, above and possibly inside the model directory), a run of the program '
        '(evaluation or grid search, with and without deletion, with a failing model at some point or without) with scripted models which '
        'save directories; every removal is recorded by an audit hook, which blocks those outside of the scratch directory; '
        'non-trivial when the run trains at least two models or must be refused')
ASSUMPTIONS = ['the evaluation part imports the neural part over the TensorFlow 1 interface of the installed TensorFlow 2']

_guard = {'root': None, 'log': None}


class Blocked(BaseException):
    """a removal outside of the scratch directory"""


def _hook(event, args):
    if _guard['root'] is None:
        return
    if event in ('os.remove', 'os.rmdir', 'shutil.rmtree', 'os.truncate', 'os.chmod'):
        targets = [args[0]]
    elif event in ('os.rename', 'shutil.move'):
        targets = list(args[:2])
    else:
        return
    relative = event in ('os.remove', 'os.rmdir') and len(args) > 1 and args[1] not in (-1, None)
    for t in targets:
        if isinstance(t, int):
            continue
        t = os.fsdecode(t)
        if relative and not os.path.isabs(t):
            continue  # inside of a directory whose removal has been checked
        path = os.path.realpath(os.path.dirname(os.path.abspath(t)))
        path = os.path.join(path, os.path.basename(os.path.normpath(os.path.abspath(t))))
        _guard['log'].append((event, path))
        if not path.startswith(_guard['root'] + os.sep):
            raise Blocked('{} of {}'.format(event, path))


class guarded(object):
    def __init__(self, root, log):
        self.root, self.log = root, log

    def __enter__(self):
        _guard['root'], _guard['log'] = os.path.realpath(self.root), self.log

    def __exit__(self, *args):
        _guard['root'] = None


def snapshot(root, skip=()):
    """{relative path: content} of everything below root"""
    result = {}
    for r, dirs, files in os.walk(root):
        rel = os.path.relpath(r, root)
        if any(rel == s or rel.startswith(s + os.sep) for s in skip):
            continue
        result[rel] = None
        for f in files:
            path = os.path.join(r, f)
            name = os.path.normpath(os.path.join(rel, f))
            if os.path.islink(path):
                result[name] = os.readlink(path)
                continue
            with open(path, 'rb') as stream:
                result[name] = stream.read()
        for d in dirs:
            if os.path.islink(os.path.join(r, d)):
                result[os.path.normpath(os.path.join(rel, d))] = os.readlink(os.path.join(r, d))
    return result


def subset(ctx, before, after, what):
    for name, content in before.items():
        ctx.check(name in after, '{}: {} is lost', what, name)
        ctx.check(after[name] == content, '{}: {} is changed', what, name)
    ctx.event('user files kept', len(before))


class Failure(Exception):
    pass


def program(ctx):
    rng = ctx.rng
    base = os.path.join(ctx.scratch, 'c30', str(ctx.index))
    os.makedirs(base)
    gold = [gen.sentence(rng, syntax=True, hostile=False, n=9)]
    text = ref.conllu(gold)
    grid = rng.random() < 0.35
    delete = grid or rng.random() < 0.6
    name = rng.choice(['models', 'a/models', 'a/b/models', 'models.d'])
    model_dir = os.path.join(base, name)
    state = rng.choice(['absent', 'absent', 'empty', 'empty', 'file', 'old model', 'empty dir', 'hidden'])
    occupied = state not in ('absent', 'empty')
    count, epochs = rng.randint(1, 3), rng.randint(1, 3)
    seeds = rng.choice([1, [3], [1, 22], [1, 2, 3], [1, 10, 11]])
    long = rng.random() < 0.2  # numbers of two digits
    if long:
        count, epochs, seeds = rng.choice([(1, 13, 1), (13, 1, 1), (12, 2, 1), (1, 12, [1, 12])])
    results = rng.random() < 0.5
    trailing = rng.random() < 0.2
    settings = {'random_seed': seeds, 'model_dir': model_dir + ('/' if trailing else ''),
                'train_set': {'path': evalkit.save(os.path.join(base, 'data', 'train'), text)},
                'dev_set': {'path': evalkit.save(os.path.join(base, 'data', 'dev'), text)},
                'cmp_metric': {'fields': ['UPOS'], 'metric': 'f1'}, 'metric_printer': {'fields': ['UPOS', 'Lemmas']}}
    if rng.random() < 0.8:
        settings['test_set'] = {'path': evalkit.save(os.path.join(base, 'data', 'test'), text)}
        if results:
            settings['test_set']['results_path'] = os.path.join(base, 'answers')
    if results:
        settings['dev_set']['results_path'] = os.path.join(base, 'answers')
    # files of the user around
    for p in ['note.txt', 'models-old/epoch-0/graph', 'a/keep', 'params-0/1/epoch-0/graph', '1/epoch-0/x', 'epoch-0/graph', 'params-1/keep',
              'answers/mine.txt', 'modelsX']:
        if rng.random() < 0.6:
            evalkit.save(os.path.join(base, p), 'mine ' + p)
    linked = state != 'absent' and rng.random() < 0.2  # the models are stored elsewhere
    if linked:
        os.makedirs(os.path.join(base, 'disk', 'space'))
        os.makedirs(os.path.dirname(model_dir), exist_ok=True)
        os.symlink(os.path.join(base, 'disk', 'space'), model_dir)
        ctx.event('linked model directories')
    elif state != 'absent':
        os.makedirs(model_dir, exist_ok=True)
    if state == 'file':
        evalkit.save(os.path.join(model_dir, 'readme'), 'mine')
    elif state == 'hidden':
        evalkit.save(os.path.join(model_dir, '.gitkeep'), '')
    elif state == 'old model':
        evalkit.save(os.path.join(model_dir, 'params-0', '1', rng.choice(['epoch-0', 'epoch-77']), 'old-graph'), 'mine')
    elif state == 'empty dir':
        os.makedirs(os.path.join(model_dir, 'params-0'))
    hyper = [{'p': p, 'epochs': epochs} for p in range(count)]
    rates = {(p, s, e): rng.randint(0, 5) for p in range(count) for s in (seeds if isinstance(seeds, list) else [seeds]) for e in range(epochs)}
    if long and rng.random() < 0.7:
        # an early best one is replaced by a late one only
        for (p, s, e) in rates:
            k = max(p, e)
            rates[p, s, e] = rates[p, s, e] + 3 if k < 10 else rng.randint(1, 8)
        early, late = rng.choice([0, 1, 1, 1, 2]), rng.choice([10, 11])
        for (p, s, e) in rates:
            if max(p, e) in (early, late):
                rates[p, s, e] = 2 if max(p, e) == early else 0
    fail = (rng.randrange(count), rng.randrange(epochs), rng.choice(['train', 'dev', 'test'])) if rng.random() < 0.2 else None
    argv = ['--settings', evalkit.dump(os.path.join(base, 's.json'), settings), '--method', 'neural']
    if grid:
        argv += ['--hyperparams', evalkit.dump(os.path.join(base, 'h.json'), hyper[0]),
                 '--grid', evalkit.dump(os.path.join(base, 'g.json'), {'g': [{'p': p} for p in range(count)]})]
        if rng.random() < 0.5:
            argv.append('--delete_after')
    else:
        argv += ['--hyperparams', evalkit.dump(os.path.join(base, 'h.json'), hyper)] + (['--delete_after'] if delete else [])
    ctx.case((grid, delete, state, settings, rates, fail), nontrivial=len(rates) > 1 or occupied)
    before = snapshot(base)
    inside = snapshot(model_dir) if state != 'absent' else None
    made, log, stage = [], [], {'dev': False, 'tests': 0}

    class Tagger(evalkit.Scripted):
        def tag(self, documents):
            # a saved model is loaded from its directory when it is used
            ctx.event('models used')
            ctx.check(os.path.isfile(os.path.join(self.path, 'graph')), 'the model {} is deleted before it is used', self.path)
            with open(os.path.join(self.path, 'graph')) as f:
                ctx.equal(f.read(), repr(self.key), 'content of the model')
            if not stage['dev']:
                stage['tests'] += 1
                if fail and fail[2] == 'test':
                    raise Failure()
            elif fail and fail[2] == 'dev' and fail[:2] == self.key[::2]:
                raise Failure()
            return super().tag(documents)

    def train(documents, dev_tester, name_format, kwargs):
        for e in range(kwargs['epochs']):
            key = (kwargs['p'], kwargs['seed'], e)
            if fail and fail[2] == 'train' and fail[:2] == key[::2]:
                raise Failure()
            path = os.path.join(kwargs['model_dir'], name_format.format(e))
            evalkit.save(os.path.join(path, 'graph'), repr(key))
            made.append((key, path))
            wrong = rates[key]
            units = []
            for u in gold[0]:
                words = []
                for w in u.words:
                    words.append(w._replace(upos='WRONG' if wrong > 0 else w.upos, head=None, deprel=None))
                    wrong -= 1
                units.append(u._replace(words=words))
            tagger = Tagger([[units]], 'tagger')
            tagger.key, tagger.path = key, path
            stage['dev'] = True
            scores = dev_tester(tagger)
            stage['dev'] = False
            yield scores, tagger

    try:
        with guarded(os.path.join(ctx.scratch, 'c30'), log), evalkit.trainer(train):
            out, error = evalkit.script('grid_eval.py' if grid else 'evaluation.py', *argv)
    except Blocked as e:
        ctx.check(False, 'removal outside of the working directory: {}', str(e))
    ctx.event('programs run')
    ctx.event('removals', len(log))
    rel = os.path.relpath(model_dir, base)
    after = snapshot(base)
    root = os.path.realpath(os.path.join(base, 'disk', 'space') if linked else model_dir)
    places = [rel] + ([os.path.join('disk', 'space')] if linked else [])
    for event, path in log:
        ctx.check(path in (root, os.path.abspath(model_dir)) or path.startswith(root + os.sep), '{} of {} outside of the model directory {}', event, path, root)
    outside = {k: v for k, v in before.items() if not any(k == r or k.startswith(r + os.sep) for r in places)}
    subset(ctx, outside, after, 'outside of the model directory')
    if delete and occupied:
        ctx.event('refused')
        ctx.check(error is not None, 'a model directory with files of the user is accepted for deletion')
        ctx.equal(made, [], 'trained models in spite of the refusal')
        ctx.equal(after, before, 'files after the refusal')
        ctx.equal(log, [], 'removals')
        return
    if not delete:
        ctx.equal(log, [], 'removals without being asked to delete')
        if inside is not None:
            subset(ctx, inside, snapshot(model_dir), 'inside of the model directory')
        for key, path in made:
            ctx.check(os.path.isfile(os.path.join(path, 'graph')), 'model {} is lost', path)
    if fail is None or fail[2] == 'test' and 'test_set' not in settings:
        if error is not None:
            raise error
        ctx.equal(sorted(k for k, _ in made), sorted(rates), 'trained models')
        if 'test_set' in settings:
            ctx.equal(stage['tests'], len(seeds) if isinstance(seeds, list) else 1, 'number of tests')
        if delete:
            left = [n for n in snapshot(root) if n != '.'] if os.path.exists(root) else []
            ctx.event('cleaned')
            ctx.equal(left, [], 'models left after deletion')
    else:
        ctx.check(error is not None, 'a failure is hidden')


def pretrained(ctx):
    """existing models are never deleted"""
    rng = ctx.rng
    base = os.path.join(ctx.scratch, 'c30p', str(ctx.index))
    text = ref.conllu([gen.sentence(rng, syntax=True, hostile=False, n=3)])
    for k in range(rng.randint(1, 3)):
        evalkit.save(os.path.join(base, 'models', 'params-0', '1', 'epoch-{}'.format(k), 'graph'), 'mine')
    settings = {'random_seed': 1, 'model_dir': os.path.join(base, 'models'), 'train_set': {'path': evalkit.save(os.path.join(base, 'train'), text)},
                'dev_set': {'path': evalkit.save(os.path.join(base, 'dev'), text)},
                'cmp_metric': {'fields': ['UPOS'], 'metric': 'f1'}, 'metric_printer': {'fields': ['UPOS']}}
    method = rng.choice(['neural_pretrained', 'neural', 'stub'])
    script = rng.choice(['evaluation.py', 'grid_eval.py'])
    argv = ['--settings', evalkit.dump(os.path.join(base, 's.json'), settings), '--method', method, '--hyperparams',
            evalkit.dump(os.path.join(base, 'h.json'), {'a': 1})]
    argv += ['--delete_after'] if script == 'evaluation.py' else ['--grid', evalkit.dump(os.path.join(base, 'g.json'), {'x': [{'a': 2}]})]
    ctx.case((method, script, settings))
    before, log = snapshot(base), []
    try:
        with guarded(base, log):
            _, error = evalkit.script(script, *argv)
    except Blocked as e:
        ctx.check(False, 'removal outside of the working directory: {}', str(e))
    ctx.check(error is not None, 'existing models are accepted for deletion')
    ctx.equal(snapshot(base), before, 'files')
    ctx.event('refused')


def setup(ctx):
    sys.addaudithook(_hook)


setup.big = True


def parts(tier):
    return [Part('program', program, 900, 9000, required=['programs run', 'removals', 'refused', 'models used', 'user files kept', 'cleaned']),
            Part('pretrained', pretrained, 120, 800)]
