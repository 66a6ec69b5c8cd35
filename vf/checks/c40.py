"""C40: the scorer program prints exactly the scores of its files under the given weights, or fails without printing any score."""
import contextlib
import io
import os
import re
import subprocess
import sys

from vf import gen, repo, scorer
from vf.core import Part, Violation
from vf.checks.c12 import pair, printed, flat
from babylondigger.evaluation import conll17_ud_eval as ud

RULE = ('a case is a pair of treebank files, a file of weights (comments, empty lines, repeated relations, any white space, any line ends) or '
        'none, and options in any order, or the same with one malformed file; the program is run in the process and, for a part of '
        'the cases, as a program of its own under other locales; non-trivial when the files differ')
METRICS = ['Tokens', 'Sentences', 'Words', 'UPOS', 'XPOS', 'Feats', 'AllTags', 'Lemmas', 'UAS', 'LAS', 'CLAS']
RELATIONS = sorted({d.split(':')[0] for d in gen.DEPREL} | {'dep', 'root'})


def weights_file(rng):
    """(text, {relation: weight})"""
    weights, lines = {}, []
    for name in rng.sample(RELATIONS, rng.randint(0, len(RELATIONS))) + (rng.sample(RELATIONS, 1) if rng.random() < 0.3 else []):
        while rng.random() < 0.25:
            lines.append(rng.choice(['', '# comment', '# вес é', '#{} 0.5'.format(name), '#', '   ', '\t', '# a b c d']))
        value = rng.choice([0, 0.0, 0.1, 0.25, 0.5, 1, 1.0, 2.5, 1e-3, 10])
        lines.append('{}{}{}{}{}'.format(rng.choice(['', '', ' ']), name, rng.choice([' ', '\t', '   ', ' \t ']), value, rng.choice(['', '', ' ', '\t'])))
        weights[name] = float(value)
    text = rng.choice(['\n', '\n', '\r\n']).join(lines)
    return text + rng.choice(['\n', '\n', '', '\n\n']), weights


def write(path, text):
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    return path


def arguments(rng, paths, weights, verbose):
    options = []
    if weights is not None:
        options.append(rng.choice([['-w', weights], ['--weights', weights], ['--weights=' + weights], ['-w' + weights]]))
    options += [[rng.choice(['-v', '--verbose'])] for _ in range(verbose)]
    rng.shuffle(options)
    where = rng.choice(['before', 'after', 'around'])
    flags = [a for o in options for a in o]
    if where == 'before':
        return flags + paths
    if where == 'after':
        return paths + flags
    k = len(options) // 2
    return [a for o in options[:k] for a in o] + paths + [a for o in options[k:] for a in o]


def inside(args):
    """(output, error)"""
    out, saved = io.StringIO(), sys.argv
    sys.argv = ['conll17_ud_eval.py'] + args
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            ud.main()
        return out.getvalue(), None
    except Violation:
        raise
    except (Exception, SystemExit) as e:
        if isinstance(e, SystemExit) and not e.code:
            return out.getvalue(), None
        return out.getvalue(), e
    finally:
        sys.argv = saved


def outside(rng, args, cwd):
    """(output, error) of an own process"""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent')
    if rng.random() < 0.7:
        env.update(LC_ALL=rng.choice(['C', 'POSIX']), PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
    path = os.path.join(repo.PKG, 'evaluation', 'conll17_ud_eval.py')
    done = subprocess.run([sys.executable, path] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return done.stdout.decode('utf-8'), None if done.returncode == 0 else 'exit code {}: {}'.format(done.returncode, done.stderr[-300:])


def run(ctx, args, cwd=None):
    if cwd is not None:
        ctx.event('own processes')
        return outside(ctx.rng, args, cwd)
    ctx.event('runs')
    return inside(args)


def judge(ctx, output, gold, system, weights, verbose):
    expected = scorer.evaluate(flat(gold), flat(system), weights)
    lines = [line for line in output.split('\n') if line.strip()]
    if not verbose and weights is None:
        ctx.equal(len(lines), 1, 'number of printed lines')
        m = re.match(r'^LAS F1 Score: ([0-9.]+)$', lines[0])
        ctx.check(m is not None and abs(float(m.group(1)) - 100 * expected['LAS'][2]) < 0.00501, 'printed {}, expected {}', output, expected['LAS'])
        ctx.event('short outputs')
        return
    names = METRICS + (['WeightedLAS'] if weights is not None else [])
    ctx.equal([c.strip() for c in lines[0].split('|')], ['Metrics', 'Precision', 'Recall', 'F1 Score', 'AligndAcc'], 'header')
    rows = [[c.strip() for c in line.split('|')] for line in lines[2:]]
    ctx.equal([r[0] for r in rows], names, 'printed metrics')
    for name, *cells in rows:
        ctx.event('printed metrics')
        ctx.equal(len(cells), 4, 'columns of ' + name)
        for c, e in zip(cells, expected[name]):
            ctx.check((c == '' and e is None) or (c != '' and e is not None and abs(float(c) - 100 * e) < 0.00501),
                      'printed {}: {}, expected {} with weights {}', name, cells, expected[name], weights)


def prepare_case(ctx, directory):
    rng = ctx.rng
    gold, system = pair(rng)
    os.makedirs(directory, exist_ok=True)
    texts = [printed(rng, gold), printed(rng, system)]
    paths = [write(os.path.join(directory, n), t) for n, t in zip(('gold.conllu', 'system.conllu'), texts)]
    weights = path = None
    if rng.random() < 0.6:
        text, weights = weights_file(rng)
        path = write(os.path.join(directory, 'weights'), text)
        texts.append(text)
    return gold, system, weights, path, paths, texts


def good(ctx, own=False):
    rng = ctx.rng
    directory = os.path.join(ctx.scratch, 'c40')
    gold, system, weights, path, paths, texts = prepare_case(ctx, directory)
    verbose = rng.choice([0, 0, 1, 1, 2])
    if own and rng.random() < 0.5:
        paths, path = [os.path.basename(p) for p in paths], path and os.path.basename(path)
    args = arguments(rng, paths, path, verbose)
    ctx.case((args, texts), nontrivial=gold != system)
    output, error = run(ctx, args, directory if own else None)
    ctx.check(error is None, 'the program fails: {}', error)
    judge(ctx, output, gold, system, weights, verbose)
    for p, text in zip(paths + ([path] if path else []), texts):
        with open(os.path.join(directory, p), encoding='utf-8', newline='') as f:
            ctx.equal(f.read(), text, 'file after the run')
    ctx.equal(sorted(os.listdir(directory)), sorted(set(os.listdir(directory)) & {'gold.conllu', 'system.conllu', 'weights'}), 'files')


def own_good(ctx):
    good(ctx, own=True)


def bad(ctx, own=False):
    rng = ctx.rng
    directory = os.path.join(ctx.scratch, 'c40')
    gold, system, weights, path, paths, texts = prepare_case(ctx, directory)
    kind = ctx.index % 9
    if kind < 4:
        lines = [line for line in weights_file(rng)[0].split('\n')]
        broken = ['nsubj', 'nsubj 0.5 0.5', 'nsubj x', 'nsubj 1,5', 'nsubj\t0.5\t#', 'nsubj=0.5', ' # comment here', 'nsubj ,'][rng.randrange(8)]
        lines.insert(rng.randint(0, len(lines)), broken)
        path = write(os.path.join(directory, 'weights'), '\n'.join(lines))
        texts.append(lines)
    elif kind == 4:
        path = os.path.join(directory, 'no such file')
    elif kind == 5:
        paths[rng.randrange(2)] = os.path.join(directory, 'no such file')
    elif kind == 6:
        k = rng.randrange(2)
        write(paths[k], texts[k].rstrip('\n') + '\n')
        if texts[k].endswith('\r\n'):
            write(paths[k], texts[k].rstrip('\r\n') + '\r\n')
    elif kind == 7:
        # another text
        write(paths[rng.randrange(2)], '1\tQQQQ\t_\t_\t_\t_\t0\troot\t_\t_\n\n')
    else:
        paths = paths[:1] if rng.random() < 0.5 else paths + [paths[0]]
    args = arguments(rng, paths, path, rng.choice([0, 1]))
    ctx.case((kind, args, texts))
    output, error = run(ctx, args, directory if own else None)
    ctx.event('rejections')
    ctx.check(error is not None, 'malformed input of kind {} is accepted: {}', kind, output)
    ctx.check(not re.search(r'Score|\d\.\d\d', output), 'scores are printed for malformed input of kind {}: {}', kind, output)


def own_bad(ctx):
    bad(ctx, own=True)


def parts(tier):
    return [Part('good', good, 2400, 30000, required=['printed metrics', 'short outputs']),
            Part('bad', bad, 1350, 9000, required=['rejections']),
            Part('own_good', own_good, 48, 400, timeout=120, required=['own processes']),
            Part('own_bad', own_bad, 27, 180, timeout=120, required=['own processes'])]
