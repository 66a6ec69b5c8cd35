"""C41: what is read, written, scored and looked up does not depend on the environment of the process."""
import json
import os
import subprocess
import sys
import tempfile

from vf import envjob, gen, neural, ref
from vf.core import VERIF, Part
from vf.checks.c12 import pair, printed
from vf.checks.c19 import entries_for, make_file

RULE = ('a case is a directory of treebanks and embedding files in several scripts; reading, shuffling, writing, scoring, vectors (and in the '
        'second part tests and whole experiments) are done in this process and in processes with another locale, hash seed, time zone, '
        'working directory, umask, optimization flag and standard streams, and compared; non-trivial when the texts are not ASCII')
ASSUMPTIONS = ['names of files are ASCII', 'the second part imports the neural part over the TensorFlow 1 interface of the installed TensorFlow 2']


def environment(rng):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('LC_', 'LANG', 'PYTHONUTF8', 'PYTHONIOENCODING'))}
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(rng.randrange(1000)), PYTHONPATH=VERIF, TZ=rng.choice(['UTC', 'Asia/Tokyo', 'EST5EDT']))
    kind = rng.choice(['ascii', 'ascii', 'ascii', 'utf8', 'none'])
    if kind == 'ascii':
        env.update(LC_ALL=rng.choice(['C', 'POSIX']), PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', PYTHONIOENCODING='utf-8')
    elif kind == 'utf8':
        env.update(LC_ALL='C.UTF-8')
    if rng.random() < 0.3:
        env.pop('HOME', None)
    return kind, env


def compare(ctx, directory, big, tag):
    rng = ctx.rng
    here = envjob.observe(directory, big)
    ctx.event('results', len(here))
    for f in here['files']:
        os.remove(os.path.join(directory, 'out', f))
    kind, env = environment(rng)
    flags = ['-B'] + (['-O'] if rng.random() < 0.3 else [])
    relative = rng.random() < 0.5
    cwd, name = (directory, '.') if relative else (tempfile.mkdtemp(dir=ctx.scratch), directory)
    out = os.path.join(tempfile.mkdtemp(dir=ctx.scratch), 'result')
    umask = rng.choice([0o022, 0o077, 0o002])
    done = subprocess.run([sys.executable] + flags + ['-m', 'vf.envjob', '1' if big else '0', name, out], env=env, cwd=cwd, stdin=subprocess.DEVNULL,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lambda: os.umask(umask))
    ctx.event('processes')
    ctx.event('locale: ' + kind)
    ctx.check(os.path.exists(out), 'the process failed: {} {}', done.returncode, done.stderr[-800:])
    with open(out, encoding='ascii') as f:
        there = json.load(f)
    ctx.check('error' not in there, 'in another environment ({}, flags {}): {}', kind, flags, there.get('error'))
    for key in sorted(set(here) | set(there)):
        ctx.equal(there.get(key), here.get(key), '{} in another environment ({}, flags {}, relative paths {})'.format(key, kind, flags, relative))
    if not relative:
        ctx.equal(os.listdir(cwd), [], 'files in the working directory')
    return here


def files(ctx):
    rng = ctx.rng
    directory = tempfile.mkdtemp(dir=ctx.scratch)
    gold, system = pair(rng)
    words = [w.form for d in (gold,) for w in gen.doc_words(d)]
    texts = [printed(rng, d) for d in (gold, system)]
    for name, text in zip(('gold.conllu', 'system.conllu'), texts):
        with open(os.path.join(directory, name), 'w', encoding='utf-8', newline='') as f:
            f.write(text)
    make_file(ctx, entries_for(rng, words + [w.lower() for w in words], 3), 3, rng.random() < 0.5, os.path.join(directory, 'words'))
    make_file(ctx, entries_for(rng, [c for w in words for c in w] + list('дєπ中'), 2), 2, rng.random() < 0.5, os.path.join(directory, 'chars'))
    ctx.case(texts, nontrivial=not ''.join(texts).isascii())
    return directory, words


def formats(ctx):
    directory, words = files(ctx)
    here = compare(ctx, directory, False, 'f')
    # the written files are UTF-8 text with the sentences of the file
    written = here['files']['written.conllu'].encode('latin-1').decode('utf-8')
    ctx.equal([r[1] for sent in ref.parse(written) for u in sent for r in u[3]], words, 'written words')


def experiments(ctx):
    directory, words = files(ctx)
    here = compare(ctx, directory, True, 'e')
    ctx.equal(here['experiment'][1], 'None', 'failure of the experiment')
    ctx.check(len(here['experiment'][0]) >= 3, 'printed tables: {}', here['experiment'][0])
    ctx.equal(here['grid'][1], 'None', 'failure of the grid')
    ctx.check(len(here['grid'][0]) >= 3, 'printed tables: {}', here['grid'][0])
    ctx.event('experiments')


def setup(ctx):
    assert neural


setup.big = True
WALL = 400


def parts(tier):
    return [Part('formats', formats, 160, 1200, timeout=120, required=['processes', 'locale: ascii']),
            Part('experiments', experiments, 40, 300, timeout=300, required=['experiments', 'locale: ascii'])]
