"""C33: training is a function of the treebank, the configuration and the seed."""
import os
import pickle
import subprocess
import sys

from vf import feat, gen, neural
from vf.core import Part
from vf.checks import c31

RULE = ('a case is a treebank, a configuration without random replacement of inputs and a seed; the losses of all batches and the answers of the '
        'model of every epoch are recorded and compared between trainings in one process, in processes with other hash seeds, and with other '
        'seeds; non-trivial when the losses are not all the same')
ASSUMPTIONS = ['the neural part runs over the TensorFlow 1 interface of the installed TensorFlow 2, on tiny networks and one thread',
               'losses are compared with a relative tolerance of 1e-5']


def case(ctx, tag, epochs=2):
    rng = ctx.rng
    texts = [feat.simple_doc(rng, pool=feat.pool(rng, 6), gran=True) for _ in range(3)]
    emb = os.path.join(ctx.scratch, 'c33-emb-{}-{}'.format(tag, ctx.index))
    neural.word_file(emb, rng, texts)
    k = ctx.index
    hyper = neural.config(rng, emb, shared=neural.SHARED[k % 4], pos=neural.SPLITTINGS[(k + k // 4) % 4],
                          lemma=neural.LEMMAS[(k // 2 + k // 4) % 4], epochs=epochs, dropout=rng.choice([1.0, 0.5]),
                          tasks=rng.choice([['pos', 'lemma'], ['pos']]))
    return texts, hyper


def run(texts, hyper, path, seed, container=list):
    """losses and answers of every epoch"""
    docs = [gen.build_document(neural.dm, d) for d in texts]
    shown = [feat.blank(d) for d in docs]
    seen = []

    def tester(tagger):
        seen.append([neural.tags(d) for d in tagger.tag(iter(shown))])
        return {}
    with c31.Watch(fake=False) as watch:
        neural.train(container(docs), hyper, path, seed=seed, dev_tester=tester)
    return [ls['loss'] for _, ls in watch.batches], seen


def close(a, b):
    return a == b or abs(a - b) <= 1e-5 * max(1.0, abs(a))


def same(ctx, first, second, what):
    ctx.equal(len(second[0]), len(first[0]), 'number of batches ' + what)
    for k, (a, b) in enumerate(zip(first[0], second[0])):
        ctx.check(close(a, b), 'loss {} of batch {} {}, but it was {}', b, k, what, a)
    ctx.equal(second[1], first[1], 'answers ' + what)
    ctx.event('losses compared', len(first[0]))


def twice(ctx):
    """in one process"""
    texts, hyper = case(ctx, 't')
    base = os.path.join(ctx.scratch, 'c33-{}'.format(ctx.index))
    seed = [0, 1, 2, 42, 1234, 2 ** 31 - 1, 0, 7][ctx.index % 8]
    first = run(texts, hyper, base + '-a', seed)
    ctx.case((texts, hyper, seed), nontrivial=len(set(first[0])) > 1)
    # something else is trained in between
    if ctx.rng.random() < 0.5:
        run(texts[:1], hyper, base + '-x', seed + 1)
    same(ctx, first, run(texts, hyper, base + '-b', seed, tuple), 'of the second training')


def seeds(ctx):
    """different seeds give different networks"""
    texts, hyper = case(ctx, 's', epochs=1)
    hyper['dropout'] = 1.0
    base = os.path.join(ctx.scratch, 'c33s-{}'.format(ctx.index))
    # seeds which differ in their last bits, in their first bits or by a round number
    start = [0, 5, 42, 1000][ctx.index % 4]
    tried = [start, start + 1, start + [10, 100, 1000, 1024][ctx.index // 4 % 4], start + 2 ** 16, start + 10 ** 6, start + 2 ** 30]
    found = [run(texts, hyper, '{}-{}'.format(base, s), s)[0] for s in tried]
    ctx.case((texts, hyper, tried))
    if max(map(max, found)) > 1e-3:
        ctx.event('seeds compared', len(found))
        for k, (a, seed) in enumerate(zip(found, tried)):
            for b, other in zip(found[:k], tried):
                # two seeds may give close losses of one batch, but not of all batches
                ctx.check(len(a) < 2 or a != b, 'seeds {} and {} give the same losses: {}', other, seed, a)


def processes(ctx):
    """in other processes"""
    texts, hyper = case(ctx, 'p')
    base = os.path.join(ctx.scratch, 'c33p-{}'.format(ctx.index))
    os.makedirs(base)
    seed = [1, 0, 7, 100][ctx.index % 4]
    ctx.case((texts, hyper, seed))
    first = run(texts, hyper, os.path.join(base, 'here'), seed)
    with open(os.path.join(base, 'case'), 'wb') as f:
        pickle.dump((texts, hyper, seed), f)
    code = ('import sys, pickle; sys.path.insert(0, {!r}); from vf import repo; repo.install(); from vf.checks import c33; '
            'texts, hyper, seed = pickle.load(open(sys.argv[1] + "/case", "rb")); '
            'pickle.dump(c33.run(texts, hyper, sys.argv[1] + "/there" + sys.argv[2], seed), open(sys.argv[1] + "/out" + sys.argv[2], "wb"))'
            ).format(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    jobs = []
    for hash_seed in ('1', '99'):
        env = dict(os.environ, PYTHONHASHSEED=hash_seed, PYTHONDONTWRITEBYTECODE='1')
        jobs.append((hash_seed, subprocess.Popen([sys.executable, '-c', code, base, hash_seed], env=env, stdout=subprocess.DEVNULL,
                                                 stderr=subprocess.PIPE)))
    for hash_seed, job in jobs:
        _, err = job.communicate(timeout=380)
        ctx.check(job.returncode == 0, 'the training fails in another process: {}', err.decode(errors='replace')[-600:])
        with open(os.path.join(base, 'out' + hash_seed), 'rb') as f:
            same(ctx, first, pickle.load(f), 'in a process with hash seed ' + hash_seed)
        ctx.event('processes')


def setup(ctx):
    pass


setup.big = True
WALL = 400


def parts(tier):
    return [Part('twice', twice, 16, 160, timeout=200, required=['losses compared']),
            Part('seeds', seeds, 8, 40, timeout=200, required=['seeds compared']),
            Part('processes', processes, 4, 24, timeout=250, required=['processes'])]
