"""C32: a saved model gives the answers of the model that was saved: at once, later, from another place, in another process."""
import json
import os
import pickle
import shutil
import subprocess
import sys

from vf import feat, gen, neural, ref, repo
from vf.core import Part
from vf.checks import c31
from babylondigger.features.provider import FeatureExtractorBuilderProvider
from babylondigger.neural.model import Model
from babylondigger.neural.tagger.network_provider import get_nn_builder
from babylondigger.neural.tagger.neural_tagger import NeuralTagger, PretrainedTaggerTrainer

RULE = ('a case is a configuration, a treebank and documents to tag; answers of the network in memory are compared with those of the saved one '
        '(loaded several times, after more training, after moving, in a fresh process, through the trainer of pretrained models), and training '
        'is continued in both; '
        'non-trivial when the answers differ between words')
ASSUMPTIONS = ['the neural part runs over the TensorFlow 1 interface of the installed TensorFlow 2, on tiny networks']


def case(ctx, tag):
    rng = ctx.rng
    texts, docs = neural.treebank(rng, docs=3)
    emb = os.path.join(ctx.scratch, 'emb-{}-{}'.format(tag, ctx.index))
    neural.word_file(emb, rng, texts)
    hyper = neural.config(rng, emb, shared=neural.SHARED[ctx.index % 4], pos=neural.SPLITTINGS[ctx.index // 4 % 4],
                          lemma=neural.LEMMAS[(ctx.index + ctx.index // 4) % 4], epochs=2)
    hyper['nn_config']['general']['optimizer'].update(type='Adam', initial_lr=0.05)
    hyper['dropout'] = rng.choice([1.0, 0.5])
    other = [gen.build_document(neural.dm, gen.document(rng, sentences=2, big=10)) for _ in range(2)]
    shown = [feat.blank(d) for d in docs] + other
    ctx.case((hyper, texts))
    return texts, docs, hyper, shown


def answers(tagger, docs):
    return [neural.tags(d) for d in tagger.tag(iter(docs))]


def memory(ctx):
    """the tagger in memory and its copies"""
    texts, docs, hyper, shown = case(ctx, 'm')
    nn = hyper['nn_config']
    builder = get_nn_builder(nn['shared_part'], [nn[t] for t in hyper['tasks']], nn['general'], 5)
    features, labels, interpreter, initializer = FeatureExtractorBuilderProvider(builder.feature_providers()).build(docs)
    network, graph = builder.build(initializer.shapes())
    base = os.path.join(ctx.scratch, 'c32-{}'.format(ctx.index))
    with Model.new(network, graph) as model:
        model.initialize(**initializer.initial_values())

        def step(n):
            for _ in range(n):
                for s in feat.sentences(docs):
                    ls = labels.get_features([s])
                    ls['learning_rate'], ls['dropout_probability'] = 0.05, hyper['dropout']
                    model.train(features.get_features([s]), ls)
        step(2)
        tagger = NeuralTagger(features, model, interpreter)
        first = answers(tagger, shown)
        ctx.equal(answers(tagger, shown), first, 'answers of the same tagger, asked again')
        if len({t for d in first for t in d}) > 1:
            ctx.event('varied answers')
        path = os.path.join(base, 'deep', 'one')
        saved = tagger.save(path)
        ctx.equal(answers(tagger, shown), first, 'answers in memory after saving')
        ctx.equal(answers(saved, shown), first, 'answers of the saved tagger')
        step(4)
        second = answers(tagger, shown)
        if second != first:
            ctx.event('changed by training')
        ctx.equal(answers(saved, shown), first, 'answers of the saved tagger after more training in memory')
        other = os.path.join(base, 'deep', 'two')
        later = tagger.save(other)
        ctx.equal(answers(later, shown), second, 'answers of the second saved tagger')
        ctx.equal(answers(saved, shown), first, 'answers of the first saved tagger after saving another one')
    # the session is closed
    ctx.equal(answers(saved, shown[::-1]), first[::-1], 'answers of the saved tagger after closing, other order')
    with NeuralTagger.load(path) as loaded:
        ctx.equal(answers(loaded, shown), first, 'answers of the loaded tagger')
        ctx.equal([answers(loaded, [d])[0] for d in shown], first, 'answers of the loaded tagger, one document at a time')
        again = os.path.join(base, 'three')
        ctx.equal(answers(loaded.save(again), shown), first, 'answers of a tagger which was loaded and saved again')
    moved = os.path.join(base, 'moved', 'model')
    shutil.move(os.path.join(base, 'deep', 'one'), moved)
    os.makedirs(os.path.join(base, 'deep', 'one'))  # nothing is left at the old place
    shutil.rmtree(again)
    with NeuralTagger.load(moved) as loaded:
        ctx.equal(answers(loaded, shown), first, 'answers of a moved tagger')
    ctx.event('taggers compared', 9)


def epochs(ctx):
    """the tagger of every epoch keeps its answers"""
    texts, docs, hyper, shown = case(ctx, 'e')
    hyper['epochs'] = ctx.rng.choice([2, 3, 11])
    base = os.path.join(ctx.scratch, 'c32e-{}'.format(ctx.index))
    seen = []

    def tester(tagger):
        seen.append(answers(tagger, shown))
        return {}
    results = neural.train(docs, hyper, base, dev_tester=tester)
    ctx.equal(len(results), hyper['epochs'], 'number of taggers')
    ctx.equal(len({str(t) for _, t in results}), hyper['epochs'], 'number of different taggers')
    for k, (_, tagger) in enumerate(results):
        ctx.equal(answers(tagger, shown), seen[k], 'answers of the tagger of epoch {} after the training'.format(k))
    if any(a != b for a, b in zip(seen, seen[1:])):
        ctx.event('changed by training')
    # the trainer of pretrained models finds each of them once
    got = []

    def again(tagger):
        found = answers(tagger, shown)
        got.append(found)
        return {'answers': found}
    pretrained = list(PretrainedTaggerTrainer().train([], dev_tester=again, model_dir=base, seed=1, model_name_format='epoch-{}'))
    ctx.equal(len(pretrained), hyper['epochs'], 'number of pretrained models')
    ctx.equal(sorted(map(repr, got)), sorted(map(repr, seen)), 'answers of the pretrained models')
    for (scores, tagger), found in zip(pretrained, got):
        ctx.equal(scores, {'answers': found}, 'scores of a pretrained model')
    ctx.equal(answers(pretrained[0][1], shown), got[0], 'answers of the first pretrained model')
    names = [os.path.basename(n) for n in sorted(os.path.join(base, d) for d in os.listdir(base))]
    ctx.equal([repr(g) for g in got], [repr(seen[int(n.split('-')[1])]) for n in names], 'order of the pretrained models')
    ctx.event('pretrained models', len(pretrained))


def over(ctx):
    """models saved over other ones: the directory shows the last one"""
    texts, docs, hyper, shown = case(ctx, 'o')
    base = os.path.join(ctx.scratch, 'c32o-{}'.format(ctx.index))
    _, others = neural.treebank(ctx.rng, docs=2)
    second = json.loads(json.dumps(hyper))
    if ctx.index % 2:
        second['nn_config']['lemma']['builder'] = neural.LEMMAS[(neural.LEMMAS.index(second['nn_config']['lemma']['builder']) + 1) % 4]
    saved = []
    for k, (train, conf) in enumerate(((docs, hyper), (others, second), (docs, hyper))):
        seen = []
        neural.train(train, conf, base, seed=k, dev_tester=lambda tagger: seen.append(answers(tagger, shown)) or {})
        for epoch, expected in enumerate(seen):
            with NeuralTagger.load(os.path.join(base, 'epoch-{}'.format(epoch))) as tagger:
                ctx.equal(answers(tagger, shown), expected, 'answers of epoch {} of training {} over the models of the earlier ones'.format(epoch, k))
        saved.append(seen)
    if saved[0] != saved[1]:
        ctx.event('overwritten models differ')


def process(ctx):
    """another process"""
    texts, docs, hyper, shown = case(ctx, 'p')
    base = os.path.join(ctx.scratch, 'c32p-{}'.format(ctx.index))
    tagger = neural.train(docs, hyper, base)[-1][1]
    plain = texts + [gen.document(ctx.rng, sentences=2, big=10) for _ in range(2)]
    here = answers(tagger, [feat.blank(gen.build_document(neural.dm, d)) for d in plain])
    with open(os.path.join(base, 'docs'), 'wb') as f:
        pickle.dump(plain, f)
    path = os.path.join(base, 'epoch-1')
    code = ('import sys, pickle; sys.path.insert(0, {!r}); from vf import repo; repo.install(); from vf import feat, gen, neural; '
            'from babylondigger.neural.tagger.neural_tagger import NeuralTagger; docs = pickle.load(open({!r}, "rb")); '
            'docs = [feat.blank(gen.build_document(neural.dm, d)) for d in docs]; '
            't = NeuralTagger.load({!r}); pickle.dump([neural.tags(d) for d in t.tag(iter(docs))], open({!r}, "wb"))').format(
                os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), os.path.join(base, 'docs'), path,
                os.path.join(base, 'out'))
    env = dict(os.environ, PYTHONHASHSEED=str(ctx.rng.randrange(1, 1000)), PYTHONDONTWRITEBYTECODE='1')
    done = subprocess.run([sys.executable, '-c', code], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=380)
    ctx.check(done.returncode == 0, 'a saved tagger cannot be used in another process: {}', done.stderr.decode(errors='replace')[-600:])
    with open(os.path.join(base, 'out'), 'rb') as f:
        there = pickle.load(f)
    ctx.equal(there, here, 'answers in another process')
    ctx.event('processes')


def resumed(ctx):
    """a loaded network goes on like the one that was saved"""
    texts, docs, hyper, shown = case(ctx, 'r')
    nn, rng = hyper['nn_config'], ctx.rng
    nn['general']['optimizer']['type'] = ['Adam', 'RMSProp', 'GD'][ctx.index % 3]
    builder = get_nn_builder(nn['shared_part'], [nn[t] for t in hyper['tasks']], nn['general'], 7)
    features, labels, interpreter, initializer = FeatureExtractorBuilderProvider(builder.feature_providers()).build(docs)
    network, graph = builder.build(initializer.shapes())
    path = os.path.join(ctx.scratch, 'c32r-{}'.format(ctx.index))
    os.makedirs(path)
    sents = feat.sentences(docs)
    batches = [rng.sample(sents, min(len(sents), rng.randint(1, 3))) for _ in range(6)]

    def train(model, batch):
        ls = labels.get_features(batch)
        ls['learning_rate'], ls['dropout_probability'] = 0.02, 1.0
        return float(model.train(features.get_features(batch), ls))

    def close(a, b, what):
        for k, (x, y) in enumerate(zip(a, b)):
            ctx.check(x == y or abs(x - y) <= 1e-3 * max(1.0, abs(y)), '{}: loss {} at step {}, in the saved one {}', what, x, k, y)

    with Model.new(network, graph) as model:
        model.initialize(**initializer.initial_values())
        begin = [train(model, b) for b in batches]
        loader = model.save(path)
        later = [train(model, b) for b in batches]
        if all(x == x and abs(x) < 1e6 for x in begin + later):
            final = answers(NeuralTagger(features, model, interpreter), shown)
            for load in (loader, lambda: Model.load(path)):
                with load() as loaded:
                    close([train(loaded, b) for b in batches], later, 'training goes on after loading')
                    got = answers(NeuralTagger(features, loaded, interpreter), shown)
                    same = sum(x == y for p, q in zip(got, final) for x, y in zip(p, q))
                    count = sum(len(p) for p in final)
                    ctx.check(same >= 0.9 * count, 'after more training {} of {} answers of the loaded model are those of the saved one', same, count)
                    ctx.event('resumed trainings')
                    if later != begin:
                        ctx.event('changed by training')
        with loader() as loaded:
            loaded.initialize(**initializer.initial_values())
            again = [train(loaded, b) for b in batches]
            ctx.check(len(again) == len(begin), 'training from the beginning')
            if all(x == x and abs(x) < 1e6 for x in begin):
                close(again[:1], begin[:1], 'training of the loaded model from the beginning')
            ctx.event('initialised again')


def setup(ctx):
    pass


setup.big = True
WALL = 400


def parts(tier):
    return [Part('memory', memory, 16, 160, timeout=200, required=['taggers compared', 'varied answers', 'changed by training']),
            Part('epochs', epochs, 8, 96, timeout=200, required=['pretrained models']),
            Part('over', over, 5, 48, timeout=200, required=['overwritten models differ']),
            Part('resumed', resumed, 12, 96, timeout=200, required=['resumed trainings', 'initialised again', 'changed by training']),
            Part('process', process, 3, 24, timeout=200, required=['processes'])]
