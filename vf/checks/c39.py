"""C39: every model that is opened is closed: after training and tagging to the end, given up half-way, or failed."""
import gc
import os
import random
import shutil
import tempfile

from vf import feat, neural
from vf.core import Part
from babylondigger.features.provider import FeatureExtractorBuilderProvider
from babylondigger.neural.model import Model
from babylondigger.neural.tagger import neural_tagger
from babylondigger.neural.tagger.network_provider import get_nn_builder

tf = neural.tf
RULE = ('a case is a way to end the use of models (to the end, given up after some epochs or documents, never started, a failure of the data, '
        'of the tester, of saving, of loading a damaged model) with a random treebank and network; all sessions of TensorFlow are '
        'counted when they are opened and closed, and file descriptors into the directory of models are listed; non-trivial when a session was opened')
ASSUMPTIONS = ['the neural part runs over the TensorFlow 1 interface of the installed TensorFlow 2, on tiny networks',
               'a generator that is given up is closed explicitly or by the garbage collector']


class Sessions(object):
    """all sessions: opened, and open now"""

    def __init__(self, ctx):
        self.ctx, self.opened, self.live, self.most = ctx, 0, {}, 0

    def __enter__(self):
        watch = self
        self.old = tf.Session.__init__, tf.Session.close
        init, close = self.old

        def opening(session, *args, **kwargs):
            init(session, *args, **kwargs)
            watch.opened += 1
            watch.live[id(session)] = session
            watch.most = max(watch.most, len(watch.live))
            watch.ctx.event('sessions opened')

        def closing(session):
            if watch.live.pop(id(session), None) is not None:
                watch.ctx.event('sessions closed')
            close(session)

        tf.Session.__init__, tf.Session.close = opening, closing
        return self

    def __exit__(self, *args):
        tf.Session.__init__, tf.Session.close = self.old
        for session in list(self.live.values()):
            session.close()


def descriptors(path):
    found = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            target = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if target.startswith(path):
            found.append(target)
    return found


def closed(ctx, watch, path, what):
    gc.collect()
    ctx.equal(len(watch.live), 0, 'sessions left open after ' + what)
    ctx.equal(descriptors(path), [], 'files left open after ' + what)
    ctx.event(what)


class Failure(Exception):
    pass


class Failing(object):
    """data that fails after some documents (of a traversal given by number)"""

    def __init__(self, items, traversal, position):
        self.items, self.traversal, self.position, self.count = items, traversal, position, 0

    def __iter__(self):
        self.count += 1
        for k, item in enumerate(self.items):
            if self.count > self.traversal and k >= self.position:
                raise Failure()
            yield item


def prepare_case(ctx):
    rng = ctx.rng
    texts, docs = neural.treebank(rng, docs=2)
    hyper = neural.config(rng, shared=rng.choice(['WE_charCNN', 'WE_charCNN', 'BiLSTM']), aggregator='average', epochs=rng.choice([2, 3]))
    path = os.path.join(tempfile.mkdtemp(dir=ctx.scratch), 'models')
    return docs, hyper, path, [feat.blank(d) for d in docs]


def training(ctx):
    rng = ctx.rng
    docs, hyper, path, shown = prepare_case(ctx)
    way = ['end', 'given up', 'tester fails', 'data fails', 'saving fails', 'dropped', 'wrong configuration', 'tester gives up'][ctx.index % 8]
    when = rng.randrange(hyper['epochs'])
    ctx.case((way, when, hyper, docs))
    state = {'epoch': -1}
    with Sessions(ctx) as watch:
        def tester(tagger):
            state['epoch'] += 1
            ctx.check(len(watch.live) <= 1, '{} sessions are open during the test of a model in training', len(watch.live))
            if way == 'tester gives up':
                tags = tagger.tag(iter(shown))
                next(tags)
                tags.close()
            else:
                list(tagger.tag(iter(shown)))
            if way == 'tester fails' and state['epoch'] == when:
                raise Failure()
            return {}
        data = Failing(docs, 0, 0) if way == 'data fails' and rng.random() < 0.2 else \
            Failing(docs, rng.randint(1, 8), rng.randrange(len(docs))) if way == 'data fails' else docs
        if way == 'saving fails':
            os.makedirs(path)
            name = os.path.join(path, 'epoch-{}'.format(when))
            if rng.random() < 0.5:
                with open(name, 'w') as f:
                    f.write('not a directory')
            else:
                # a directory is in the way of each file
                first = os.path.join(tempfile.mkdtemp(dir=ctx.scratch), 'names')
                neural.train(docs, dict(hyper, epochs=1), first)
                for root, _, files in os.walk(first):
                    for f in files:
                        os.makedirs(os.path.join(name, f, 'x'))
                ctx.equal(len(watch.live), 0, 'sessions left open after training of one epoch')
        if way == 'wrong configuration':
            hyper['nn_config']['general']['optimizer']['type'] = 'none'
        generator = neural.trainer().train(data, dev_tester=tester, seed=1, model_dir=path, **hyper)
        if way in ('given up', 'dropped'):
            for _ in range(when + 1):
                next(generator)
            ctx.check(len(watch.live) <= 1, '{} sessions are open in training', len(watch.live))
            if way == 'given up':
                generator.close()
            else:
                del generator
        elif way in ('end', 'tester gives up'):
            ctx.equal(len(list(generator)), hyper['epochs'], 'results')
        else:
            try:
                n = len(list(generator))
            except Failure:
                pass
            except Exception:
                ctx.check(way in ('saving fails', 'wrong configuration'), 'another failure')
            else:
                ctx.check(way == 'data fails', '{}: {} epochs were trained', way, n)
        ctx.check(watch.most <= 2, '{} sessions were open at once', watch.most)
        closed(ctx, watch, path, 'training: ' + way)


def tagging(ctx):
    rng = ctx.rng
    docs, hyper, path, shown = prepare_case(ctx)
    hyper['epochs'] = 2
    taggers = [t for _, t in neural.train(docs, hyper, path)]
    ctx.case((hyper, docs))
    with Sessions(ctx) as watch:
        for tagger in taggers + [neural_tagger.LazyNeuralTagger(os.path.join(path, 'epoch-0'))]:
            ctx.equal(watch.opened, 0, 'sessions opened before tagging')
            expected = list(tagger.tag(iter(shown)))
            closed(ctx, watch, path, 'tagging to the end')
            ctx.equal(list(tagger.tag(iter(shown))), expected, 'documents of the second tagging')
            closed(ctx, watch, path, 'tagging to the end')
            ctx.equal(list(tagger.tag(iter([]))), [], 'documents of nothing')
            closed(ctx, watch, path, 'tagging of nothing')
            tagger.tag(iter(shown)).close()
            closed(ctx, watch, path, 'tagging that is not started')
            tags = tagger.tag(iter(shown * 2))
            for _ in range(rng.randint(1, 3)):
                next(tags)
            if rng.random() < 0.5:
                tags.close()
            del tags
            closed(ctx, watch, path, 'tagging that is given up')
            try:
                list(tagger.tag(iter(Failing(shown, 0, rng.randrange(2)))))
                ctx.check(False, 'the failure of the documents was lost')
            except Failure:
                pass
            closed(ctx, watch, path, 'tagging of failing documents')
            try:
                list(tagger.tag(iter([shown[0], None, 'text', shown[1]])))
                ctx.check(False, 'tagged something else than documents')
            except Exception:
                pass
            closed(ctx, watch, path, 'tagging that fails')
            # two at once: each with its own model, closed at its own end
            a, b = tagger.tag(iter(shown)), taggers[0].tag(iter(shown))
            first = [next(a)]
            next(b)
            first += list(a)
            ctx.equal(first, expected, 'documents of one of two taggings')
            gc.collect()
            ctx.check(len(watch.live) <= 1, '{} sessions are open, but only one tagging is going on', len(watch.live))
            list(b)
            closed(ctx, watch, path, 'two taggings')
            watch.opened = 0
        results = neural_tagger.PretrainedTaggerTrainer().train([], dev_tester=lambda t: {'n': len(list(t.tag(iter(shown))))}, model_dir=path)
        ctx.equal([s for s, _ in results], [{'n': len(shown)}] * 2, 'results of pretrained models')
        closed(ctx, watch, path, 'test of pretrained models')
        results = neural_tagger.PretrainedTaggerTrainer().train([], dev_tester=lambda t: next(t.tag(iter(shown))), model_dir=path)
        next(results)
        results.close()
        closed(ctx, watch, path, 'test of pretrained models that is given up')
        with neural_tagger.NeuralTagger.load(os.path.join(path, 'epoch-1')) as tagger:
            ctx.equal(len(watch.live), 1, 'sessions of a loaded model')
            ctx.equal(len(list(tagger.tag(iter(shown)))), len(shown), 'documents')
            ctx.equal(len(watch.live), 1, 'sessions of a loaded model after tagging')
            ctx.equal(len(list(tagger.tag(iter(shown)))), len(shown), 'documents')
        closed(ctx, watch, path, 'use of a loaded model')
        try:
            with neural_tagger.NeuralTagger.load(os.path.join(path, 'epoch-0')):
                raise Failure()
        except Failure:
            pass
        closed(ctx, watch, path, 'failed use of a loaded model')
        tagger = neural_tagger.NeuralTagger.load(os.path.join(path, 'epoch-0'))
        tagger.close()
        closed(ctx, watch, path, 'explicit closing')


def damaged(ctx):
    rng = ctx.rng
    docs, hyper, path, shown = prepare_case(ctx)
    hyper['epochs'] = 1
    neural.train(docs, hyper, path)
    model = os.path.join(path, 'epoch-0')
    files = sorted(os.listdir(model))
    ctx.case((hyper, docs))
    with Sessions(ctx) as watch:
        for name in files:
            for damage in ('missing', 'empty', 'half', 'garbage'):
                copy = os.path.join(ctx.scratch, 'c39-damaged')
                shutil.rmtree(copy, ignore_errors=True)
                shutil.copytree(model, copy)
                target = os.path.join(copy, name)
                with open(target, 'rb') as f:
                    data = f.read()
                os.remove(target)
                if damage != 'missing':
                    with open(target, 'wb') as f:
                        f.write({'empty': b'', 'half': data[:len(data) // 2], 'garbage': bytes(rng.randrange(256) for _ in range(200))}[damage])
                random.seed(ctx.index)
                try:
                    list(neural_tagger.LazyNeuralTagger(copy).tag(iter(shown)))
                    ctx.event('damage that does not matter')
                except Exception:
                    ctx.event('models that cannot be loaded')
                closed(ctx, watch, copy, 'loading a damaged model')
                shutil.rmtree(copy, ignore_errors=True)


def single(ctx):
    """the model itself"""
    rng = ctx.rng
    docs, hyper, path, shown = prepare_case(ctx)
    nn = hyper['nn_config']
    ctx.case((hyper, docs))
    builder = get_nn_builder(nn['shared_part'], [nn[t] for t in hyper['tasks']], nn['general'], 1)
    features, labels, _, initializer = FeatureExtractorBuilderProvider(builder.feature_providers()).build(docs)
    network, graph = builder.build(initializer.shapes())
    os.makedirs(path)
    fs = features.get_features(feat.sentences(docs)[:1])
    with Sessions(ctx) as watch:
        with Model.new(network, graph) as model:
            ctx.equal(len(watch.live), 1, 'sessions')
            model.initialize(**initializer.initial_values())
            load = model.save(path)
            before = {k: v.tolist() for k, v in model.predict(fs).items()}
            with load() as other:
                ctx.equal(len(watch.live), 2, 'sessions')
                ctx.equal({k: v.tolist() for k, v in other.predict(fs).items()}, before, 'answers of the saved model')
            ctx.equal(len(watch.live), 1, 'sessions after closing one of two models')
            ctx.equal({k: v.tolist() for k, v in model.predict(fs).items()}, before, 'answers after the other model was closed')
        closed(ctx, watch, path, 'use of a model')
        ctx.rejects(lambda: model.predict(fs), 'use of a closed model')
        try:
            with Model.new(network, graph):
                raise Failure()
        except Failure:
            pass
        closed(ctx, watch, path, 'failed use of a model')
        for _ in range(2):
            with load() as again:
                ctx.equal({k: v.tolist() for k, v in again.predict(fs).items()}, before, 'answers of the saved model')
            closed(ctx, watch, path, 'use of a saved model')


def setup(ctx):
    pass


setup.big = True
WALL = 400


def parts(tier):
    return [Part('training', training, 32, 320, timeout=300, required=['sessions opened', 'sessions closed'] + [
                'training: ' + w for w in ('end', 'given up', 'tester fails', 'data fails', 'saving fails', 'dropped', 'tester gives up')]),
            Part('tagging', tagging, 10, 100, timeout=300, required=['tagging that is given up', 'tagging of failing documents', 'two taggings']),
            Part('damaged', damaged, 8, 60, timeout=300, required=['models that cannot be loaded']),
            Part('single', single, 12, 100, timeout=300, required=['use of a saved model'])]
