"""C31: training shows every sentence once per epoch with its own labels, at the documented learning rate, and works for every documented configuration."""
import itertools
import math
import os
from collections import namedtuple

from vf import feat, gen, neural, ref
from vf.core import Part
from babylondigger.features.builder import OOV, PADDING
from babylondigger.features.provider import FeatureExtractorBuilderProvider
from babylondigger.neural.model import Model
from babylondigger.neural.tagger.network_provider import get_nn_builder

RULE = ('a case is a treebank, a configuration (all documented builders, target splittings, lemmatizers, aggregators and optimizers are '
        'combined) and a scripted history of development scores; the batches, labels and rates given to the network are recorded; '
        'non-trivial when there are at least two batches or epochs')
ASSUMPTIONS = ['the neural part runs over the TensorFlow 1 interface of the installed TensorFlow 2, on tiny networks',
               'dilated convolutions are trained with dilation 1 only: this TensorFlow build cannot compute their gradients on a processor']

Score = namedtuple('Score', 'precision recall f1 aligned_accuracy')


def plain(value):
    if hasattr(value, 'tolist'):
        value = value.tolist()
    if isinstance(value, dict):
        return {k: plain(v) for k, v in value.items()}
    if isinstance(value, (str, bytes)) or not hasattr(value, '__iter__'):
        return value
    return [plain(v) for v in value]


def extractors(hyper, documents):
    """the extractors of this configuration and training set (they are judged by other properties)"""
    nn = hyper['nn_config']
    builder = get_nn_builder(nn['shared_part'], [nn[t] for t in hyper['tasks']], nn['general'], 1)
    features, labels, _, _ = FeatureExtractorBuilderProvider(builder.feature_providers()).build(documents)
    return features, labels


class Watch(object):
    """records what the networks are trained with; `fake`: the network is not run; `keep`: the networks are not saved"""

    def __init__(self, fake, keep=False):
        self.fake, self.keep, self.batches = fake, keep, []

    def __enter__(self):
        self.old = Model.train
        self.old_save = Model.save
        if self.keep:
            Model.save = lambda model, path: None
        watch = self

        def train(model, features, labels):
            features, labels = dict(features), dict(labels)
            record = (plain(features), plain(labels))
            watch.batches.append(record)
            loss = 0.5 if watch.fake else watch.old(model, features, labels)
            record[1]['loss'] = float(loss)
            return loss

        Model.train = train
        return self

    def __exit__(self, *args):
        Model.train = self.old
        Model.save = self.old_save


RATES = ('learning_rate', 'dropout_probability', 'loss')


def schedule(optimizer, accuracies):
    """documented learning rates of the epochs"""
    lr, result, last = optimizer['initial_lr'], [], [0] * 5
    for epoch, acc in enumerate(accuracies):
        lr = lr / (1 + optimizer['lr_decay'] * epoch)
        result.append(lr)
        if acc <= last[-1] and acc <= sum(last) / len(last):
            lr /= optimizer.get('lr_decrease_factor', 2)
        last = last[1:] + [acc]
    return result


def scripted_scores(rng, epochs):
    level, result = rng.choice([0, 0.5, 1]), []
    for _ in range(epochs):
        level = rng.choice([level, level, level - 0.25, level + 0.25, rng.randrange(9) / 8, 0])
        level = min(1, max(0, level))
        result.append({'UPOS': Score(level, level, level, level), 'Lemmas': Score(0.5, 0.5, 0.5, 0.5), 'Tokens': Score(1, 1, 1, None)})
    return result


def feeds(ctx):
    """recorded trainings without running the network"""
    rng = ctx.rng
    size = rng.random()
    if size < 0.15:  # long sentences
        texts, docs = neural.treebank(rng, docs=2, sentences=2, n=rng.choice([70, 140]))
    elif size < 0.4:
        texts, docs = neural.treebank(rng, docs=rng.choice([6, 12, 25]))
    else:
        texts, docs = neural.treebank(rng, docs=rng.randint(1, 4))
    epochs = rng.choice([1, 2, 3, 6, 9, 40]) if size >= 0.4 else rng.choice([1, 2, 6])
    sparse = rng.choice([0, 0, 0.3, 0.8, 1])
    hyper = neural.config(rng, shared=rng.choice(['WE_charCNN', 'WE_charCNN', 'BiLSTM']), epochs=epochs, batch_size=rng.choice([1, 2, 3, 5, 8, 10, 16, 32, 100]),
                          dropout=rng.choice([1.0, 0.5, 0.9]))
    hyper['nn_config']['shared_part']['config']['sparse_input_prob'] = sparse
    if not sparse and rng.random() < 0.5:
        del hyper['nn_config']['shared_part']['config']['sparse_input_prob']
    hyper['nn_config']['general']['optimizer'].update(
        lr_decrease_factor=rng.choice([1, 2, 2, 4, 1.5, 0.5]), initial_lr=rng.choice([0.1, 0.002, 1.0]), lr_decay=rng.choice([0.0, 0.0, 0.05, 0.5]))
    if hyper['nn_config']['general']['optimizer']['lr_decrease_factor'] == 2 and rng.random() < 0.5:
        del hyper['nn_config']['general']['optimizer']['lr_decrease_factor']  # 2 is the documented default
    scores = scripted_scores(rng, epochs)
    ctx.case((texts, hyper, scores))
    features, labels = extractors(hyper, docs)
    asked = []

    def dev_tester(tagger):
        asked.append(str(tagger))
        return scores[len(asked) - 1]

    path = os.path.join(ctx.scratch, 'c31-{}'.format(ctx.index))
    data = feat.dataset(rng, docs)
    with Watch(fake=True, keep=epochs > 9) as watch:
        results = neural.train(data, hyper, path, dev_tester=dev_tester)
    ctx.equal([r[0] for r in results], scores, 'given development scores')
    ctx.equal(len(asked), epochs, 'number of development tests')
    sentences = feat.sentences(docs)
    size = hyper['batch_size']
    groups = [sentences[k:k + size] for k in range(0, len(sentences), size)]
    ctx.equal(len(watch.batches), epochs * len(groups), 'number of batches')
    wanted = [(plain(features.get_features(g)), plain(labels.get_features(g))) for g in groups]
    rates = schedule(hyper['nn_config']['general']['optimizer'], [s['UPOS'].aligned_accuracy + 0.5 for s in scores])
    hidden, inputs = 0, 0
    for k, (fs, ls) in enumerate(watch.batches):
        epoch, batch = divmod(k, len(groups))
        ctx.event('batches')
        ctx.event('sentences', len(groups[batch]))
        if sparse == 0:
            ctx.equal(fs, wanted[batch][0], 'features of batch {} of epoch {}'.format(batch, epoch))
        else:
            ctx.equal(shape(fs), shape(wanted[batch][0]), 'shape of features of batch {} of epoch {}'.format(batch, epoch))
            for name, value in wanted[batch][0].items():
                if name in ('sentences_lengths', 'applicable_rules'):
                    ctx.equal(fs[name], value, name)
                    continue
                for x, y in zip(flat(fs[name]), flat(value)):
                    ctx.check(x == y or (x == OOV and y != PADDING), '{} of {} is given as {}', y, name, x)
                    if y not in (OOV, PADDING):
                        inputs += 1
                        hidden += x == OOV
        ctx.equal({n: v for n, v in ls.items() if n not in RATES}, wanted[batch][1], 'labels of batch {} of epoch {}'.format(batch, epoch))
        ctx.check(abs(ls['learning_rate'] - rates[epoch]) <= 1e-6 * rates[epoch], 'learning rate {} of epoch {}, expected {}',
                  ls['learning_rate'], epoch, rates[epoch])
        ctx.equal(ls['dropout_probability'], hyper['dropout'], 'dropout')
    if len(set(rates)) > 1:
        ctx.event('changed rates')
    if sparse:
        ctx.event('inputs which may be hidden', inputs)
        ctx.check(abs(hidden - inputs * sparse) <= 7 * math.sqrt(inputs * sparse * (1 - sparse)) + (2 if sparse < 1 else 0),
                  '{} of {} inputs are hidden with probability {}', hidden, inputs, sparse)


def flat(value):
    return [x for v in value for x in flat(v)] if isinstance(value, list) else [value]


def shape(value):
    if isinstance(value, dict):
        return {k: shape(v) for k, v in value.items()}
    return [shape(v) for v in value] if isinstance(value, list) else None


_COMBOS = list(itertools.product(range(4), range(4), range(4), range(4)))


def configurations(ctx):
    """every documented configuration trains and tags"""
    rng = ctx.rng
    if ctx.index < 16:  # a Latin square covers all pairs of shared part and splitting, and each with all others
        a, b = divmod(ctx.index, 4)
        c, d = (a + b) % 4, (a + 2 * b + b // 2) % 4
    else:
        a, b, c, d = _COMBOS[(ctx.index * 37 + ctx.seed * 11) % len(_COMBOS)]
    shared, splitting, lemma, aggregator = neural.SHARED[a], neural.SPLITTINGS[b], neural.LEMMAS[c], neural.AGGREGATORS[d]
    texts, docs = neural.treebank(rng, docs=2)
    emb = os.path.join(ctx.scratch, 'emb{}'.format(ctx.index))
    neural.word_file(emb, rng, texts)
    features = ['word_characters'] + rng.sample(['word_embedding', 'word_trained_embedding'], rng.randint(0, 2))
    hyper = neural.config(rng, emb, rng.choice([['pos', 'lemma'], ['lemma', 'pos']]), shared, splitting, lemma, aggregator, features, epochs=2,
                          dropout=rng.choice([1.0, 0.5]))
    if rng.random() < 0.4:
        # pretrained vectors of the characters
        hyper['nn_config']['shared_part']['features_config']['word_characters'].update(
            embedding_path=characters(os.path.join(ctx.scratch, 'chars{}'.format(ctx.index)), rng, texts, 4), trainable=rng.random() < 0.5)
    if rng.random() < 0.4:
        hyper['nn_config']['lemma']['features_config']['input_subwords']['embedding_path'] = characters(
            os.path.join(ctx.scratch, 'in{}'.format(ctx.index)), rng, texts, 4)
    hyper['nn_config']['shared_part']['config']['sparse_input_prob'] = rng.choice([0, 0, 0.2])
    ctx.case((shared, splitting, lemma, aggregator, hyper, texts))
    ctx.event('{} {}'.format(shared, splitting))
    path = os.path.join(ctx.scratch, 'c31c-{}'.format(ctx.index))
    with Watch(fake=False) as watch:
        results = neural.train(docs, hyper, path)
    ctx.event('configurations')
    ctx.equal(len(results), 2, 'number of models')
    for _, ls in watch.batches:
        ctx.event('batches')
        # a word whose rule was dropped by the threshold has a label which the network cannot give: its loss has no bound
        bounded = hyper['nn_config']['lemma']['features_config']['lemma_suffix_transformation']['rules_threshold'] == 0
        ctx.check(ls['loss'] >= 0 and (math.isfinite(ls['loss']) or not bounded), 'loss {}', ls['loss'])
    out = list(results[-1][1].tag(iter([feat.blank(d) for d in docs])))
    ctx.equal([ref.skeleton(d) for d in out], [ref.skeleton(d) for d in docs], 'tagged documents')
    for d in out:
        for t in d.tokens:
            ctx.check(t.pos is not None and t.lemma is not None, 'no tags for {}', t.text)


def characters(path, rng, texts, dim):
    chars = sorted({c for d in texts for w in gen.doc_words(d) for c in w.form if not c.isspace()})
    with open(path, 'w', encoding='utf8') as f:
        for c in chars:
            if len(c.split()) == 1 and rng.random() < 0.8:
                f.write('{} {}\n'.format(c, ' '.join(str(round(rng.uniform(-1, 1), 3)) for _ in range(dim))))
        f.write('zz ' + ' '.join(['0.5'] * dim) + '\n')
    return path


def learning(ctx):
    """the networks learn a tiny unambiguous treebank: the labels belong to the words they are given with"""
    rng = ctx.rng
    words = ['alpha', 'beta', 'gamma', 'delta', 'omega', 'kappa']
    lex = {w: (rng.choice(['NOUN', 'VERB', 'ADJ']), rng.choice(['a', 'b']), {'Case': rng.choice(['Nom', 'Acc'])}, w[:-1] + rng.choice(['o', 'us']))
           for w in words}
    doc = []
    for _ in range(6):
        sent = []
        for w in rng.sample(words, rng.randint(2, 5)):
            u, x, f, l = lex[w]
            sent.append(gen.Unit(w, [gen.Word(w, l, u, x, f, None, None)], False, True))
        doc.append(sent)
    documents = [gen.build_document(neural.dm, [s]) for s in doc]
    shared = neural.SHARED[ctx.index % 4]
    lemma = ['lemma_suffix', 'lemma_dense', 'lemma_binary', 'lemma_suffix'][ctx.index // 4 % 4]
    hyper = neural.config(rng, None, ['pos', 'lemma'], shared, neural.SPLITTINGS[(ctx.index + ctx.index // 4) % 4], lemma, 'average', ['word_trained_embedding'],
                          epochs=120, batch_size=2)
    nn = hyper['nn_config']
    nn['general']['optimizer'].update(type='Adam', initial_lr=0.03, lr_decrease_factor=1, lr_decay=0.0)
    nn['shared_part']['features_config']['word_trained_embedding'].update(min_frequency=1, size=8)
    nn['shared_part']['config'].update(lstm_cell_size=8, cnn_kernels=[{'size': 3, 'count': 16, 'dilation': 1}])
    nn['pos']['config']['dense_size'] = nn['lemma']['config']['dense_size'] = 16
    for t in ('pos', 'lemma'):
        nn[t]['config'].pop('loss_weights', None)
    nn['lemma']['features_config']['lemma_suffix_transformation']['rules_threshold'] = 0
    ctx.case((shared, lemma, doc))
    # the result depends on the random initial values: it is enough that one of the seeds learns
    for seed in range(1, 6):
        with Watch(fake=False) as watch, no_saving(120):
            tagger = neural.train(documents, hyper, os.path.join(ctx.scratch, 'c31l-{}-{}'.format(ctx.index, seed)), seed=seed)[-1][1]
        first = sum(ls['loss'] for _, ls in watch.batches[:3])
        last = sum(ls['loss'] for _, ls in watch.batches[-3:])
        right = total = 0
        for d, r in zip(documents, tagger.tag(iter([feat.blank(d) for d in documents]))):
            for t, u in zip(d.tokens, r.tokens):
                total += 2
                right += (ref.pos_view(t.pos) == ref.pos_view(u.pos)) + (t.lemma == u.lemma)
        if last < first * 0.8 and right >= 0.7 * total:
            break
    ctx.event('learned')
    ctx.event('seeds tried', seed)
    ctx.check(last < first * 0.8, 'the loss does not decrease: {} to {}', first, last)
    ctx.check(right >= 0.7 * total, 'only {} of {} labels of the training words are learned', right, total)


class no_saving(object):
    """saving takes most of the time of many short epochs: keep the last one"""

    def __init__(self, epochs):
        self.epochs, self.count = epochs, 0

    def __enter__(self):
        self.old = Model.save

        def save(model, path):
            self.count += 1
            if self.count >= self.epochs:
                return self.old(model, path)

        Model.save = save
        return self

    def __exit__(self, *args):
        Model.save = self.old


def setup(ctx):
    pass


setup.big = True
WALL = 400


def parts(tier):
    return [Part('feeds', feeds, 80, 800, timeout=200, required=['batches', 'sentences', 'changed rates']),
            Part('configurations', configurations, 40, 320, timeout=200, required=['configurations']),
            Part('learning', learning, 16, 96, timeout=400, required=['learned'])]
