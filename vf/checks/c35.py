"""C35: whatever the network answers, the tags are tags of the training set and the lemmas come from its rules, lemmas or letters."""
import os
from collections import Counter

from vf import feat, gen, neural, ref
from vf.core import Part
from vf.checks import c17
from babylondigger.features.provider import FeatureExtractorBuilderProvider
from babylondigger.neural.model import Model
from babylondigger.neural.tagger.network_provider import get_nn_builder
from babylondigger.neural.tagger.neural_tagger import NeuralTagger

RULE = ('a case is a treebank, a configuration, a (hardly trained) network of a random seed and documents with hostile unknown words; every '
        'predicted tag and lemma is compared with what can be made of the training set; non-trivial when several rules compete for a word')
ASSUMPTIONS = ['the neural part runs over the TensorFlow 1 interface of the installed TensorFlow 2, on tiny networks']


def treebank(ctx):
    """no lemma is the form itself, so a wrong rule cannot hide behind the unchanged word"""
    rng = ctx.rng
    pool = []
    for form, lemma, upos, xpos, feats in feat.pool(rng, 8):
        if rng.random() < 0.8:
            low = form.lower()
            stem = low[:rng.randint(min(1, len(low) - 1), max(1, len(low) - 1))] if rng.random() < 0.8 else ''
            lemma = stem + rng.choice(['o', 'us', 'ir', 'qq'])
        pool.append((form, lemma, upos, xpos, feats))
    plain = [feat.simple_doc(rng, pool=pool, gran=True) for _ in range(3)]
    if ctx.index % 3 == 0:
        # no rule is applicable to all words
        def change(w):
            low = w.form.lower()
            return w._replace(lemma='qq' + low[:1]) if w.lemma.lower().startswith(low) else w
        plain = [[[u._replace(words=[change(w) for w in u.words]) for u in s] for s in d] for d in plain]
    return plain, [gen.build_document(neural.dm, d) for d in plain]


def applicable(rule, word):
    """must, may"""
    old, _, regular = rule
    if regular:
        return word.endswith(old) and len(word) > len(old), word.endswith(old)
    return word == old, word == old


def judge(ctx, hyper, docs, tagged):
    train = feat.tokens(docs)
    splitting, lemma = hyper['nn_config']['pos']['config']['splitting'], hyper['nn_config']['lemma']['builder']
    values = [c17.view(t.pos) for t in train]
    keys = sorted({k for _, _, fs in values for k, _ in fs})
    parts = [set(p) for p in zip(*[c17.split(splitting, v, keys) for v in values])]
    config = hyper['nn_config']['lemma']['features_config']
    counts = Counter(c17.rule_of(t) for t in train)
    threshold = config['lemma_suffix_transformation']['rules_threshold']
    top = c17.most_frequent(list(counts.elements()))
    kept = {r for r, n in counts.items() if n > threshold}
    lemmas = {t.lemma for t in train}
    letters = Counter(c for t in train for c in t.lemma)
    letters = {c for c, n in letters.items() if n >= config['output_subwords']['min_frequency']}
    for d in tagged:
        for t in d.tokens:
            ctx.event('tokens')
            if 'pos' in hyper['tasks']:
                v = c17.view(t.pos)
                ctx.check(set(dict(v[2])) <= set(keys), 'feature names {} of {} are not of the training set', v, t.text)
                for known, part in zip(parts, c17.split(splitting, v, keys)):
                    ctx.check(part in known, 'part {} of the tag of {} is not in the training set', part, t.text)
            else:
                ctx.check(t.pos is None or ref.pos_view(t.pos) == ref.pos_view(None), 'POS {} without a POS task', t.pos)
            if 'lemma' not in hyper['tasks']:
                ctx.equal(t.lemma, None, 'lemma without a lemma task')
            elif lemma == 'lemma_dense':
                ctx.check(t.lemma in lemmas, 'lemma {} of {} is not in the training set', t.lemma, t.text)
            elif lemma == 'lemma_combo':
                ctx.check(set(t.lemma) <= letters, 'letters of lemma {} are not in the training set', t.lemma)
                ctx.check(len(t.lemma) <= config['output_subwords']['max_word_length'], 'lemma {} is too long', t.lemma)
            else:
                word = t.text.lower()
                rules = kept | (top if len(top) == 1 else set())
                must = [r for r in rules if applicable(r, word)[0]]
                may = [r for r in kept | top if applicable(r, word)[1]]
                if must:
                    ctx.event('words with rules')
                    if len(must) > 1:
                        ctx.event('words with several rules')
                    allowed = {c17.apply(r, word) for r in may}
                else:
                    ctx.event('words without rules')
                    allowed = {c17.apply(r, word) for r in may} | {c17.apply(r, word) for r in top}
                ctx.check(t.lemma in allowed, 'lemma {} of {} does not come from an applicable rule: {}', t.lemma, t.text, sorted(allowed)[:8])


def answers(ctx):
    rng = ctx.rng
    texts, docs = treebank(ctx)
    emb = os.path.join(ctx.scratch, 'c35-emb-{}'.format(ctx.index))
    neural.word_file(emb, rng, texts)
    k = ctx.index
    lemma = ['lemma_suffix', 'lemma_binary', 'lemma_suffix', 'lemma_binary', 'lemma_dense', 'lemma_combo'][k % 6]
    hyper = neural.config(rng, emb, shared=rng.choice(['WE_charCNN', 'WE_charCNN', 'BiLSTM', 'Dilated_CNN']), pos=neural.SPLITTINGS[k % 4],
                          lemma=lemma)
    hyper['nn_config']['lemma']['features_config']['lemma_suffix_transformation']['rules_threshold'] = rng.choice([0, 0, 1, 2])
    nn = hyper['nn_config']
    ctx.case((hyper, texts))
    builder = get_nn_builder(nn['shared_part'], [nn[t] for t in hyper['tasks']], nn['general'], rng.randrange(1000))
    features, labels, interpreter, initializer = FeatureExtractorBuilderProvider(builder.feature_providers()).build(docs)
    network, graph = builder.build(initializer.shapes())
    unknown = [gen.build_document(neural.dm, gen.document(rng, sentences=3, big=12)) for _ in range(3)]
    shown = [feat.blank(d) for d in docs + unknown]
    with Model.new(network, graph) as model:
        model.initialize(**initializer.initial_values())
        tagger = NeuralTagger(features, model, interpreter)
        for steps in range(4):
            judge(ctx, hyper, docs, tagger.tag(iter(shown)))
            for s in feat.sentences(docs):
                ls = labels.get_features([s])
                ls['learning_rate'], ls['dropout_probability'] = 30.0 if steps == 2 else 0.5, 1.0  # at last answers of a great size
                model.train(features.get_features([s]), ls)


def likeliest(ctx):
    """the predicted label is the one the loss of which is the smallest"""
    rng = ctx.rng
    texts, docs = treebank(ctx)
    emb = os.path.join(ctx.scratch, 'c35-like-{}'.format(ctx.index))
    neural.word_file(emb, rng, texts)
    k = ctx.index
    task = ['pos', 'lemma'][k % 2]
    lemma = ['lemma_dense', 'lemma_suffix'][k // 2 % 2]
    hyper = neural.config(rng, emb, shared=rng.choice(['WE_charCNN', 'BiLSTM', 'Dilated_CNN']), pos=neural.SPLITTINGS[k // 2 % 4],
                          lemma=lemma, tasks=[task])
    hyper['nn_config']['lemma']['features_config']['lemma_suffix_transformation']['rules_threshold'] = 0
    nn = hyper['nn_config']
    ctx.case((hyper, texts))
    builder = get_nn_builder(nn['shared_part'], [nn[t] for t in hyper['tasks']], nn['general'], rng.randrange(1000))
    features, labels, interpreter, initializer = FeatureExtractorBuilderProvider(builder.feature_providers()).build(docs)
    network, graph = builder.build(initializer.shapes())
    train = feat.tokens(docs)
    rules = {c17.rule_of(t) for t in train}
    with Model.new(network, graph) as model:
        model.initialize(**initializer.initial_values())

        def loss(text, pos, lemma, lr=0.0):
            t = neural.dm.Token(0, len(text), pos, lemma)
            s = feat.sentences([neural.dm.Document(text, [t], [neural.dm.Sentence(0, 1)])])
            ls = labels.get_features(s)
            ls['learning_rate'], ls['dropout_probability'] = lr, 1.0
            return float(model.train(features.get_features(s), ls))
        tagger = NeuralTagger(features, model, interpreter)
        words = sorted({t.text for t in train} | {'ab', 'Ab', 'ing', 'aeb'})
        rng.shuffle(words)
        poses = sorted({c17.view(t.pos): t.pos for t in train}.items(), key=repr)
        poses = [p for _, p in poses]
        lemmas = sorted({t.lemma for t in train})
        for n, text in enumerate(words[:10]):
            doc = neural.dm.Document(text, [neural.dm.Token(0, len(text))], [neural.dm.Sentence(0, 1)])
            answer = next(iter(tagger.tag(iter([doc])))).get_token(0)
            if task == 'pos':
                best = loss(text, answer.pos, None)
                others = [(c17.view(p), loss(text, p, None)) for p in poses]
            else:
                if lemma == 'lemma_dense':
                    candidates = lemmas
                else:
                    low = text.lower()
                    able = [r for r in rules if applicable(r, low)[0]]
                    if any(applicable(r, low)[0] != applicable(r, low)[1] for r in rules):
                        continue
                    made = Counter(c17.apply(r, low) for r in able)
                    candidates = [c for c in made if made[c] == 1]
                    if not able or made[answer.lemma] != 1:
                        continue
                if answer.lemma not in candidates:
                    ctx.check(False, 'lemma {} of {} is not one of {}', answer.lemma, text, candidates)
                best = loss(text, None, answer.lemma)
                others = [(c, loss(text, None, c)) for c in candidates]
            ctx.event('answers')
            for other, value in others:
                if value > best + 1e-5 * max(1, abs(best)):
                    ctx.event('less likely labels')
                ctx.check(best <= value + 1e-5 * max(1, abs(best)), 'the answer for {} is {} of the loss {}, but the loss of {} is {}', text,
                          (ref.pos_view(answer.pos), answer.lemma), best, other, value)
            if n % 4 == 3:
                some = rng.choice(train)
                loss(some.text, some.pos, some.lemma, lr=0.3)


def setup(ctx):
    pass


setup.big = True
WALL = 400


def parts(tier):
    return [Part('answers', answers, 72, 720, timeout=200,
                 required=['tokens', 'words with several rules', 'words without rules']),
            Part('likeliest', likeliest, 24, 240, timeout=200, required=['answers', 'less likely labels'])]
