"""C17: labels are lossless: what the extractor encodes, the interpreter gives back, for every splitting and lemma encoding."""
from collections import Counter

import numpy as np

from vf import feat, gen
from vf.checks import c18  # replaces the downloaded BPE models first
from vf.core import Part
import babylondigger.datamodel as dm
from babylondigger.features import extractors as ex, provider

RULE = ('a case is a training corpus, an encoding (four POS splittings, lemma dictionary, suffix rules with a threshold, characters or subwords with '
        'length and frequency bounds) and a second corpus with unseen values; every token is encoded and decoded and compared with the '
        'annotation, every label of the declared range is decoded; non-trivial when the corpus has at least two different labels')

SPLITTINGS = ['pos_joint', 'pos_XF', 'pos_UXF', 'pos_gran']


def view(pos):
    return pos.upos, pos.xpos, tuple(sorted(pos.feats.items()))


def split(splitting, v, keys):
    upos, xpos, feats = v
    if splitting == 'pos_joint':
        return [v]
    if splitting == 'pos_XF':
        return [upos, (xpos, feats)]
    if splitting == 'pos_UXF':
        return [upos, xpos, feats]
    feats = dict(feats)
    return [upos, xpos] + [feats.get(k) for k in keys]


def most_frequent(values):
    counts = Counter(values)
    top = max(counts.values())
    return {v for v, c in counts.items() if c == top}


def in_range(ctx, ids, sizes, what):
    ids = list(ids)
    ctx.equal(len(ids), len(sizes), 'number of labels of ' + what)
    for i, n in zip(ids, sizes):
        ctx.check(isinstance(i, int) and 0 <= i < n, 'label {} of {} is outside of [0, {})', i, what, n)
    return ids


def kept(ctx, before, after, lemma=False, pos=False):
    ctx.equal(feat.rest_view(after), feat.rest_view(before), 'other fields after interpretation')
    if lemma:
        ctx.equal(after.lemma, before.lemma, 'lemma after interpretation of POS labels')
    if pos:
        ctx.equal(after.pos, before.pos, 'POS after interpretation of lemma labels')


def emptied(rng, pool):
    """some analyses again with an empty tag or feature value (a column like `Case=`), which is not the same as none"""
    result = list(pool)
    for form, lemma, upos, xpos, feats in pool:
        if rng.random() < 0.5:
            feats = {k: '' if rng.random() < 0.5 else v for k, v in feats.items()}
            result.append((form, lemma, '' if rng.random() < 0.2 else upos, '' if rng.random() < 0.4 else xpos, feats))
    return result


def pos(ctx):
    rng = ctx.rng
    splitting = SPLITTINGS[ctx.index % 4]
    pool = feat.pool(rng)
    if rng.random() < 0.3:
        pool = emptied(rng, pool)
    plain, docs = feat.corpus(rng, pool=pool, gran=True, syntax=rng.random() < 0.3)
    _, others = feat.corpus(rng, docs=1, pool=pool, gran=True)
    ctx.case((splitting, plain), nontrivial=len({view(t.pos) for t in feat.tokens(docs)}) > 1)
    extractor, interpreter, initializer = ex.PosDictFeatureExtractorBuilder('labels', splitting).build(feat.dataset(rng, docs))
    sizes = list(initializer.shapes()['labels'].values())
    train = feat.tokens(docs)
    values = [view(t.pos) for t in train]
    keys = sorted({k for _, _, fs in values for k, _ in fs})
    parts = list(zip(*[split(splitting, v, keys) for v in values]))
    ctx.equal(len(sizes), len(parts), 'number of label parts')
    rest = dict(lemma=True)
    for doc in docs:
        clean = feat.tokens([feat.blank(doc)])
        for t, target in zip(feat.tokens([doc]), clean):
            ids = in_range(ctx, extractor.get_features(t)['labels'], sizes, repr(t.pos))
            for base in (t, target):
                done = interpreter.interpret(base, {'labels': rng.choice([ids, np.array(ids, dtype=np.int32)])})
                ctx.event('round trips')
                ctx.equal(view(done.pos), view(t.pos), 'POS decoded from labels {}'.format(ids))
                kept(ctx, base, done, **rest)
    # unseen analyses: every known part is kept, every unknown one becomes a most frequent value
    for t in feat.tokens(others):
        ids = in_range(ctx, extractor.get_features(t)['labels'], sizes, repr(t.pos))
        done = interpreter.interpret(t, {'labels': ids})
        got, want = split(splitting, view(done.pos), keys), split(splitting, view(t.pos), keys)
        for k, (g, w) in enumerate(zip(got, want)):
            if w in parts[k]:
                ctx.event('seen parts')
                ctx.equal(g, w, 'known part {} of {}'.format(k, t.pos))
            else:
                ctx.event('unseen parts')
                ctx.check(g in most_frequent(parts[k]), 'unseen part {} becomes {} which is not the most frequent', w, g)
                ctx.equal(ids[k], 0, 'label of an unseen part')
    # every label of the declared range can be decoded and means a value of the training data
    for _ in range(10):
        ids = [rng.randrange(n) for n in sizes]
        done = interpreter.interpret(train[0], {'labels': ids})
        for k, g in enumerate(split(splitting, view(done.pos), keys)):
            ctx.check(g in parts[k], 'label {} of part {} decodes to unknown {}', ids[k], k, g)
    for k, n in enumerate(sizes):
        ctx.equal(n, len(set(parts[k])), 'number of labels of part {}'.format(k))


def lemma_dict(ctx):
    rng = ctx.rng
    pool = feat.pool(rng)
    plain, docs = feat.corpus(rng, pool=pool)
    _, others = feat.corpus(rng, docs=1, pool=pool)
    train = feat.tokens(docs)
    lemmas = [t.lemma for t in train]
    ctx.case(plain, nontrivial=len(set(lemmas)) > 1)
    extractor, interpreter, initializer = ex.LemmaDictFeatureExtractorBuilder('l').build(feat.dataset(rng, docs))
    sizes = list(initializer.shapes()['l'].values())
    ctx.equal(sizes, [len(set(lemmas))], 'number of lemma labels')
    for t in train + feat.tokens(others):
        ids = in_range(ctx, extractor.get_features(t)['l'], sizes, repr(t.lemma))
        done = interpreter.interpret(t, {'l': np.array(ids)})
        if t.lemma in lemmas:
            ctx.event('round trips')
            ctx.equal(done.lemma, t.lemma, 'lemma decoded from {}'.format(ids))
        else:
            ctx.event('unseen parts')
            ctx.check(done.lemma in most_frequent(lemmas), 'unseen lemma becomes {}', done.lemma)
            ctx.equal(ids, [0], 'label of an unseen lemma')
        kept(ctx, t, done, pos=True)
    ctx.equal({interpreter.interpret(train[0], {'l': [i]}).lemma for i in range(sizes[0])}, set(lemmas), 'lemmas of all labels')


def rule_of(t):
    word, lemma = t.text.lower(), t.lemma.lower()
    n = 0
    while n < min(len(word), len(lemma)) and word[n] == lemma[n]:
        n += 1
    return word[n:], lemma[n:], n > 0


def apply(rule, word):
    """what the interpretation of a predicted rule gives"""
    if word.endswith(rule[0]):
        return word[:len(word) - len(rule[0])] + rule[1]
    return word


def suffix(ctx):
    rng = ctx.rng
    pool = feat.pool(rng)
    plain, docs = feat.corpus(rng, pool=pool)
    _, others = feat.corpus(rng, docs=1, pool=pool)
    threshold = rng.choice([0, 0, 0, 1, 1, 2, 3, 5])
    train = feat.tokens(docs)
    counts = Counter(rule_of(t) for t in train)
    top = {r for r, c in counts.items() if c == max(counts.values())}
    ctx.case((threshold, plain), nontrivial=len(counts) > 1)
    rules = ex.CachedSuffixRulesBuilder(threshold)
    data = feat.dataset(rng, docs)
    makers = [lambda: ex.LemmaSuffixTransformationFeatureExtractorBuilder('r', rules).build(data),
              lambda: ex.ApplicableSuffixTransformationsBuilder('m', rules).build(data)]
    if rng.random() < 0.5:
        mask_ex, _, mask_init = makers[1]()
        extractor, interpreter, initializer = makers[0]()
    else:
        extractor, interpreter, initializer = makers[0]()
        mask_ex, _, mask_init = makers[1]()
    sizes = list(initializer.shapes()['r'].values())
    ctx.equal(list(mask_init.shapes()['m']), sizes, 'size of the applicability mask')
    frequent = {r for r, c in counts.items() if c > threshold}
    ctx.equal(sizes[0], len(frequent) if frequent else 1, 'number of rules seen more than {} times'.format(threshold))
    # which rule is the most frequent one (ties)
    id_of, default = {}, None
    for t in train:
        r = rule_of(t)
        i = in_range(ctx, extractor.get_features(t)['r'], sizes, repr(r))[0]
        if r in frequent:
            ctx.check(id_of.setdefault(r, i) == i, 'different labels of the rule {}', r)
            if i == 0:
                default = r
        else:
            ctx.equal(i, 0, 'label of the rare rule {}'.format(r))
    ctx.equal(len(set(id_of.values())), len(id_of), 'different rules have different labels')
    candidates = {default} if default is not None else set(top)
    ctx.check(candidates <= top, 'label 0 means {} which is not the most frequent rule', default)
    rule_by_id = {i: r for r, i in id_of.items()}
    for t in train + feat.tokens(others):
        r, word = rule_of(t), t.text.lower()
        ids = in_range(ctx, extractor.get_features(t)['r'], sizes, repr(r))
        done = interpreter.interpret(t, {'r': rng.choice([ids, np.array(ids)])})
        kept(ctx, t, done, pos=True)
        mask = mask_ex.get_features(t)['m']
        ctx.equal(len(mask), sizes[0], 'length of the mask')
        if r in frequent:
            ctx.event('round trips')
            ctx.equal(done.lemma, t.lemma.lower(), 'lemma of {!r} decoded from rule {}'.format(t.text, r))
            if not (r[2] and word == r[0]):
                ctx.check(mask[ids[0]], 'own rule {} of {} is masked', r, word)
        else:
            ctx.event('unseen parts')
            ctx.equal(ids, [0], 'label of an unknown rule')
            candidates = {c for c in candidates if apply(c, word) == done.lemma}
            ctx.check(candidates, 'unknown rule {} for {} decodes to {}', r, word, done.lemma)
        for i, rule in rule_by_id.items():
            fits = word.endswith(rule[0]) if rule[2] else word == rule[0]
            ctx.event('mask bits')
            if not (rule[2] and word == rule[0]):
                ctx.check(bool(mask[i]) == fits, 'applicability of {} to {} is {}', rule, word, mask[i])
            if fits or not word.endswith(rule[0]):
                got = interpreter.interpret(t, {'r': [i]})
                ctx.equal(got.lemma, apply(rule, word), 'rule {} for {!r}'.format(rule, word))
                kept(ctx, t, got, pos=True)


def again(ctx):
    """one provider used for several training sets, each gone when the next one comes, gives each its own rules"""
    rng = ctx.rng
    pool = feat.pool(rng)
    maker = provider.LemmaTransformationExtractorProvider('m', 'r', {'rules_threshold': 0})
    seen = []
    for _ in range(rng.randint(2, 6)):
        plain, docs = feat.corpus(rng, docs=rng.randint(1, 3), pool=pool)
        data = feat.dataset(rng, docs)
        seen.append(plain)
        rules = {rule_of(t) for t in feat.tokens(docs)}
        builders = [maker.labels_extractor_builder(), maker.feature_extractor_builder()]
        order = [0, 1] if rng.random() < 0.5 else [1, 0]
        built = {k: builders[k].build(data) for k in order}
        extractor, interpreter, initializer = built[0]
        ctx.event('training sets')
        ctx.equal(list(initializer.shapes()['r'].values()), [len(rules)], 'number of rules of training set {}'.format(len(seen)))
        ctx.equal(list(built[1][2].shapes()['m']), [len(rules)], 'size of the applicability mask')
        for s in feat.sentences(docs):
            labels = extractor.get_features([s])
            done = list(interpreter.interpret([s], labels))[0]
            ctx.equal([t.lemma for t in done], [t.lemma.lower() for t in s], 'lemmas of training set {}'.format(len(seen)))
        del plain, docs, data, built, extractor, interpreter, initializer, builders
    ctx.case(seen, nontrivial=len(seen) > 1)


def chars(ctx):
    output_pieces(ctx, 'char', None, list)


def pieces(ctx):
    kind, config, cut = c18.segmentation(ctx)
    output_pieces(ctx, kind, config, cut)


def output_pieces(ctx, kind, segmenter_config, cut):
    rng = ctx.rng
    pool = feat.pool(rng)
    plain, docs = feat.corpus(rng, pool=pool)
    _, others = feat.corpus(rng, docs=1, pool=pool)
    limit, minimum = rng.choice([1, 2, 3, 4, 5, 8, 12, 15, 40]), rng.choice([0, 1, 1, 1, 2, 3, 6])
    train = feat.tokens(docs)
    counts = Counter(c for t in train for c in cut(t.lemma))
    ctx.case((kind, limit, minimum, plain), nontrivial=len(counts) > 1)
    config = {'min_frequency': minimum, 'max_word_length': limit, 'segmenter': kind}
    if segmenter_config:
        config['segmenter_config'] = segmenter_config
    extractor, interpreter, initializer = ex.LemmaCharFeatureExtractorBuilder('c', config).build(feat.dataset(rng, docs))
    size = list(initializer.shapes()['c'])
    known = {c for c, n in counts.items() if n >= minimum}
    ctx.equal(size, [len(known) + 4], 'number of character labels')
    char_of = {}
    for t in train + feat.tokens(others):
        ids = extractor.get_features(t)['c']
        in_range(ctx, ids, size * limit, repr(t.lemma))
        lemma = cut(t.lemma)
        full = [2] + [None] * len(lemma) + [3]
        full = (full + [0] * limit)[:limit]
        for k, i in enumerate(ids):
            if full[k] is not None:
                ctx.equal(i, full[k], 'label at {} of {!r} (limit {})'.format(k, t.lemma, limit))
            elif lemma[k - 1] in known:
                ctx.check(i >= 4 and char_of.setdefault(i, lemma[k - 1]) == lemma[k - 1],
                          'label {} of {} means also {}', i, lemma[k - 1], char_of.get(i))
            else:
                ctx.equal(i, 1, 'label of the unknown {!r}'.format(lemma[k - 1]))
        done = interpreter.interpret(t, {'c': rng.choice([ids, np.array(ids, dtype=np.int32)])})
        ctx.event('round trips')
        ctx.equal(done.lemma, ''.join(c for c in lemma[:limit - 1] if c in known), 'lemma decoded from {}'.format(ids))
        kept(ctx, t, done, pos=True)
    # any predicted sequence is decoded up to its end
    for _ in range(8):
        ids = [rng.choice([0, 1, 2, 3, rng.randrange(size[0]), rng.randrange(size[0])]) for _ in range(limit)]
        if all(i < 4 or i in char_of for i in ids):
            want = ids[:ids.index(3)] if 3 in ids else ids
            got = interpreter.interpret(train[0], {'c': ids}).lemma
            ctx.event('sequences')
            ctx.equal(got, ''.join(char_of[i] for i in want if i > 3), 'lemma decoded from {}'.format(ids))
        else:
            interpreter.interpret(train[0], {'c': ids})


def batch(ctx):
    """the assembled labels of several tasks for batches of sentences of different length"""
    rng = ctx.rng
    pool = feat.pool(rng)
    plain, docs = feat.corpus(rng, pool=pool, gran=True)
    splitting = rng.choice(SPLITTINGS)
    lemma = rng.choice(['dict', 'suffix', 'chars', None])
    providers = [provider.PosDictExtractorProvider('pos_labels', splitting)] if lemma is None or rng.random() < 0.8 else []
    with_pos = bool(providers)
    longest = max(len(t.lemma) for t in feat.tokens(docs))
    if lemma == 'dict':
        providers.append(provider.LemmaDictExtractorProvider('lemma_labels'))
    elif lemma == 'suffix':
        providers.append(provider.LemmaTransformationExtractorProvider('applicable', 'rules', {'rules_threshold': 0}))
    elif lemma == 'chars':
        providers.append(provider.LemmaCharExtractorProvider('chars', {'min_frequency': 1, 'max_word_length': longest + 2, 'segmenter': 'char'}))
    rng.shuffle(providers)
    ctx.case((splitting, lemma, plain))
    _, label_extractor, interpreter, _ = provider.FeatureExtractorBuilderProvider(providers).build(feat.dataset(rng, docs))
    gold = feat.sentences(docs)
    clean = feat.sentences([feat.blank(d) for d in docs])
    order = list(range(len(gold)))
    rng.shuffle(order)
    while order:
        k = rng.randint(1, 4)
        group, order = order[:k], order[k:]
        labels = label_extractor.get_features([gold[i] for i in group])
        predicted = {name: np.array(value, dtype=np.int32) for name, value in labels.items()}
        results = list(interpreter.interpret([clean[i] for i in group], predicted))
        ctx.equal(len(results), len(group), 'interpreted sentences')
        for i, result in zip(group, results):
            result = list(result)
            ctx.equal(len(result), gold[i].tokens_count, 'interpreted tokens')
            for t, c, done in zip(gold[i], clean[i], result):
                ctx.event('round trips')
                ctx.equal(feat.rest_view(done), feat.rest_view(t), 'other fields')
                ctx.equal(view(done.pos) if done.pos else None, view(t.pos) if with_pos else None, 'POS')
                expected = {'suffix': t.lemma.lower(), None: None}.get(lemma, t.lemma)
                ctx.equal(done.lemma, expected, 'lemma')


def parts(tier):
    return [Part('pos', pos, 1600, 20000, required=['round trips', 'unseen parts', 'seen parts']),
            Part('lemma_dict', lemma_dict, 500, 6000),
            Part('suffix', suffix, 1000, 15000, required=['mask bits']),
            Part('again', again, 300, 3000, required=['training sets']),
            Part('chars', chars, 800, 10000, required=['sequences']),
            Part('pieces', pieces, 400, 5000, required=['sequences']),
            Part('batch', batch, 800, 10000)]
