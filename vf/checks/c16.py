"""C16: the trie finds for every word exactly the rules which can be applied to it, each with its own label."""
import itertools

from vf import gen
from vf.core import Part
from babylondigger.lemmas.transformation_rules import LemmaSuffixTransformation as Rule, LemmaTransformationTrie as Trie

RULE = ('a case is a set of labelled rules and words to look up (own words, words with the same endings, the endings themselves, '
        'others); answers of the real trie are compared with a scan over all rules; non-trivial when there are at least two rules')


def lookup(ctx, trie, rules, word):
    got = trie.get_applicable_rules(word)
    ctx.event('lookups')
    pairs = [(r.word_suffix, r.lemma_suffix, r.is_regular, label) for r, label in got]
    must, may = [], []
    for r, label in rules:
        item = (r.word_suffix, r.lemma_suffix, r.is_regular, label)
        if r.is_regular:
            # a regular rule keeps at least one letter of the word; for the ending itself both answers are fine
            if word.endswith(r.word_suffix):
                (must if len(word) > len(r.word_suffix) else may).append(item)
        elif word == r.word_suffix:
            must.append(item)
    ctx.event('found', len(must))
    extra = list(pairs)
    for item in must:
        ctx.check(item in extra, 'rule {} is not found for {} (found {})', item, word, pairs)
        extra.remove(item)
    for item in extra:
        ctx.check(item in may, 'rule {} is found for {}', item, word)
        may.remove(item)


_SUF = ['', 'a', 'b', 'ab', 'ba', 'aab', 'bb']
_WORDS = [''.join(p) for n in range(1, 6) for p in itertools.product('ab', repeat=n)]


def enumerated(ctx):
    rng = ctx.rng
    rules = []
    for _ in range(rng.randint(0, 9)):
        s = rng.choice(_SUF)
        rules.append(Rule(s, rng.choice(['', 'x', 'y']), rng.random() < 0.4 and bool(s)))
    rules = [(r, k) for k, r in enumerate(dict.fromkeys(rules))]
    ctx.case(rules, nontrivial=len(rules) > 1)
    trie = Trie.build(iter(rules))
    for word in _WORDS:
        lookup(ctx, trie, rules, word)


def corpus(ctx):
    rng = ctx.rng
    pairs = []
    for _ in range(rng.randint(1, 25)):
        w = gen.word(rng).lower()
        pairs.append((w, gen.lemma(rng, w) or w))
        if rng.random() < 0.4:
            w2 = gen.word(rng).lower() + w[-rng.randint(1, len(w)):]
            pairs.append((w2, gen.lemma(rng, w2) or w2))
    rules = [(r, k) for k, r in enumerate(sorted({Rule.get_rule(w, x) for w, x in pairs}))]
    ctx.case(pairs)
    trie = Trie.build(iter(rules) if rng.random() < 0.5 else rules)
    labels = dict(rules)
    for w, lem in pairs:
        found = trie.get_applicable_rules(w)
        rule = Rule.get_rule(w, lem)
        if len(w) > len(rule.word_suffix) or not rule.is_regular:
            ctx.check((rule, labels[rule]) in [(r, k) for r, k in found], 'rule of {} -> {} is not found: {}', w, lem, found)
        for r, _ in found:
            ctx.check(r.is_applicable(w), 'rule {} for {} is not applicable', r, w)
            r.transform(w)
        for other in (w, w[1:], 'x' + w, w + 'x', rule.word_suffix, w[::-1]):
            if other:
                lookup(ctx, trie, rules, other)


def many(ctx):
    """many rules with the same ending, also of the kind of whole words"""
    rng = ctx.rng
    ending = gen.word(rng).lower()[-3:]
    rules = []
    for k in range(rng.choice([6, 20, 70, 300])):
        rules.append(Rule(rng.choice([ending, ending[1:], 'x' + ending]), gen.word(rng).lower() + str(k), rng.random() < 0.5 and k % 3 > 0))
    rules = [(r, k) for k, r in enumerate(dict.fromkeys(rules)) if r.is_regular or r.word_suffix]
    ctx.case(rules)
    trie = Trie.build(iter(rules))
    for word in (ending, 'x' + ending, 'y' + ending, ending[1:], 'yx' + ending, ending + 'q'):
        if word:
            lookup(ctx, trie, rules, word)
    # many different endings
    words = {gen.word(rng).lower() for _ in range(rng.choice([50, 400]))}
    rules = [(Rule(w, 'y', rng.random() < 0.3), k) for k, w in enumerate(sorted(words))]
    trie = Trie.build(iter(rules))
    for word in rng.sample(sorted(words), min(len(words), 10)):
        lookup(ctx, trie, rules, word)
        lookup(ctx, trie, rules, 'zz' + word)


def parts(tier):
    return [Part('enumerated', enumerated, 800, 10000, required=['lookups', 'found']),
            Part('many', many, 60, 600),
            Part('corpus', corpus, 1500, 20000)]
