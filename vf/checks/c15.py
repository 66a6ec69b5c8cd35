"""C15: the rule made of a word and its lemma turns the word into the lemma, and cuts no more than needed."""
import itertools

from vf import gen
from vf.core import Part
from babylondigger.lemmas.transformation_rules import LemmaSuffixTransformation as Rule

RULE = ('a case is a pair of strings (all pairs up to length 4 over two letters, random and odd pairs); the rule is applied to its own '
        'word, to words with the same ending and to words with another ending; non-trivial when word and lemma are different')


def common(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    return n


def decide(ctx, word, lemma):
    rule = Rule.get_rule(word, lemma)
    ctx.event('rules')
    ctx.check(rule.is_applicable(word), 'rule {} of {} -> {} is not applicable to its word', rule, word, lemma)
    ctx.equal(rule.transform(word), lemma, 'rule of {!r} -> {!r}'.format(word, lemma))
    n = common(word, lemma)
    ctx.equal((rule.word_suffix, rule.lemma_suffix), (word[n:], lemma[n:]), 'suffixes of {!r} -> {!r}'.format(word, lemma))
    ctx.equal(rule.is_regular, n > 0, 'regularity of {!r} -> {!r}'.format(word, lemma))
    ctx.equal(Rule.get_rule(word, lemma), rule, 'rule of the same pair')
    return rule


_STRINGS = [''.join(p) for n in range(5) for p in itertools.product('ab', repeat=n)]


def enumerated(ctx):
    word = _STRINGS[ctx.index]
    ctx.case(word)
    for lemma in _STRINGS:
        rule = decide(ctx, word, lemma)
        if not rule.is_regular:
            continue
        for other in _STRINGS:
            transfer(ctx, rule, other)


def transfer(ctx, rule, other):
    fits = other.endswith(rule.word_suffix)
    ctx.equal(rule.is_applicable(other), fits, 'rule {} for {!r}'.format(rule, other))
    if fits:
        ctx.event('applied')
        ctx.equal(rule.transform(other), other[:len(other) - len(rule.word_suffix)] + rule.lemma_suffix, 'rule {} for {!r}'.format(rule, other))
    else:
        ctx.rejects(lambda: rule.transform(other), 'rule {} for {!r}'.format(rule, other))


def pairs(ctx):
    rng = ctx.rng
    word = gen.word(rng)
    lemma = rng.choice([word, word.lower(), word + gen.word(rng), word[:rng.randint(0, len(word))] + gen.word(rng), gen.word(rng),
                        word[:rng.randint(0, len(word))], gen.lemma(rng, word) or ''])
    if rng.random() < 0.1:
        word, lemma = lemma, word
    ctx.case((word, lemma), nontrivial=word != lemma)
    rule = decide(ctx, word, lemma)
    if rule.is_regular:
        for other in (gen.word(rng), gen.word(rng) + rule.word_suffix, rule.word_suffix, word[1:], 'x' + word, lemma, word + 'x'):
            transfer(ctx, rule, other)


def parts(tier):
    return [Part('enumerated', enumerated, len(_STRINGS), len(_STRINGS), required=['rules', 'applied']),
            Part('pairs', pairs, 6000, 60000)]
