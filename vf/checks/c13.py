"""C13: the scorer loads every well-formed treebank and refuses every malformed one."""
import io

from vf import gen, ref
from vf.core import Part
from vf.checks.c12 import pair, printed, flat
from babylondigger.evaluation import conll17_ud_eval as ud

RULE = ('a case is a well-formed treebank (loaded: spans, words and parents are compared) or one with a single defect (columns, ids, '
        'heads, roots, cycles, forms, multiword ranges, missing end of sentence), which has to be refused')


def load(text):
    return ud.load_conllu(io.StringIO(text))


def wellformed(ctx):
    rng = ctx.rng
    doc = pair(rng)[0] if rng.random() < 0.6 else gen.document(rng, big=60, syntax=True)
    if any(not u.surface.replace(' ', '') for s in doc for u in s):
        return
    text = printed(rng, doc)
    if rng.random() < 0.2:
        text = text.replace('\n', '\r\n')
    ctx.case(text)
    loaded = load(text)
    ctx.event('accepted')
    chars, tokens, sents, words = flat(doc)
    ctx.equal(list(loaded.characters), chars, 'characters')
    ctx.equal([(t.start, t.end) for t in loaded.tokens], tokens, 'tokens')
    ctx.equal([(t.start, t.end) for t in loaded.sentences], sents, 'sentences')
    ctx.equal(len(loaded.words), len(words), 'words')
    index = {id(w): k for k, w in enumerate(loaded.words)}
    for k, (a, b) in enumerate(zip(loaded.words, words)):
        ctx.equal(((a.span.start, a.span.end), a.is_multiword, None if a.parent is None else index.get(id(a.parent), a.parent)),
                  (b.span, b.multi, b.head), 'word {}'.format(k))


def chains(ctx):
    n = [300, 998, 999, 1000, 1001, 1200, 3000][ctx.index % 7]
    heads = [list(range(0, n)), list(range(2, n + 1)) + [0], [0] + [1] * (n - 1)][ctx.index // 7 % 3]
    cycle = ctx.index // 21
    if cycle:
        heads = list(heads)
        k = ctx.rng.randrange(1, n)
        heads[k] = k + 1 if ctx.index % 2 else (heads.index(k + 1) + 1 if k + 1 in heads else k + 1)
    text = ''.join('{}\tw\tw\tX\t_\t_\t{}\tdep\t_\t_\n'.format(i + 1, h) for i, h in enumerate(heads)) + '\n'
    ctx.case((n, ctx.index))
    if gen.is_tree([h - 1 for h in heads]):
        ctx.event('accepted')
        words = load(text).words
        ctx.equal([0 if w.parent is None else words.index(w.parent) + 1 for w in words[:50]], heads[:50], 'parents')
    else:
        ctx.rejects(lambda: load(text), 'cycle in a sentence of {} words'.format(n))


def malformed(ctx):
    rng = ctx.rng
    if rng.random() < 0.6:
        doc = pair(rng)[0]
    else:
        doc = gen.document(rng, big=12, syntax=True, multi=0.3)
    rows = [ref.rows(s) for s in doc]
    t = rng.randrange(len(rows))
    rs = rows[t]
    multi = {r[0] for r in rs if '-' in r[0]}
    ranges = [tuple(map(int, m.split('-'))) for m in multi]
    words = [r for r in rs if '-' not in r[0]]
    plain = [r for r in words if not any(a <= int(r[0]) <= b for a, b in ranges)]
    n = len(words)
    kind = rng.randrange(14)
    end = '\n'
    what = ''
    if kind == 0:
        row = rng.choice(rs)
        i = rs.index(row)
        rs[i] = rng.choice([row[:rng.randint(1, 9)], row + ['x'], row + ['', '']])
        what = '{} columns'.format(len(rs[i]))
    elif kind == 1:
        t = len(rows) - 1
        end = ''
        what = 'no empty line at the end'
    elif kind == 2:
        row = rng.choice(words)
        row[6] = row[0]
        what = 'a word is its own head'
    elif kind == 3:
        heads = [int(r[6]) - 1 for r in words]
        i = rng.randrange(n)
        # hang the word on one of its descendants
        def reaches(j):
            for _ in range(n + 1):
                if j == i:
                    return True
                if j == -1:
                    return False
                j = heads[j]
            return False
        options = [j for j in range(n) if j != i and reaches(j)]
        if not options:
            return
        words[i][6] = str(rng.choice(options) + 1)
        what = 'a cycle'
    elif kind == 4:
        options = [r for r in words if r[6] != '0']
        if not options:
            return
        rng.choice(options)[6] = '0'
        what = 'two roots'
    elif kind == 5:
        rng.choice(words)[6] = str(n + rng.randint(1, 3))
        what = 'head after the end of the sentence'
    elif kind == 6:
        rng.choice(words)[6] = str(-rng.randint(1, n + 1))
        what = 'negative head'
    elif kind == 7:
        rng.choice(words)[6] = rng.choice(['x', '', '_', '1.0', '1-2'])
        what = 'head is not a number'
    elif kind == 8:
        if not plain:
            return
        row = rng.choice(plain)
        row[0] = rng.choice([str(int(row[0]) + rng.choice([-1, 1, 5])), 'x', '', '+', '0'])
        what = 'word id {}'.format(row[0])
    elif kind == 9:
        row = rng.choice(plain + [r for r in rs if '-' in r[0]]) if plain or multi else None
        if row is None:
            return
        row[1] = rng.choice(['', ' ', '  '])
        what = 'empty FORM'
    elif kind == 10:
        if not multi:
            return
        row = rng.choice([r for r in rs if '-' in r[0]])
        row[0] = rng.choice([row[0] + '-9', 'a-b', '-', row[0] + '-', row[0].split('-')[0] + '-x'])
        what = 'multiword range {}'.format(row[0])
    elif kind == 11:
        # the multiword token promises more words than the sentence has left
        if not multi:
            return
        row = [r for r in rs if '-' in r[0]][-1]
        row[0] = '{}-{}'.format(row[0].split('-')[0], n + rng.randint(1, 2))
        what = 'truncated multiword token'
    elif kind == 12:
        if len(rows) < 2 or t == len(rows) - 1:
            return
        # the end of sentence is lost: ids start again
        rows[t] = rows[t] + rows[t + 1]
        del rows[t + 1]
        what = 'lost end of sentence'
        first = rows[t][n + len(multi)]
        if '-' in first[0]:
            return
    else:
        rng.choice([r for r in words if r[6] == '0'])[6] = str(rng.randint(1, n))
        what = 'no root'
    text = ''
    for i, s in enumerate(rows):
        text += ''.join('\t'.join(r) + '\n' for r in s) + ('\n' if i < len(rows) - 1 else end)
    ctx.case((what, text))
    ctx.event('malformed: ' + what.split(' ')[0] + ' ' + what.split(' ')[-1][:10] if kind not in (0, 8, 10) else 'malformed: kind {}'.format(kind))
    ctx.rejects(lambda: [len(load(text).words)], what)


def parts(tier):
    return [Part('wellformed', wellformed, 2500, 40000, required=['accepted']),
            Part('malformed', malformed, 6000, 80000, required=['rejections']),
            Part('chains', chains, 63, 63)]
