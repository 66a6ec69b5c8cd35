"""C12: the scores are the ones of the official CoNLL 2017 definition, for any pair of segmentations and annotations."""
import contextlib
import io
import os
import re
import sys

from vf import gen, ref, scorer
from vf.core import Part, short
from babylondigger.evaluation import conll17_ud_eval as ud

RULE = ('a case is a pair of annotated segmentations of the same characters (merged, split and regrouped tokens, multiword tokens, '
        'moved sentence ends, changed tags, heads and words) and optional weights; all metrics of the real scorer are compared with an '
        'independent implementation of the definition; non-trivial when the two sides differ')

ALPHABET = 'aAbBcd\u0130\u00df\u0434\u0414\u03a3\u03c3'


def rand_word(rng, form, head=-1, deprel='dep'):
    return gen.Word(form, rng.choice(['x', 'y', form, None]), rng.choice(['NOUN', 'VERB', 'X', None]), rng.choice([None, 'a', 'b']),
                    rng.choice([{}, {}, {'A': '1'}, {'A': '2'}, {'A': '1', 'B': '2'}]), head, deprel)


def parts_of(rng, surface):
    """words of a multiword token"""
    r = rng.random()
    if r < 0.6 and len(surface) > 1:
        cuts = sorted(rng.sample(range(1, len(surface)), min(len(surface) - 1, rng.randint(1, 3))))
        pieces = [surface[a:b] for a, b in zip([0] + cuts, cuts + [len(surface)])]
    else:
        pieces = [''.join(rng.choice(ALPHABET) for _ in range(rng.randint(1, 2))) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.3:
        pieces = [p.swapcase() if rng.random() < 0.5 else p for p in pieces]
    if rng.random() < 0.15:
        rng.shuffle(pieces)
    return pieces


def from_surfaces(rng, sentences, multi):
    """sentences: lists of surfaces -> document with a tree in each sentence"""
    doc = []
    for surfaces in sentences:
        units = []
        for s in surfaces:
            if rng.random() < multi:
                units.append((s, parts_of(rng, s), True))
            else:
                units.append((s, [s], False))
        n = sum(len(u[1]) for u in units)
        heads = gen.tree(rng, n)
        k = 0
        sent = []
        for s, pieces, is_multi in units:
            words = []
            for p in pieces:
                words.append(rand_word(rng, p, heads[k], 'root' if heads[k] == -1 else rng.choice(gen.DEPREL)))
                k += 1
            sent.append(gen.Unit(s, words, is_multi, True))
        doc.append(sent)
    return doc


def segment(rng, chars, p_token, p_sent):
    tokens = ['']
    sents = []
    for c in chars:
        if tokens[-1] and rng.random() < p_token:
            if rng.random() < p_sent:
                sents.append(tokens)
                tokens = ['']
            else:
                tokens.append('')
        tokens[-1] += c
    sents.append(tokens)
    return sents


def with_inner_space(rng, doc):
    """some tokens contain spaces: they do not count"""
    result = []
    for sent in doc:
        units = []
        for u in sent:
            if len(u.surface) > 1 and rng.random() < 0.1:
                k = rng.randint(1, len(u.surface) - 1)
                s = u.surface[:k] + ' ' + u.surface[k:]
                u = u._replace(surface=s) if u.multi else u._replace(surface=s, words=[u.words[0]._replace(form=s)])
            units.append(u)
        result.append(units)
    return result


def perturb(rng, doc):
    """another annotation of (nearly) the same segmentation"""
    sents = []
    for sent in doc:
        sents.append([[u.surface, [w.form for w in u.words], u.multi, list(u.words)] for u in sent])
    for _ in range(rng.randint(0, 4)):
        s = rng.choice(sents)
        r = rng.randrange(6)
        i = rng.randrange(len(s))
        if r == 0 and i + 1 < len(s):        # merge tokens
            a, b = s[i], s[i + 1]
            joined = a[0] + b[0]
            multi = rng.random() < 0.6
            s[i:i + 2] = [[joined, (a[1] + b[1]) if multi else [joined], multi, None]]
        elif r == 1 and len(s[i][0]) > 1:    # split a token
            t = s[i][0]
            k = rng.randint(1, len(t) - 1)
            s[i:i + 1] = [[t[:k], [t[:k]], False, None], [t[k:], [t[k:]], False, None]]
        elif r == 2:                         # other words of the same token
            s[i] = [s[i][0], parts_of(rng, s[i][0]), True, None]
        elif r == 3 and s[i][2]:             # a multiword token becomes a word
            s[i] = [s[i][0], [s[i][0]], False, None]
        elif r == 4 and len(s) > 1:          # split the sentence
            k = rng.randint(1, len(s) - 1)
            j = sents.index(s)
            sents[j:j + 1] = [s[:k], s[k:]]
        elif r == 5 and len(sents) > 1:      # join sentences
            j = rng.randrange(len(sents) - 1)
            sents[j:j + 2] = [sents[j] + sents[j + 1]]
    result = []
    for s in sents:
        n = sum(len(u[1]) for u in s)
        known = [w for u in s for w in (u[3] or [None] * len(u[1]))]
        heads = [None if w is None else w.head for w in known]
        if not gen.is_tree(heads) or rng.random() < 0.3:
            heads = gen.tree(rng, n)
        k, sent = 0, []
        for surface, forms, multi, words in s:
            new = []
            for j, f in enumerate(forms):
                w = words[j] if words is not None else rand_word(rng, f, -1, rng.choice(gen.DEPREL))
                if rng.random() < 0.25:
                    w = rand_word(rng, f, -1, rng.choice(gen.DEPREL))
                new.append(w._replace(form=f, head=heads[k]))
                k += 1
            sent.append(gen.Unit(surface, new, multi, True))
        result.append(sent)
    return result


def printed(rng, doc):
    out = []
    for sent in doc:
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            out.append(rng.choice(['# text', '#', '# a\tb']))
        rows = ref.rows(sent)
        for k, row in enumerate(rows):
            inside = '-' not in row[0] and any('-' in r[0] and int(r[0].split('-')[0]) <= int(row[0]) <= int(r[0].split('-')[1]) for r in rows)
            if rng.random() < 0.03 and '-' not in row[0] and not inside and k:
                out.append('\t'.join([str(int(row[0]) - 1) + '.1', 'E', '_', 'X', '_', '_', '_', '_', '0:x', '_']))
            out.append('\t'.join(row))
        out.append('')
    return '\n'.join(out) + '\n'


def pair(rng):
    style = rng.random()
    size = rng.choice([1, 3, 6, 10, 16, 30, 60])
    chars = ''.join(rng.choice(ALPHABET) for _ in range(size))
    multi = rng.choice([0, 0.2, 0.6])
    gold = from_surfaces(rng, segment(rng, chars, rng.choice([0.3, 0.6, 0.9]), rng.choice([0.0, 0.15, 0.4])), multi)
    if style < 0.6:
        system = perturb(rng, gold)
    elif style < 0.95:
        system = from_surfaces(rng, segment(rng, chars, rng.choice([0.3, 0.6, 0.9]), rng.choice([0.0, 0.15, 0.4])), multi)
    else:
        system = gold
    if rng.random() < 0.2:
        gold, system = with_inner_space(rng, gold), with_inner_space(rng, system)
    return gold, system


def flat(doc):
    return scorer.flatten(doc, ref.feats_str, ref.u)


def differential(ctx):
    rng = ctx.rng
    gold, system = pair(rng)
    weights = None
    if rng.random() < 0.4:
        weights = {d.split(':')[0]: rng.choice([0.0, 0.1, 0.5, 1.0, 2.0]) for d in rng.sample(gen.DEPREL, 6)}
    gt, st = printed(rng, gold), printed(rng, system)
    ctx.case((gt, st, weights), nontrivial=gold != system)
    args = (weights,) if weights is not None or rng.random() < 0.3 else ()
    real = ud.evaluate(ud.load_conllu(io.StringIO(gt)), ud.load_conllu(io.StringIO(st)), *args)
    expected = scorer.evaluate(flat(gold), flat(system), weights)
    scorer.compare(ctx, real, expected, 'gold\n{}\nsystem\n{}'.format(short(gt, 600), short(st, 600)))
    ctx.event('aligned words', len(scorer.align(flat(gold)[3], flat(system)[3])))
    # exchange of the sides exchanges precision and recall of the segmentation metrics
    if rng.random() < 0.3:
        back = ud.evaluate(ud.load_conllu(io.StringIO(st)), ud.load_conllu(io.StringIO(gt)))
        for name in ('Tokens', 'Sentences'):
            ctx.check(scorer.close(back[name].precision, real[name].recall) and scorer.close(back[name].recall, real[name].precision) and
                      scorer.close(back[name].f1, real[name].f1), 'exchange of the sides: {}', name)


def different_text(ctx):
    """different characters: an error, never a score"""
    rng = ctx.rng
    gold, system = pair(rng)
    system = [list(s) for s in system]
    s = rng.choice(system)
    i = rng.randrange(len(s))
    u = s[i]
    r = rng.randrange(4)
    if r == 0:
        surface = u.surface + 'z'
    elif r == 1:
        surface = 'z' + u.surface[1:]
    elif r == 2:
        surface = u.surface + '\u00a0'
    else:
        surface = u.surface[:-1]
        if not surface.replace(' ', ''):
            surface = 'z'
    if rng.random() < 0.1:
        surface = u.surface.swapcase() if u.surface.swapcase() != u.surface else 'z' + u.surface
    s[i] = u._replace(surface=surface) if u.multi else u._replace(surface=surface, words=[u.words[0]._replace(form=surface)])
    if flat(gold)[0] == flat(system)[0]:
        return
    gt, st = printed(rng, gold), printed(rng, system)
    ctx.case((gt, st))
    a, b = ud.load_conllu(io.StringIO(gt)), ud.load_conllu(io.StringIO(st))
    ctx.rejects(lambda: {k: v.f1 for k, v in ud.evaluate(a, b).items()}, 'scoring of different texts')
    ctx.rejects(lambda: {k: v.f1 for k, v in ud.evaluate(b, a).items()}, 'scoring of different texts')


def command_line(ctx):
    """the script on files: the same numbers"""
    rng = ctx.rng
    gold, system = pair(rng)
    paths = [os.path.join(ctx.scratch, n) for n in ('gold', 'system', 'weights')]
    for p, d in zip(paths, (gold, system)):
        with open(p, 'w', encoding='utf-8') as f:
            f.write(printed(rng, d))
    weights = None
    args = [paths[0], paths[1]]
    if rng.random() < 0.5:
        weights = {d.split(':')[0]: rng.choice([0.0, 0.25, 1.0]) for d in rng.sample(gen.DEPREL, 5)}
        with open(paths[2], 'w') as f:
            f.write('# comment\n\n')
            for k, v in weights.items():
                f.write('{}{}{}\n'.format(k, rng.choice([' ', '\t', '   ']), v))
        args += ['-w', paths[2]]
    verbose = rng.random() < 0.6
    if verbose:
        args.append('-v')
    ctx.case((args, [open(p, encoding='utf-8').read() for p in paths[:2]]))
    out = io.StringIO()
    saved = sys.argv
    sys.argv = ['conll17_ud_eval.py'] + args
    try:
        with contextlib.redirect_stdout(out):
            ud.main()
    finally:
        sys.argv = saved
    expected = scorer.evaluate(flat(gold), flat(system), weights)
    got = out.getvalue()
    if not verbose and weights is None:
        m = re.search(r'([0-9.]+)\s*$', got)
        ctx.check(m is not None and abs(float(m.group(1)) - 100 * expected['LAS'][2]) < 0.00501, 'printed LAS {}, expected {}', got, expected['LAS'])
        return
    table = {}
    for line in got.split('\n'):
        cells = [c.strip() for c in line.split('|')]
        if cells[0] in expected:
            table[cells[0]] = cells[1:]
    ctx.equal(sorted(table), sorted(expected), 'printed metrics')
    for name, cells in table.items():
        ctx.event('printed')
        for c, e in zip(cells, expected[name]):
            ctx.check((c == '' and e is None) or (c != '' and e is not None and abs(float(c) - 100 * e) < 0.00501),
                      'printed {}: {}, expected {}', name, cells, expected[name])


def parts(tier):
    return [Part('differential', differential, 6000, 100000, required=['metrics', 'aligned words']),
            Part('different_text', different_text, 1500, 10000, required=['rejections']),
            Part('command_line', command_line, 400, 3000, required=['printed'])]
