"""Reference CoNLL 2017 scorer over plain data (gen.py units)."""

METRICS = ['Tokens', 'Sentences', 'Words', 'UPOS', 'XPOS', 'Feats', 'AllTags', 'Lemmas', 'UAS', 'LAS', 'CLAS']
CLAS = {'aux': 0.0, 'case': 0.0, 'cc': 0.0, 'clf': 0.0, 'cop': 0.0, 'det': 0.0, 'mark': 0.0, 'punct': 0.0}


class W(object):
    """a word of one side"""

    def __init__(self, span, multi, form, tags, head, deprel):
        self.span = span
        self.multi = multi
        self.form = form.lower()
        self.upos, self.xpos, self.feats, self.lemma = tags
        self.head = head            # index in the list of words, or None for a root
        self.deprel = deprel


def flatten(doc, feats_str, u):
    """characters, token spans, sentence spans, words. Words without syntax hang on the previous one (as the writer prints them)"""
    chars, tokens, sentences, words = [], [], [], []
    for sent in doc:
        start = len(chars)
        base = len(words)
        i = 0
        for unit in sent:
            surface = unit.surface.replace(' ', '')
            span = (len(chars), len(chars) + len(surface))
            chars.extend(surface)
            tokens.append(span)
            for w in unit.words:
                form = w.form if unit.multi else surface
                if w.head is None:
                    head = None if i == 0 else base + i - 1
                else:
                    head = None if w.head == -1 else base + w.head
                deprel = '_' if w.head is None else u(w.deprel)
                words.append(W(span, unit.multi, form, (u(w.upos), u(w.xpos), feats_str(w.feats), u(w.lemma)), head,
                               deprel.split(':')[0]))
                i += 1
        sentences.append((start, len(chars)))
    return chars, tokens, sentences, words


def lcs_pairs(g, s):
    """longest common subsequence of forms; ties are resolved in favour of skipping the gold word"""
    table = [[0] * (len(s) + 1) for _ in range(len(g) + 1)]
    for i in range(len(g) - 1, -1, -1):
        for j in range(len(s) - 1, -1, -1):
            best = max(table[i + 1][j], table[i][j + 1])
            if g[i].form == s[j].form:
                best = max(best, 1 + table[i + 1][j + 1])
            table[i][j] = best
    i = j = 0
    while i < len(g) and j < len(s):
        if g[i].form == s[j].form:
            yield i, j
            i, j = i + 1, j + 1
        elif table[i][j] == table[i + 1][j]:
            i += 1
        else:
            j += 1


def align(gold, system):
    """pairs of indices of aligned words"""
    pairs = []
    gi = si = 0
    while gi < len(gold) and si < len(system):
        g, s = gold[gi], system[si]
        if not g.multi and not s.multi:
            if g.span == s.span:
                pairs.append((gi, si))
                gi, si = gi + 1, si + 1
            elif g.span[0] <= s.span[0]:
                gi += 1
            else:
                si += 1
            continue
        # the smallest stretch which contains the multiword token and every multiword token overlapping with it
        if g.multi:
            end = g.span[1]
            if not s.multi and s.span[0] < g.span[0]:
                si += 1
        else:
            end = s.span[1]
            if not g.multi and g.span[0] < s.span[0]:
                gi += 1
        g0, s0 = gi, si

        def inside(words, k):
            return k < len(words) and (words[k].span[0] < end if words[k].multi else words[k].span[1] <= end)
        while inside(gold, gi) or inside(system, si):
            if gi < len(gold) and (si >= len(system) or gold[gi].span[0] <= system[si].span[0]):
                if gold[gi].multi:
                    end = max(end, gold[gi].span[1])
                gi += 1
            else:
                if system[si].multi:
                    end = max(end, system[si].span[1])
                si += 1
        pairs.extend((g0 + i, s0 + j) for i, j in lcs_pairs(gold[g0:gi], system[s0:si]))
    return pairs


def score(gold_total, system_total, correct, aligned=None):
    return (correct / system_total if system_total else 0.0, correct / gold_total if gold_total else 0.0,
            2 * correct / (gold_total + system_total) if gold_total + system_total else 0.0,
            None if aligned is None else correct / aligned if aligned else 0.0)


def evaluate(gold, system, weights=None):
    """gold, system: flatten() results with equal characters; {metric: (precision, recall, f1, aligned accuracy)}"""
    _, gt, gs, gw = gold
    _, st, ss, sw = system
    pairs = align(gw, sw)
    by_system = {s: g for g, s in pairs}

    def spans(a, b):
        return score(len(a), len(b), len(set(a) & set(b)))

    def same_head(g, s):
        a, b = gw[g].head, sw[s].head
        if a is None or b is None:
            return a is None and b is None
        return by_system.get(b) == a

    def metric(key, weight=lambda w: 1):
        return score(sum(weight(w) for w in gw), sum(weight(w) for w in sw), sum(weight(gw[g]) for g, s in pairs if key(g, s)),
                     sum(weight(gw[g]) for g, _ in pairs))

    def las(g, s):
        return same_head(g, s) and gw[g].deprel == sw[s].deprel

    result = {
        'Tokens': spans(gt, st), 'Sentences': spans(gs, ss), 'Words': score(len(gw), len(sw), len(pairs)),
        'UPOS': metric(lambda g, s: gw[g].upos == sw[s].upos), 'XPOS': metric(lambda g, s: gw[g].xpos == sw[s].xpos),
        'Feats': metric(lambda g, s: gw[g].feats == sw[s].feats),
        'AllTags': metric(lambda g, s: (gw[g].upos, gw[g].xpos, gw[g].feats) == (sw[s].upos, sw[s].xpos, sw[s].feats)),
        'Lemmas': metric(lambda g, s: gw[g].lemma == sw[s].lemma),
        'UAS': metric(same_head), 'LAS': metric(las), 'CLAS': metric(las, lambda w: CLAS.get(w.deprel, 1.0)),
    }
    if weights is not None:
        result['WeightedLAS'] = metric(las, lambda w: weights.get(w.deprel, 1.0))
    return result


def close(a, b):
    if a is None or b is None:
        return a is b
    return abs(a - b) < 1e-9


def same(real, expected):
    """real: Score object; expected: tuple"""
    return (close(real.precision, expected[0]) and close(real.recall, expected[1]) and close(real.f1, expected[2]) and
            close(real.aligned_accuracy, expected[3]))


def compare(ctx, real, expected, what):
    ctx.equal(sorted(real), sorted(expected), what + ': metrics')
    for name in sorted(expected):
        r = real[name]
        ctx.event('metrics')
        ctx.check(same(r, expected[name]), '{}: {} is {}, expected {}', what, name,
                  (r.precision, r.recall, r.f1, r.aligned_accuracy), expected[name])
