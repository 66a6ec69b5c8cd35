"""Workloads for the feature and label checks: small training corpora and observation of extractors."""
import random

from vf import gen

import babylondigger.datamodel as dm


def simple_doc(rng, sentences=None, n=None, pool=None, hostile=True, gran=False, syntax=False, lemma_pool=None):
    """plain document with POS and lemma everywhere; words are drawn from a pool, so that they repeat"""
    out = []
    for _ in range(sentences or rng.randint(1, 4)):
        sent = gen.sentence(rng, syntax=syntax, hostile=hostile, n=n or rng.randint(1, 8), lemmas='always', multi=0.1)
        units = []
        for unit in sent:
            words = []
            for w in unit.words:
                form, lemma, upos, xpos, feats = w.form, w.lemma, w.upos, w.xpos, w.feats
                if pool and rng.random() < 0.75:
                    form, lemma, upos, xpos, feats = rng.choice(pool)
                if upos is None:
                    upos = rng.choice([None, 'X'])
                    if upos is None and xpos is None and not feats:
                        xpos = 'zz'
                if gran:
                    feats = {k: v for k, v in feats.items() if k not in ('UPOS', 'XPOS', 'POS', 'LEMMA', 'FEATS')}
                    if upos is None and xpos is None and not feats:
                        xpos = 'zz'
                words.append(w._replace(form=form, lemma=lemma, upos=upos, xpos=xpos, feats=dict(feats)))
            surface = unit.surface if unit.multi else words[0].form
            units.append(gen.Unit(surface, words, unit.multi, unit.space))
        out.append(units)
    return out


def pool(rng, size=None):
    result = []
    for _ in range(size or rng.randint(2, 12)):
        form = gen.word(rng)
        upos, xpos, feats = gen.morph(rng)
        result.append((form, gen.lemma(rng, form) or form.lower(), upos or 'X', xpos, feats))
        # the same word with another analysis, the same ending with another beginning
        if rng.random() < 0.3:
            result.append((form, gen.lemma(rng, form) or form.lower(), rng.choice(gen.UPOS), xpos, feats))
        if rng.random() < 0.3:
            low = form.lower()
            k = rng.randint(0, len(low))
            other = gen.word(rng) + form[k:]
            result.append((other, other.lower()[:-1] or 'q', rng.choice(gen.UPOS), xpos, feats))
        if rng.random() < 0.2:
            result.append((form.swapcase(), form.lower() or 'q', upos or 'X', xpos, feats))
    return result


def corpus(rng, docs=None, **kwargs):
    """(plain documents, real documents)"""
    plain = [simple_doc(rng, **kwargs) for _ in range(docs or rng.randint(1, 4))]
    return plain, [gen.build_document(dm, d) for d in plain]


def dataset(rng, documents):
    """the same documents as one of the re-iterable containers a user passes"""
    r = rng.random()
    if r < 0.4:
        return list(documents)
    if r < 0.6:
        return tuple(documents)
    return Again(documents)


class Again(object):
    """re-iterable, not indexable"""

    def __init__(self, items):
        self.items = list(items)
        self.traversals = 0

    def __iter__(self):
        self.traversals += 1
        return iter(self.items)


def blank(doc):
    return dm.Document.from_document(doc, [dm.Token.with_morphology(t) for t in doc.tokens])


def sentences(documents):
    return [s for d in documents for s in d.sentences]


def tokens(documents):
    return [t for s in sentences(documents) for t in s]


def rest_view(t):
    return (t.start, t.end, t.sub_index, t.text_replacement, t.has_head, t.is_root, t.deprel)
