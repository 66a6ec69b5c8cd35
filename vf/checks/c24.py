"""C24: UDPipe sees exactly the sentences of the document and its annotation arrives unchanged at the same words."""
import os
import random

from vf import feat, gen, ref, udp
from vf.core import Part
import babylondigger.datamodel as dm
from babylondigger.wrappers import udpipe1_2 as wrapper

RULE = ('a case is a document and a UDPipe model: a stand-in which records what it gets and writes arbitrary annotation, or a tiny trained '
        'model whose direct output is the reference; every word is compared in both directions; non-trivial when there are at least two words')


def documents(rng):
    plain = [gen.document(rng, big=14) for _ in range(rng.randint(1, 3))]
    return plain, [gen.build_document(dm, d) for d in plain]


def fed(sentence, with_heads=False):
    """what UDPipe must get for the sentence"""
    out = []
    for t in sentence:
        pos = t.pos
        out.append((t.text, t.lemma or '', (pos.upos or '') if pos else '', (pos.xpos or '') if pos else '',
                    ref.feats_str(pos.feats) if pos and pos.feats else ''))
    return out


def to_ud(rows):
    """own conversion for the direct run"""
    s = udp.ud.Sentence()
    for form, lemma, upos, xpos, feats in rows:
        w = s.addWord(form)
        w.lemma, w.upostag, w.xpostag, w.feats = lemma, upos, xpos, feats
    return s


def result_rows(sentence):
    rows = []
    for t in sentence:
        rows.append((None if t.pos is None else norm_pos(ref.pos_view(t.pos)), t.lemma, t.head_index if t.has_head else None, t.deprel))
    return rows


def norm_pos(v):
    return None if v == (None, None, ()) else v


def parsed_feats(text):
    return tuple(sorted(tuple(entry.split('=', 1)) for entry in text.split('|'))) if text else ()


def fake(ctx):
    rng = ctx.rng
    plain, docs = documents(rng)
    options = rng.choice(['', 'x', 'beam_search=1'])
    ctx.case((options, plain), nontrivial=sum(len(gen.words(s)) for d in plain for s in d) > 1)
    model = udp.FakeModel(rng)
    kind = ['tagger', 'parser', 'both'][ctx.index % 3]
    annotator = {'tagger': wrapper.UDPipeTagger, 'parser': wrapper.UDPipeParser, 'both': wrapper.UDPipeTaggerParser}[kind](model, options)
    results = list(annotator.process(iter(docs)))
    sents = feat.sentences(docs)
    tags = [x for x in model.log if x[0] == 'tag']
    parses = [x for x in model.log if x[0] == 'parse']
    ctx.equal((len(tags), len(parses)), (len(sents) if kind != 'parser' else 0, len(sents) if kind != 'tagger' else 0), 'calls of UDPipe')
    written_tags = [w for k, w in model.script if k == 'tag']
    written_parses = [w for k, w in model.script if k == 'parse']
    out = feat.sentences(results)
    ctx.equal(len(out), len(sents), 'sentences')
    for k, s in enumerate(sents):
        ctx.event('sentences')
        first = tags[k] if tags else parses[k]
        ctx.equal([x[:5] for x in first[1]], fed(s), 'what UDPipe gets for sentence {}'.format(k))
        for call in (tags[k:k + 1] + parses[k:k + 1]):
            ctx.equal(call[2], options, 'options')
        if kind == 'both':
            ctx.equal([x[1:5] for x in parses[k][1]],
                      [(l or '', u or '', x or '', ref.feats_str(f) if f else '') for u, x, f, l in written_tags[k]], 'morphology given to the parser')
        got = result_rows(out[k])
        for j, t in enumerate(s):
            ctx.event('words')
            if tags:
                u, x, f, l = written_tags[k][j]
                ctx.equal(got[j][0:2], (norm_pos((u, x, tuple(sorted(f.items())))), l), 'morphology of word {}'.format(j))
            else:
                ctx.equal(got[j][0:2], (norm_pos(ref.pos_view(t.pos)) if t.pos else None, t.lemma), 'kept morphology of word {}'.format(j))
            if parses:
                ctx.equal(got[j][2:4], written_parses[k][j], 'syntax of word {}'.format(j))


def real(ctx):
    rng = ctx.rng
    plain, docs = documents(rng)
    ctx.case(plain, nontrivial=sum(len(gen.words(s)) for d in plain for s in d) > 1)
    model = _state['model']
    kind = ['tagger', 'parser', 'both'][ctx.index % 3]
    cls = {'tagger': wrapper.UDPipeTagger, 'parser': wrapper.UDPipeParser, 'both': wrapper.UDPipeTaggerParser}[kind]
    annotator = cls(model) if rng.random() < 0.8 else cls.load_udpipe(_state['path'])
    results = list(annotator.process(iter(docs)))
    for s, r in zip(feat.sentences(docs), feat.sentences(results)):
        ctx.event('sentences')
        direct = to_ud(fed(s))
        if kind != 'parser':
            model.tag(direct, '')
        if kind != 'tagger':
            model.parse(direct, '')
        for j, (w, row) in enumerate(zip(udp.FakeModel.see(direct), result_rows(r))):
            ctx.event('words')
            form, lemma, upos, xpos, feats, head, deprel = w
            ctx.equal(row, (norm_pos((upos or None, xpos or None, parsed_feats(feats))), lemma or None,
                            head - 1 if head >= 0 else None, deprel or None), 'annotation of word {} {!r}'.format(j, form))


def exchange(ctx):
    """the two conversions alone"""
    rng = ctx.rng
    plain, docs = documents(rng)
    ctx.case(plain)
    for s in feat.sentences(docs):
        sent = wrapper.convert_to_ud(s)
        ctx.equal([x[:5] for x in udp.FakeModel.see(sent)], fed(s), 'converted sentence')
        back = wrapper.convert_from_ud(s, sent)
        ctx.equal(len(back), s.tokens_count, 'words converted back')
        for t, u in zip(s, back):
            ctx.event('words')
            ctx.equal((u.start, u.end, u.sub_index, u.text_replacement), (t.start, t.end, t.sub_index, t.text_replacement), 'place')
            ctx.equal((norm_pos(ref.pos_view(u.pos)) if u.pos else None, u.lemma), (norm_pos(ref.pos_view(t.pos)) if t.pos else None, t.lemma),
                      'morphology there and back')


_state = {}


def setup(ctx):
    _state['path'] = udp.train(random.Random(3), os.path.join(ctx.scratch, 'model.udpipe'))
    _state['model'] = udp.ud.Model.load(_state['path'])


def parts(tier):
    return [Part('fake', fake, 2400, 30000, required=['sentences', 'words']),
            Part('real', real, 1500, 20000),
            Part('exchange', exchange, 1000, 10000)]
