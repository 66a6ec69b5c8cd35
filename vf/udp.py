"""UDPipe: a recording stand-in for the model, and tiny real models trained on generated treebanks."""
import os

import ufal.udpipe as ud

from vf import gen, ref


class FakeModel(object):
    """has the interface of a UDPipe model: records the sentences it gets, writes scripted annotations into them"""

    def __init__(self, rng, log=None):
        self.rng = rng
        self.log = log if log is not None else []
        self.script = []      # what was written, per call

    @staticmethod
    def see(sentence):
        return [(w.form, w.lemma, w.upostag, w.xpostag, w.feats, w.head, w.deprel) for w in list(sentence.words)[1:]]

    def tag(self, sentence, options='', error=None):
        seen = self.see(sentence)
        written = []
        for w in (sentence.words[i] for i in range(1, len(sentence.words))):
            upos, xpos, feats = gen.morph(self.rng)
            lemma = gen.lemma(self.rng, w.form) or ''
            w.upostag, w.xpostag, w.lemma = upos or '', xpos or '', lemma
            w.feats = '' if not feats else ref.feats_str(feats)
            written.append((upos, xpos, feats, lemma or None))
        self.log.append(('tag', seen, options))
        self.script.append(('tag', written))
        return True

    def parse(self, sentence, options='', error=None):
        seen = self.see(sentence)
        words = list(sentence.words)[1:]
        heads = gen.tree(self.rng, len(words))
        written = []
        for k, w in enumerate(words):
            deprel = 'root' if heads[k] == -1 else self.rng.choice(gen.DEPREL)
            if self.rng.random() < 0.05:
                deprel = ''
            sentence.setHead(k + 1, heads[k] + 1, deprel)
            written.append((heads[k], deprel or None))
        self.log.append(('parse', seen, options))
        self.script.append(('parse', written))
        return True


def sentences(text):
    reader = ud.InputFormat.newConlluInputFormat()
    reader.setText(text)
    result, error = ud.Sentences(), ud.ProcessingError()
    sentence = ud.Sentence()
    while reader.nextSentence(sentence, error):
        result.append(sentence)
        sentence = ud.Sentence()
    if error.occurred():
        raise RuntimeError(error.message)
    return result


def train(rng, path):
    """a tiny real tagger and parser"""
    doc = []
    for _ in range(40):
        sent = gen.sentence(rng, syntax=True, hostile=False, lemmas='always', n=rng.randint(2, 7))
        doc.append([u._replace(words=[w._replace(upos=w.upos or 'X', feats={k: v.replace(' ', '') for k, v in w.feats.items()},
                                                 deprel='root' if w.head == -1 else
                                                 (w.deprel if w.deprel not in (None, 'root') else 'dep')) for w in u.words]) for u in sent])
    error = ud.ProcessingError()
    saved = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        data = ud.Trainer.train('morphodita_parsito', sentences(ref.conllu(doc)), ud.Sentences(), 'none', 'models=1;iterations=2',
                                'iterations=1;embedding_upostag=2;embedding_feats=2;embedding_form=2;hidden_layer=4;batch_size=10;'
                                'learning_rate=0.01;structured_interval=0;transition_system=swap;transition_oracle=static_lazy', error)
    finally:
        os.dup2(saved, 2)
        os.close(saved)
        os.close(null)
    if error.occurred():
        raise RuntimeError(error.message)
    with open(path, 'wb') as f:
        f.write(data)
    return path
