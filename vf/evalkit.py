"""Workloads for the evaluation part: scripted taggers and trainers behind the real evaluation scripts."""
import contextlib
import io
import json
import os
import re
import runpy
import sys

from vf import neural  # noqa: F401 (TensorFlow 1 interface for the import of the trainers)
from vf import core, gen, ref, repo, scorer
import babylondigger.datamodel as dm
from babylondigger.neural.tagger import neural_tagger
from babylondigger.tagger import TaggerInterface

FIELDS = ['Tokens', 'Sentences', 'Words', 'UPOS', 'XPOS', 'Feats', 'AllTags', 'Lemmas', 'UAS', 'LAS', 'CLAS']


def flat(docs):
    """scorer's view of a list of plain documents"""
    return scorer.flatten([s for d in docs for s in d], ref.feats_str, ref.u)


def expected_scores(gold, system):
    return scorer.evaluate(flat(gold), flat(system))


def mistakes(rng, docs, rate, syntax=False):
    """another morphology (and optionally syntax) of the same documents"""
    result = []
    for d in docs:
        new = []
        for sent in d:
            n = len(gen.words(sent))
            heads = gen.tree(rng, n) if syntax else [None] * n
            k, units = 0, []
            for unit in sent:
                words = []
                for w in unit.words:
                    lemma, upos, xpos, feats = w.lemma, w.upos, w.xpos, w.feats
                    if rng.random() < rate:
                        upos = rng.choice(['NOUN', 'VERB', None])
                    if rng.random() < rate:
                        xpos = rng.choice(['a', None])
                    if rng.random() < rate:
                        feats = rng.choice([{}, {'A': 'b'}])
                    if rng.random() < rate:
                        lemma = rng.choice(['x', None, w.form if w.form != '_' else 'y'])
                    words.append(w._replace(lemma=lemma, upos=upos, xpos=xpos, feats=feats, head=heads[k], deprel='dep' if syntax else None))
                    k += 1
                units.append(unit._replace(words=words))
            new.append(units)
        result.append(new)
    return result


def annotate(doc, words, syntax=False):
    """real document with the morphology (and syntax) of the plain words"""
    tokens = []
    for t, w in zip(doc.tokens, words):
        pos = None if w.upos is None and w.xpos is None and not w.feats else dm.Pos(w.upos, w.xpos, w.feats)
        t = dm.Token.with_morphology(t, pos, w.lemma)
        if syntax:
            t = dm.Token.with_syntax(t, w.deprel, head_sentence_index=w.head)
        tokens.append(t)
    return dm.Document.from_document(doc, tokens)


class Scripted(TaggerInterface):
    """gives the k-th sentence the k-th scripted annotation; remembers what it was shown"""

    def __init__(self, system, name='scripted', syntax=False, before=None):
        self.words = [gen.words(s) for d in system for s in d]
        self.syntax = syntax
        self.name = name
        self.seen = []
        self.before = before

    def tag(self, documents):
        if self.before is not None:
            self.before()
        self.seen = []
        k = 0
        for doc in documents:
            self.seen.append(doc)
            n = sum(1 for _ in doc.sentences)
            words = [w for s in self.words[k:k + n] for w in s]
            k += n
            yield annotate(doc, words, self.syntax)

    def __str__(self):
        return self.name


def script(name, *argv):
    """run a script of the evaluation package as a user does; (output, exception)"""
    path = os.path.join(repo.PKG, 'evaluation', name)
    old = sys.argv
    out = io.StringIO()
    sys.argv = [path] + list(argv)
    error = None
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(path, run_name='__main__')
    except core.Violation:
        raise
    except SystemExit as e:
        error = e
    except Exception as e:
        error = e
    finally:
        sys.argv = old
    return out.getvalue(), error


@contextlib.contextmanager
def trainer(function):
    """replace the training of the `neural` method with function(documents, dev_tester, model_name_format, params) -> iterator"""
    old = neural_tagger.NeuralTaggerTrainer.train

    def train(self, documents, dev_tester=None, model_name_format='epoch-{}', **kwargs):
        return function(documents, dev_tester, model_name_format, kwargs)

    neural_tagger.NeuralTaggerTrainer.train = train
    try:
        yield
    finally:
        neural_tagger.NeuralTaggerTrainer.train = old


def dump(path, value):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf8') as f:
        json.dump(value, f)
    return path


def save(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf8', newline='') as f:
        f.write(text)
    return path


def tables(output):
    """printed metric tables: list of {metric: (precision, recall, f1, aligned)} with two decimals"""
    result, current = [], None
    for line in output.split('\n'):
        if re.match(r'^Metrics\s*\|', line):
            current = {}
            result.append(current)
            continue
        if re.match(r'^-+\+', line):
            continue
        m = re.match(r'^(\w+)\s*\|\s*([\d.]+)\s*\|\s*([\d.]+)\s*\|\s*([\d.]+)\s*\|\s*([\d.]*)\s*$', line)
        if m and current is not None:
            current[m.group(1)] = tuple(float(v) if v else None for v in m.groups()[1:])
        elif line.strip():
            current = None
    return result


def same_table(table, scores, fields):
    """a printed table shows these scores"""
    if set(table) != set(fields):
        return False
    for f in fields:
        for a, b in zip(table[f], scores[f]):
            if (a is None) != (b is None) or a is not None and abs(a - 100 * b) > 0.0051:
                return False
    return True


def gold_docs(rng, n=None, **kwargs):
    kwargs.setdefault('big', 10)
    kwargs.setdefault('syntax', True)
    return [gen.document(rng, sentences=rng.randint(1, 3), **kwargs) for _ in range(n or rng.randint(1, 4))]


def values(score):
    return (score.precision, score.recall, score.f1, score.aligned_accuracy)
