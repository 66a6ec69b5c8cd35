"""Stand-in of the external graph parser (git submodule that is not in the repository), with the interface its wrapper uses.

A network is a real TensorFlow graph. Its answer for a word is a function of everything the parser got for the word (a key, the hash of
its columns), of the length of the sentence, and of a variable of the saved model, so that answers of other words, sentences or models
are recognised.
"""
import configparser
import os
import sys
import types
import zlib

import numpy as np

from vf import neural

tf = neural.tf
ROOT = 'ROOT'
UPOS = ['NOUN', 'VERB', 'ADJ', 'X', 'PUNCT']
XPOS = ['NN', 'VB', 'JJ', '_', 'zz']
FEATS = ['_', 'A=b', 'Case=Nom|Number=Sing', 'X=y=z']
LEMMAS = ['be', 'have', '_', 'go on', '#']
DEPREL = ['root', 'nsubj', 'obj', 'punct', 'nmod:poss', 'conj']
VALUES = {'upos': UPOS, 'xpos': XPOS, 'ufeats': FEATS, 'lemma': LEMMAS, 'deprel': DEPREL}
COLUMNS = {'id': 0, 'form': 1, 'lemma': 2, 'upos': 3, 'xpos': 4, 'ufeats': 5, 'dephead': 6, 'deprel': 7, 'misc': 9}
FACTORS = {'upos': 1, 'xpos': 3, 'ufeats': 7, 'lemma': 11, 'deprel': 13, 'dephead': 17}
KEYED = slice(0, 6)  # the columns of which the key is made: the annotation of syntax is the answer


def key(row):
    return zlib.crc32('\t'.join(row[KEYED]).encode('utf-8', 'surrogatepass')) % 10007


def number(field, k, offset, length):
    """what the network answers: number of the value (or head) of a word"""
    count = length + 1 if field == 'dephead' else len(VALUES[field])
    return (k * FACTORS[field] + offset) % count


class Log(object):
    """what happens at the interface"""
    sentences = []
    fail = None  # a key: the batch with this word fails
    runs = 0


class Config(object):
    def __init__(self, defaults_file='', config_file='', **kwargs):
        parser = configparser.ConfigParser()
        parser.read_dict(kwargs)
        if not os.path.exists(config_file):
            raise FileNotFoundError(config_file)
        parser.read(config_file)
        self.parser = parser

    def get(self, section, key):
        return self.parser.get(section, key)

    def getlist(self, section, key):
        return self.parser.get(section, key).split()


class Vocab(object):
    factorized = None

    def __init__(self, field, factorized=None):
        self.field = field
        self.factorized = factorized
        self.used = False

    def reset(self):
        self.used = False

    def __getitem__(self, numbers):
        name = (lambda i: str(int(i))) if self.field == 'dephead' else (lambda i: VALUES[self.field][int(i)])
        return [[name(i) for i in row] for row in numbers]


class Network(object):
    def __init__(self, config=None):
        self.config = config
        self.classname = type(self).__name__
        self.save_dir = os.path.join(config.get('DEFAULT', 'save_metadir'), self.classname)
        self.input_vocabs = [Vocab(f) for f in ['id', 'form'] + config.getlist('DEFAULT', 'inputs')]
        factorized = config.get('DEFAULT', 'factorized') == 'yes'
        self.output_vocabs = [Vocab(f, factorized if f in ('deprel', 'semrel') else None) for f in config.getlist('DEFAULT', 'outputs')]
        self.vocabs = self.input_vocabs + self.output_vocabs

    def build_graph(self, input_network_outputs=None, reuse=True):
        keys = tf.placeholder(tf.int32, [None, None], name='keys')
        lengths = tf.placeholder(tf.int32, [None], name='lengths')
        offset = tf.get_variable('offset', [], tf.int32, tf.zeros_initializer())
        other = tf.get_variable('other', [], tf.int32, tf.zeros_initializer())
        tf.add_to_collection('non_save_variables', other)
        keys = keys + other
        outputs = {}
        if not reuse:  # the graph for training drops a part of its input
            keys = keys + tf.random_uniform(tf.shape(keys), 0, 1000, tf.int32)
        hidden = tf.cast(tf.stack([keys, keys * 2 + offset], -1), tf.float32)
        for vocab in self.output_vocabs:
            f = vocab.field
            if f == 'dephead':
                probabilities = tf.one_hot(tf.floormod(keys * FACTORS[f] + offset, tf.expand_dims(lengths, 1) + 1), tf.shape(keys)[1] + 1)
            else:
                probabilities = tf.one_hot(tf.floormod(keys * FACTORS[f] + offset, len(VALUES[f])), len(VALUES[f]))
            branch = outputs.setdefault('deptree' if f in ('dephead', 'deprel') else f, {'recur_layer': hidden, 'hidden_layer': hidden * 3})
            branch.setdefault('answers', {})[f] = probabilities
            branch.setdefault('factorized', {})[f] = vocab.factorized
        return outputs, {'keys': keys, 'lengths': lengths}


class ParserNetwork(Network):
    pass


class TaggerNetwork(Network):
    pass


def config_of(outputs, field):
    for branch in outputs.values():
        if field in branch['factorized']:
            return branch['factorized'][field]


class GraphOutputs(object):
    def __init__(self, outputs, tokens, load=False, factored_deptree=None, factored_semgraph=None, config=None):
        if factored_deptree != config_of(outputs, 'deprel') or factored_semgraph is not None:
            raise AssertionError('factorisation of the relations: {} {}'.format(factored_deptree, factored_semgraph))
        if load or config is None:
            raise AssertionError('there are no saved scores of an unfinished training to load')
        self.probabilities = {f: p for branch in outputs.values() for f, p in branch['answers'].items()}
        self.predictions = {'indices': []}

    def probs_to_preds(self, probabilities, lengths):
        Log.runs += 1
        return {f: np.argmax(p, axis=-1) for f, p in probabilities.items()}

    def cache_predictions(self, tokens, indices):
        self.predictions['indices'].extend(indices)
        for field in tokens:
            self.predictions.setdefault(field, []).extend(tokens[field])


class CoNLLUDataset(object):
    def __init__(self, conllu_files, vocabs, config=None):
        if any(v.used for v in vocabs):
            raise RuntimeError('vocabularies still hold the sentences of another dataset')
        for v in vocabs:
            v.used = True
        self.vocabs = vocabs
        self.rows = []
        self.batch = int(config.get('DEFAULT', 'batch'))
        for f in conllu_files:
            for sentence in self.itersents(f):
                if sentence:
                    self.rows.append([list(row) for row in sentence])
                    Log.sentences.append(self.rows[-1])

    def batch_iterator(self, shuffle=False):
        """batches of sentences of similar length"""
        order = sorted(range(len(self.rows)), key=lambda i: (len(self.rows[i]) // 2, -i))
        for start in range(0, len(order), self.batch):
            yield np.array(order[start:start + self.batch])

    def get_tokens(self, indices):
        tokens = {}
        for vocab in self.vocabs:
            column = COLUMNS[vocab.field]
            tokens[vocab.field] = [['0' if vocab.field == 'id' else ROOT] + [row[column] for row in self.rows[i]] for i in indices]
        return tokens, np.array([len(self.rows[i]) for i in indices])

    def set_placeholders(self, indices):
        longest = max(len(self.rows[i]) for i in indices)
        keys = np.zeros([len(indices), longest + 1], dtype=np.int32)
        for k, i in enumerate(indices):
            for j, row in enumerate(self.rows[i], 1):
                keys[k, j] = key(row)
                if keys[k, j] == Log.fail:
                    raise RuntimeError('injected failure of the parser')
        prefix = self.prefix()
        return {prefix + 'keys:0': keys, prefix + 'lengths:0': np.array([len(self.rows[i]) for i in indices])}

    def prefix(self):
        return ('ParserNetwork' if any(v.field == 'dephead' for v in self.vocabs) else 'TaggerNetwork') + '/'


def install():
    """make the submodule importable"""
    def module(name, **content):
        m = types.ModuleType(name)
        m.__path__ = []
        m.__dict__.update(content)
        sys.modules[name] = m
        return m
    top = module('tdozat_parser')
    top.parser = module('tdozat_parser.parser', ParserNetwork=ParserNetwork, TaggerNetwork=TaggerNetwork)
    top.parser.config = module('tdozat_parser.parser.config', Config=Config)
    top.parser.structs = module('tdozat_parser.parser.structs')
    top.parser.structs.conllu_dataset = module('tdozat_parser.parser.structs.conllu_dataset', CoNLLUDataset=CoNLLUDataset)
    top.parser.graph_outputs = module('tdozat_parser.parser.graph_outputs', GraphOutputs=GraphOutputs)


def model(directory, name, inputs, outputs, offset, batch, factorized=False):
    """a saved model in the directory"""
    os.makedirs(os.path.join(directory, name), exist_ok=True)
    with open(os.path.join(directory, name + '.cfg'), 'w') as f:
        f.write('[DEFAULT]\nnetwork_class = {}\ninputs = {}\noutputs = {}\nbatch = {}\nfactorized = {}\n'.format(
            name, ' '.join(inputs), ' '.join(outputs), batch, 'yes' if factorized else 'no'))
    graph = tf.Graph()
    with graph.as_default():
        with tf.variable_scope(name, reuse=False):
            variable = tf.get_variable('offset', [], tf.int32, tf.zeros_initializer())
        with tf.Session(graph=graph) as session:
            session.run(variable.assign(offset))
            tf.train.Saver([variable]).save(session, os.path.join(directory, name, 'ckpt'))
