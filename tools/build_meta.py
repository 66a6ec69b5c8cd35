"""Writes properties.jsonl and MANIFEST.json. Run: python3 tools/build_meta.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'babylondigger/'
DM, IO, UD, DS = B + 'datamodel.py', B + 'evaluation/conllu_io.py', B + 'evaluation/conll17_ud_eval.py', B + 'evaluation/dataset.py'
EV, GR, TR = B + 'evaluation/evaluation.py', B + 'evaluation/grid_eval.py', B + 'evaluation/trainers.py'
FB, FE, FP = B + 'features/builder.py', B + 'features/extractors.py', B + 'features/provider.py'
LT = B + 'lemmas/transformation_rules.py'
NM, NN, NI, NU = B + 'neural/model.py', B + 'neural/network.py', B + 'neural/initializers.py', B + 'neural/utils.py'
NT, NS, NK, NP = (B + 'neural/tagger/' + f for f in ('neural_tagger.py', 'shared_builders.py', 'task_builders.py', 'network_provider.py'))
PR, TG, PA, UW = B + 'processor.py', B + 'tagger.py', B + 'parser.py', B + 'wrappers/udpipe1_2.py'

P = []


def prop(id, title, statement, over, quantifier, why, files, mechanism, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, quantifier=quantifier, why=why, files=files, mechanism=mechanism,
                  observe=observe, technique=technique, note=note))


prop('C01', 'A document is accepted exactly when its tokens and sentences are well formed',
     'Making a document succeeds if and only if its tokens lie inside the text, have non-empty spans that do not overlap (only the parts of one '
     'multiword token share a span, and they are numbered 0, 1, 2, ... without gaps or repetitions), and its sentences are non-empty ranges that '
     'cover all tokens one after another. Tokens and sentences may be given in any order; the document shows them in text order. Without given '
     'sentences all tokens form one sentence, and a text without tokens has none.',
     ['inputs'], 'every text, every multiset of tokens and sentence ranges, in every order',
     'The tests try a dozen layouts; the rule is about all combinations of spans, multiword parts and sentence ranges.',
     [DM], [('construction checks of tokens, sentences and documents', DM)], 'accept/reject decision and the token and sentence lists of accepted documents',
     'oracle over executions of the real constructors: enumerated small layouts plus random layouts and their mutations, acceptance compared with an independent definition',
     'all multisets of up to three tokens over a text of three characters with (a sample of, thorough: all) sentence ranges; random layouts of up to 80 words and single and double mutations')

prop('C02', 'Validated documents carry one single-rooted tree per sentence or no syntax',
     'When a document is made with syntax validation, every sentence has either no heads at all or exactly one root and heads inside the same '
     'sentence that lead from every word to the root without cycles; anything else (part of the words without a head, two roots, no root, a cycle, '
     'a head outside of the sentence) is refused. This holds for heads given as positions in the sentence and as positions in the document, and '
     'valid trees are never refused.',
     ['inputs'], 'every assignment of heads to the words of every sentence, in both notations',
     'The tests contain a few hand-written trees and failures; cycles and partial syntax in arbitrary positions and notations are not sampled.',
     [DM], [('tree validation', DM)], 'accept/reject decision and heads seen through the sentences',
     'oracle over executions: enumerated head assignments for small layouts plus random trees and broken trees, decision compared with an independent tree definition',
     'all head assignments of small sentences (both notations), random ones up to 60 words, long chains')

prop('C03', 'Every view of a document shows the same, right token',
     'Text, span, annotation, neighbours and head of a word are the same and the right ones however it is reached: from the document, from its sentence, '
     'by index, by iteration, as a neighbour or as the head of another word. The text of a word is the part of the document text under its span, '
     'or its own replacement text inside of a multiword token; positions outside of the sentence or document give an error or nothing, never another word.',
     ['inputs'], 'every document, every word, every way to reach it',
     'The tests look at a few documents and a few navigation steps.',
     [DM], [('navigation over documents, sentences and tokens', DM)], 'values returned by all navigation calls',
     'oracle over executions: all views of random documents compared with the plain layout the document was made from',
     'random documents with multiword tokens, odd white space, both head notations, shuffled construction')

prop('C04', 'Documents, tokens, tags and extras never change once made',
     'Nothing that is done with a document, token, part of speech or extras object, with the collections given to make it, or with the collections it '
     'returns changes what it shows later. Deriving a token with other morphology, syntax or extras changes exactly the derived fields in the new token and nothing in the old one.',
     ['histories'], 'every history of derivations, navigation and mutations of passed and returned collections',
     'It is a statement about all histories; the tests check single derivations.',
     [DM], [('immutable value objects and derivation constructors', DM)], 're-observation of all live objects after every step',
     'runtime monitor: snapshots of all objects at creation, re-observed after every step of random histories with hostile mutation of shared collections',
     'histories of up to a dozen steps over random documents')

prop('C05', 'Re-annotating a document keeps its text, spans and sentences',
     'Making a document from another one and a new list of tokens succeeds exactly when the new tokens have the same spans and multiword parts as the old '
     'ones, in any order, and gives the same text, sentences and spans with exactly the annotation of the given tokens. A list with a token lost, added, repeated, moved or stretched is refused, and '
     'the source document stays as it was.',
     ['inputs', 'histories'], 'every document and every list of replacement tokens',
     'The tests re-annotate one or two documents.',
     [DM], [('Document.from_document', DM)], 'resulting document or error; source document',
     'oracle over executions: re-annotations and their mutations on random documents', 'random documents up to 30 words per sentence; nine kinds of wrong token lists')

prop('C06', 'Equality, hashing and order follow exactly the observable content',
     'Two parts of speech, tokens, extras, sentence ranges, documents or lemma rules are equal if and only if all their observable fields are equal; equal hashable '
     'ones have equal hashes. Parts of speech and lemma rules are totally ordered consistently with equality, also when fields are missing.',
     ['inputs'], 'every pair and triple of values',
     'Equality laws range over all pairs and triples; the tests compare a few values.',
     [DM, LT], [('equality, hashing, ordering', DM)], 'results of comparisons, hashes, sorting',
     'oracle over executions: algebraic laws monitored on pools of values that differ in one field or in nothing', 'random pools of 6-8 values, all pairs and triples')

prop('C07', 'Reading CoNLL-U gives exactly the annotated sentences of the text, or an error',
     'Reading a well-formed CoNLL-U text gives all its sentences and words in order, each with its form, lemma, tags, features, head and relation, with multiword tokens and '
     'the spacing given by SpaceAfter=No; comments and empty nodes are skipped and other MISC content is ignored. Text with too few columns, an unfinished last sentence, an '
     'unfinished multiword token or one whose range is not two numbers, a head that is no number or outside of the sentence, or heads that form no tree gives an error, never silently different sentences.',
     ['inputs'], 'every CoNLL-U text',
     'The tests read a few short files.',
     [IO, DM], [('CoNLL-U reader', IO)], 'documents returned, errors raised',
     'oracle over executions: texts printed from random plain documents by an independent printer, read by the real reader and compared field by field; single-defect texts must be refused',
     'random texts up to 70 words per sentence with hostile characters; ten kinds of defects')

prop('C08', 'Datasets deliver all sentences in order on every traversal and release the file',
     'Each traversal of a dataset of a CoNLL-U file gives the same documents: all sentences of the file in order, cut into documents of the given number of sentences '
     '(the last may be shorter). Traversals that overlap, are abandoned or fail do not influence each other, and no file stays open after a traversal is finished, closed, or has failed.',
     ['schedules', 'histories', 'fault_sequences'], 'every file, document size and schedule of complete, interleaved, abandoned and failing traversals',
     'The tests make one full traversal; interleavings and abandoned traversals are not sampled.',
     [IO, DS], [('reader chunking, dataset iteration', IO), ('CoNLLUDataSet', DS)], 'documents per traversal, open descriptors of the process',
     'runtime monitor over random traversal schedules; open descriptors of the file are read from the operating system',
     'schedules of up to 25 steps over files of up to 16 sentences')

prop('C09', 'Writing CoNLL-U loses nothing: reading the text back gives the documents',
     'The text written for documents is valid CoNLL-U with one line per word, one range line per multiword token and an empty line after every sentence, showing '
     'every form, lemma, tag, feature, head and relation. Reading it back gives the same words, annotation, multiword tokens and sentences.',
     ['inputs'], 'every document (any annotation, multiword tokens anywhere, any spacing)',
     'The tests write a few documents.',
     [IO], [('CoNLL-U writer', IO)], 'written text; documents read back',
     'oracle over executions: the written text goes through an independent strict parser and through the real reader, both compared with the plain document',
     'random documents; strings and files; several documents per file')

prop('C10', 'The selected columns are exactly what is read and written',
     'A reader with selected columns fills exactly the selected annotation and leaves the rest empty; a writer with selected columns writes exactly those and placeholders elsewhere. '
     'This holds for every subset of the columns lemma, universal tag, language tag, features and syntax (head with relation), for every document, and readers and writers with different columns do not influence each other.',
     ['configurations', 'inputs'], 'all 32 column subsets, every document',
     'The tests use one or two subsets.',
     [IO], [('column selection of reader and writer', IO)], 'documents read, text written',
     'oracle over executions: all 32 subsets x random documents compared with the plain document', '32 subsets x 60 random documents (thorough: 800)')

prop('C11', 'Whatever is written can be scored, and is perfect against itself',
     'Every document that can be written, whatever its annotation (parsed or not, multiword tokens, deep trees), is loaded by the scorer without error and counted with its right numbers of tokens, '
     'sentences and words. Scored against itself it gets 1.0 in every metric.',
     ['inputs'], 'every document',
     'The scorer is tested on its own small examples only, the writer on others.',
     [IO, UD], [('writer output accepted by the scorer', UD)], 'loaded counts and scores',
     'oracle over executions: random documents through the real writer and the real scorer', 'random documents including unparsed and mixed ones and chains of 1000+ words')

prop('C12', 'Scores are those of the CoNLL 2017 definition for any pair of annotations',
     'For any gold and system annotation of the same characters the precision, recall, F1 and aligned accuracy of every metric (tokens, sentences, words, tags, features, lemmas, attachment, weighted attachment) equal those of the definition: spans for '
     'tokens and sentences, words aligned by span and, inside of differing multiword tokens, by longest common subsequence, annotation compared on aligned words only. Differing characters are refused.',
     ['inputs'], 'every pair of segmentations and annotations',
     'The tests have a few pairs; regrouped multiword tokens and moved boundaries combine freely.',
     [UD], [('evaluate, alignment of words', UD)], 'all returned scores',
     'differential oracle: an independent implementation of the definition over random pairs', 'pairs derived by merging, splitting, regrouping and re-annotating; weights')

prop('C13', 'The scorer loads every well-formed treebank and refuses every malformed one',
     'A treebank with consecutive word ids, ten columns, one root per sentence, heads inside the sentence, no cycles and complete multiword tokens is loaded with the right spans, words and parents, however long its sentences and dependency chains are. A treebank with '
     'a single defect of those kinds (also an empty form or a missing final empty line) is refused with an error.',
     ['inputs'], 'every treebank and every single defect of it',
     'The tests load a few short treebanks.',
     [UD], [('load_conllu and its checks', UD)], 'loaded structure or error',
     'oracle over executions: random well-formed treebanks and fourteen kinds of single defects', 'random treebanks, chains up to 3000 words')

prop('C14', 'Shuffling loses, repeats and invents nothing and is reproducible',
     'Every complete traversal of a shuffled dataset gives exactly the elements of the source, each as often as it occurs there, in a shuffled order in which no element moves by the window size or more. The orders of the successive traversals are determined by the seed '
     'alone: another dataset with the same seed and source gives the same sequence of orders, whatever the global random state is, and the global random state is not changed. An experiment trains on the shuffled training set exactly when its settings ask for it, with the seed and window they give.',
     ['schedules', 'histories', 'configurations'], 'every source, window, seed and schedule of traversals',
     'The tests shuffle one list with one seed.',
     [DS, EV], [('ShuffledDataSet', DS), ('settings of the training set', EV)], 'order of elements per traversal',
     'runtime monitor over traversal schedules compared with the source and with a twin dataset', 'sources up to a few hundred elements, interleaved and abandoned traversals; the training sets that stand-in trainers of the real evaluation program receive')

prop('C15', 'The rule made of a word and its lemma turns that word into that lemma',
     'For every word and lemma the transformation rule made of them is applicable to the word and gives exactly the lemma, and it replaces no more than what follows their common beginning. Applied to another word with the same ending it replaces exactly this ending; for a word without this ending it is '
     'not applicable and refuses to transform.',
     ['inputs'], 'every pair of strings',
     'The tests have a few pairs.',
     [LT], [('LemmaSuffixTransformation.get_rule / transform', LT)], 'applicability and transformed words',
     'oracle over executions: all pairs up to length 4 over two letters and random hostile pairs', 'enumerated and random pairs')

prop('C16', 'Rule lookup finds exactly the applicable rules, each with its own label',
     'Looking up a word in a set of labelled rules gives every rule whose ending the word properly ends with, every whole-word rule for exactly this word, and no other rule, each once with its label. '
     'It does not depend on the order in which the rules were added.',
     ['inputs'], 'every set of rules and every word',
     'The tests look up a few words in one small trie.',
     [LT], [('LemmaTransformationTrie', LT)], 'rules returned for words',
     'differential oracle: the real trie against a scan over all rules', 'random rule sets x all words up to length 5 over two letters; rules of random corpora')

prop('C17', 'Labels are lossless: decoding the label of a word gives back its annotation',
     'For every training set and every way to encode labels (joint, split and granular tags, lemma dictionary, lemma rules, lemma characters) encoding the annotation of a training word and decoding '
     'it gives the same annotation, as far as the configured limits allow (rare rules and characters dropped, long lemmas cut), and touches nothing else of the word. Every label lies inside the declared range and every label of the range can be decoded; unseen values become a most frequent one.',
     ['inputs', 'configurations'], 'every training set, encoding and limit',
     'The existing tests do not cover the label encoders.',
     [FE, FP], [('label extractors and interpreters', FE)], 'labels, declared ranges, decoded words',
     'oracle over executions: round trips of every token of random corpora through the real encoders and decoders', 'random corpora with repeated words and ambiguous analyses')

prop('C18', 'Words and subwords get the ids of their vocabulary, all others are unknown',
     'Every word form or subword that occurs at least the configured number of times in the training set gets its own id inside the declared size, the same at every occurrence; every other one gets the id of the unknown. Lower-casing is applied to the vocabulary and '
     'to the looked-up words alike when configured, and subword sequences are the pieces of the word in order between the start and end marks.',
     ['inputs', 'configurations'], 'every training set, frequency bound, case setting, segmenter and word',
     'The existing tests do not cover the vocabularies.',
     [FE, FP], [('vocabulary builders', FE)], 'ids of words and subwords',
     'oracle over executions: ids compared with an independent count over random corpora', 'characters, BPE (stand-in for the downloadable model), Morfessor (trained in the check)')

prop('C19', 'Words of a pretrained embedding file get exactly the vector of the file',
     'Every word found in the embedding file gets its own row of the embedding matrix, and this row is initialised with exactly the vector of the file (with or without a first line of sizes); padding is a row of zeros and words not in the file share '
     'the row of the unknown. A file with vectors of different sizes is refused.',
     ['inputs', 'configurations'], 'every embedding file and word, for words and subwords',
     'The existing tests do not read embedding files.',
     [FE, NI, NU], [('embedding readers and matrix initialisers', FE)], 'ids, initial values, rows of the initialised network variable',
     'oracle over executions: ids joined with initial values and with the rows read back from the real initialised network', 'random files; real (tiny) networks')

prop('C20', 'Batches are rectangular, keep every value at its place, and the rest is padding',
     'In a batch every feature has the same length at each level for all sentences and words, each value stays at its place, and every added place holds the padding value. Sentence lengths in the batch are the true lengths, '
     'and building a batch changes neither other batches nor the documents.',
     ['inputs'], 'every batch of sentences and every nesting of features',
     'The existing tests do not cover batching.',
     [FB, FP], [('padding of nested sequences', FB)], 'batches',
     'differential oracle: reference padding of the single values', 'nestings of depth 1-4; real features of random sentences')

prop('C21', 'Random input replacement hits inputs only, at the given rate, only in training',
     'With a replacement rate each input value is independently replaced by the unknown id with this probability and otherwise unchanged; rate 0, or no rate, changes nothing and rate 1 replaces all. Labels, sentence lengths and '
     'applicable-rule masks are never replaced.',
     ['inputs', 'configurations'], 'every value, rate and random outcome',
     'Randomised behaviour is not covered by the tests.',
     [FB, FP, NT], [('sparse input', FB)], 'features with and without replacement',
     'runtime monitor under an ordinary and an adversarial random source; frequency bounds of seven standard deviations', 'random corpora and rates')

prop('C22', 'Assembled features are exactly the union of the features of the parts',
     'Assembling any list of feature and label providers, nested and in any order, gives exactly the features, labels, sizes and initial values the providers give alone, and interpretation applies each provider to its own labels. Two providers with '
     'the same name are refused, and labels never appear among the input features.',
     ['configurations', 'inputs'], 'every list and nesting of providers, every corpus',
     'The existing tests do not cover the assembly.',
     [FB, FP], [('merging of builders and providers', FB)], 'features, labels, shapes, initial values, interpreted words',
     'differential oracle: assembly against the parts alone', 'random provider lists over random corpora')

prop('C23', 'Annotators annotate and do nothing else',
     'Every tagger and parser gives for every document, in order, a document with the same text, tokens, multiword tokens and sentences, with only the annotation of its kind changed (taggers: tags and lemmas; parsers: heads and relations), and leaves the input documents untouched. '
     'Documents are processed one after another as they arrive, so an endless stream of documents can be annotated.',
     ['inputs', 'configurations', 'histories'], 'every stream of documents and every annotator or pipeline of annotators',
     'The tests run annotators on one or two documents.',
     [TG, PA, UW, NT, PR], [('taggers, parsers, wrappers', TG)], 'documents in and out',
     'runtime monitor: snapshots of inputs before and after, skeleton comparison of outputs, laziness of stream consumption', 'stubs, UDPipe (stand-in and trained in the check), neural tagger, pipelines')

prop('C24', 'UDPipe gets the sentences of the document and its answers reach the same words',
     'The UDPipe wrapper gives UDPipe exactly the words of each sentence (and, for parsing, their tags and lemmas), and each answer (lemma, tags, features, head, relation) arrives unchanged at the word it was given for.',
     ['inputs'], 'every document and every answer of UDPipe',
     'No test runs the wrapper on more than trivial data.',
     [UW], [('UDPipe wrapper', UW)], 'calls at the UDPipe interface; annotated documents',
     'runtime monitor at the UDPipe interface (recording stand-in with arbitrary answers) and comparison with direct output of a trained model', 'random documents and answers')

prop('C25', 'A pipeline applies its processors in order and closes all of them',
     'A pipeline gives every document to its processors in the given order and returns the documents in order, lazily. When it is used as a context every processor is entered once in order, and every entered one is '
     'left exactly once, also if entering, processing or leaving another one fails; errors are not swallowed.',
     ['fault_sequences', 'inputs'], 'every pipeline and every assignment of failures',
     'The tests have no failing processors.',
     [PR], [('ComplexProcessor', PR)], 'event log of enter, process, exit',
     'runtime monitor with fault injection: all fault assignments for up to four processors, event log against the specification', 'all assignments for <= 4 processors, random ones for 5')

prop('C26', 'Testing shows taggers only text and tokens, and scores their answers honestly',
     'When a tagger is tested it is shown the gold sentences with no tag, lemma, head or relation, and the reported scores are those of its answers against the untouched gold data, the same with gold data in memory or in a file. With a results directory its answers are saved there '
     'under the given name; without one nothing is written.',
     ['inputs'], 'every gold treebank and every tagger',
     'The end-to-end tests use one tagger and one treebank.',
     [EV], [('testers over datasets and files', EV)], 'documents shown, scores, files written',
     'runtime monitor: a scripted tagger records what it sees; scores against the independent scorer', 'random treebanks with chosen mistakes')

prop('C27', 'The reported and tested model is the best one by the chosen scores',
     'Over all epochs and hyperparameter settings the model reported and finally tested is the one with the highest sum of the chosen scores on the development set, the earliest one in a tie, with its own hyperparameters and scores; every other model is '
     'discarded exactly once and the best one never.',
     ['histories', 'configurations'], 'every history of scores and every choice of metric',
     'The tests see one history.',
     [EV], [('score comparison, epoch and parameter search', EV)], 'scores, tested model, discarded paths, printed tables',
     'runtime monitor: scripted trainers with arbitrary score histories drive the real selection code and program', 'histories up to 12 epochs and 8 settings')

prop('C28', 'Results over several seeds are the means over the seeds',
     'With several seeds every reported development and test score is the mean of the scores of the seeds, each seed contributing the scores of its own best model; the selection among hyperparameter settings uses these means. Missing aligned accuracies '
     'do not break the averaging.',
     ['histories', 'configurations'], 'every number of seeds and every score history',
     'The tests average one example.',
     [EV], [('multi-seed evaluation and averaging', EV)], 'averaged scores, printed tables',
     'oracle over executions: scripted models per seed, reported averages compared with means', 'up to several seeds; whole program runs on files')

prop('C29', 'A grid search trains every combination of the grid exactly once',
     'A grid search trains and compares each combination of one entry of every dimension exactly once, and each combination equals the base hyperparameters except for the named parameters, which have the values of the grid. Grids with unknown parameters, with different parameters inside of '
     'one dimension, or with the same parameter in two dimensions (also inside of groups) are refused before anything is trained.',
     ['configurations'], 'every base configuration and every grid',
     'The tests have one or two grids.',
     [GR], [('grid expansion and validation', GR)], 'recorded trainings',
     'runtime monitor: the real program is run, every training is recorded and compared with the product of the grid', 'random nested bases and grids')

prop('C30', 'Evaluation deletes only the models it made itself, only when asked',
     'An evaluation deletes nothing unless deletion of models is requested; then it deletes only directories of models trained in the same run, none before its last use, and leaves no model behind after success. If the model directory already contains anything, a run with deletion is refused '
     'before anything is trained or removed.',
     ['inputs', 'fault_sequences', 'configurations'], 'every directory layout, run and failing point',
     'The tests delete one model directory.',
     [EV, GR], [('model disposal', EV)], 'removal events of the process, file system snapshots',
     'runtime monitor: audit hook records and guards every removal, snapshots before and after, failing models as faults', 'random layouts in a scratch directory')

prop('C31', 'Training shows every sentence once per epoch at the documented learning rate',
     'For every documented configuration training works, and in every epoch the network is given every sentence of the training set exactly once, in order, in batches of the configured size, with its own features and labels, the configured dropout and the scheduled learning rate: divided in each epoch by one plus decay times the epoch number, and '
     'by the decrease factor after an epoch whose development accuracy exceeds neither the previous one nor the mean of the last five. Unambiguous tiny treebanks are learned.',
     ['configurations', 'inputs', 'histories'], 'all combinations of builders, splittings, lemmatizers, aggregators and optimizers; every treebank and history of scores',
     'No existing test that passes here trains a network.',
     [NT, NS, NK, NP, NN, NU], [('training loop, network builders', NT)], 'batches, labels and rates given to the network; losses; learned tags',
     'runtime monitor on the training interface of the model: recorded feeds compared with the specification; real (tiny) networks are trained', 'tiny networks; dilation 1 only')

prop('C32', 'A saved model gives the answers of the model that was saved',
     'A tagger that was saved gives exactly the answers of the one in memory at the moment of saving: at once, after further training, after saving others, after moving its directory, loaded again and again, in another process, and through the trainer of pretrained models, which finds every '
     'saved model once. A network that is loaded again goes on training like the one that was saved.',
     ['histories', 'configurations'], 'every configuration, treebank and history of training, saving and loading',
     'No existing test that passes here saves a model.',
     [NM, NT, NN, NI], [('save and load of models', NM)], 'answers before and after',
     'runtime monitor: answers recorded in memory are compared with those of saved, moved, reloaded models in this and other processes', 'tiny networks of all builders')

prop('C33', 'Training is a function of the treebank, the configuration and the seed',
     'Two trainings with the same treebank, configuration (without random input replacement) and seed give the same losses and the same answers after every epoch, in one process or in different ones, whatever else was trained before. Different seeds give different networks.',
     ['configurations', 'histories'], 'every configuration, treebank, seed and process',
     'No existing test that passes here trains a network twice.',
     [NN, NT, FE], [('seeding of the graph, deterministic vocabularies', NN)], 'losses of all batches, answers of all epochs',
     'runtime monitor: recorded loss traces of repeated trainings in this and other processes (other hash seeds) are compared', 'tiny networks, one thread, tolerance 1e-5')

prop('C34', 'Answers do not depend on the batch and the loss is a mean over words',
     'For configurations without convolutions over padding the answers for a sentence do not depend on the other sentences of its batch, and the loss of a batch is the mean of the losses of its words, padding not counted, where the loss is the sum of the losses of all targets multiplied by their configured weights. Dropout acts in training only, '
     'and a step with learning rate 0 changes nothing.',
     ['inputs', 'configurations'], 'every batch of sentences, every such configuration',
     'No existing test that passes here runs a network.',
     [NS, NK, NN, NU], [('masks, norms and weights of losses', NK)], 'predictions and losses of batches',
     'metamorphic oracle on executions of real (tiny) networks: batches against single sentences, weights against each other', 'word vectors, trained words, averaged characters; BiLSTM variants')

prop('C35', 'Predictions are made of the training set: known tags, applicable lemma rules',
     'Whatever the network computes, every predicted part of a tag occurs in the training set, and every predicted lemma is a training lemma (dictionary), the result of a kept rule applicable to the word whenever there is one (rules), or made of at most the configured number of training characters (characters). '
     'Of the known tags and lemmas and the applicable rules the one with the smallest loss is predicted. Only the configured tasks are annotated.',
     ['inputs', 'configurations'], 'every treebank, configuration, network state and word',
     'No existing test that passes here runs a network.',
     [NK, FE, NT], [('masks of applicable rules, interpreters', NK)], 'annotated words',
     'runtime monitor on hardly trained networks of random seeds over hostile documents: every answer judged against the training set', 'tiny networks of all lemmatizers')

prop('C37', 'Embeddings are updated in training exactly when they are configured so',
     'In training the vectors of an embedding change if and only if its configuration says `trainable` (embeddings of trained words and characters without pretrained vectors always change): pretrained vectors of fixed word, '
     'subword and lemma embeddings keep their values to the last bit through every training, and a trained embedding changes in the rows of the words that occurred in the batches and in no others.',
     ['configurations', 'histories'], 'every combination of embeddings, every optimizer, every sequence of batches',
     'No existing test that passes here trains a network.',
     [FE, NI, NS, NK, NM], [('initializers and trainability of embeddings', NS)], 'embedding matrices of the session before and after steps',
     'runtime monitor: embedding matrices are read from the session around real training steps and whole trainings', 'tiny networks with all kinds of embeddings, all optimizers')

prop('C38', 'A training step follows the clipped gradient of the reported loss',
     'A training step moves all parameters by the rule of the configured optimizer and the given learning rate along the gradient of the loss it reports, scaled down when its global norm is above 5; the reported loss is that before the step. '
     'The gradient reaches every trained parameter of the network that the loss depends on. Predicting changes nothing, and an unknown optimizer is refused.',
     ['configurations', 'histories'], 'every configuration, optimizer, learning rate and sequence of batches',
     'No existing test that passes here trains a network.',
     [NN, NM, NK, NS], [('optimizers and clipping', NN)], 'all parameters and losses before and after each step',
     'runtime monitor: parameters read around real steps are compared with a reference optimizer, gradients with finite differences of the reported loss', 'tiny networks of all builders; GradientDescent, Adam, RMSProp')

prop('C39', 'Every opened model is closed, however its use ends',
     'Sessions and files opened for training, evaluation or tagging are closed when the use of the model ends: when training or tagging is done, when it is given up half-way, and when the data, the tester, saving or loading a damaged model fail. '
     'At no time more models are open than are in use.',
     ['histories', 'fault_sequences'], 'every way to end a training or a tagging at every point',
     'No existing test that passes here opens a session.',
     [NM, NT], [('context managers of models', NM), ('lazy tagger', NT)], 'opened and closed sessions, open file descriptors',
     'runtime monitor: hooks count opened and closed sessions and file descriptors while real trainings and taggings end, are given up or fail at injected points', 'tiny networks; failures injected in data, tester, saving and model files')

prop('C40', 'The scorer program prints the scores of its files or fails without any',
     'The scorer program, called as documented with two files and optionally a file of weights, prints the scores of exactly these files under exactly these weights, in every locale, for every order of options, and changes no file. '
     'For malformed or missing input it fails (with a non-zero exit code) and prints no score.',
     ['inputs', 'configurations'], 'every pair of files, weights file, order of options and locale',
     'The tests call the functions of the scorer; the program is not run.',
     [UD], [('main, load_deprel_weights, load_conllu_file', UD)], 'standard output, exit code and files',
     'oracle over executions of the real program: printed scores are compared with an independent scorer; malformed files and options must fail silently', 'in the process and as own processes under ASCII locales')

prop('C41', 'Results do not depend on the environment of the process',
     'What is read from treebanks, embedding files and experiment settings, what is written, scored, looked up and printed in experiments does not depend on the locale, the hash seed, the time zone, the working directory (absolute or relative paths), '
     'the file mask, optimization flags of the interpreter or earlier work of the process; all files are UTF-8.',
     ['configurations', 'inputs'], 'every set of files, every environment',
     'Tests run in the one environment of the developer.',
     [IO, UD, DS, EV, GR, FE, FB], [('opening and encoding of files', IO), ('settings of experiments', EV), ('embedding files', FE)], 'all results and written files',
     'runtime monitor: the same work is observed in this process and in processes with other environments, and all results are compared', 'two parts: formats, scores, vectors; whole experiments with the stub method')

prop('C42', 'In whole experiments printed scores, saved answers and models agree',
     'An experiment of the evaluation program (or its grid variant) with real training prints for every epoch the scores of the answers of that epoch on the development set, after every training those of its best epoch, and in the end the means over the seeds of the scores of the best epochs of the best hyperparameters, with these hyperparameters; '
     'the saved answers are those that were scored, the saved models give the same answers and final scores again as pretrained models, the printed loss of an epoch is the mean over its batches. The shipped sample of hyperparameters works; '
     'wrong configurations (unknown names, sums of different sizes, no layers, missing files) fail before anything is trained, scored or written.',
     ['configurations', 'inputs'], 'every configuration, treebank, list of seeds and of hyperparameters',
     'No existing test that passes here runs an experiment.',
     [EV, GR, TR, NT, NP, NS, NK, NN, IO], [('evaluators and testers', EV), ('training', NT), ('builders', NP)], 'program output, written files, saved models',
     'runtime monitor: every tagger of a real experiment is asked again by the monitor and everything printed and written is compared with an independent scorer', 'tiny networks; the shipped sample scaled down, without dilation')

prop('C36', 'The wrapper of the Dozat parser keeps words and answers aligned',
     'Every word of every document is given to the external graph parser once and in order, with its form, lemma, tags, features, head and relation, and its predictions, however they are grouped into batches and ordered, arrive unchanged at the same words: '
     'tags and lemmas, head and relation, and the requested extra fields, while other extras, the text, spans and sentences stay. A call is not influenced by earlier ones, also failed ones, the saved parameters are used, '
     'the session is closed when the context is left or cannot be entered, and models of the other kind, unknown extra fields and use outside of the context are refused.',
     ['inputs', 'histories', 'fault_sequences'], 'every document, batch size, set of outputs and history of calls',
     'The external parser is not part of the repository, so there is no test of the wrapper at all.',
     [B + 'wrappers/tdozat.py', IO], [('wrapper', B + 'wrappers/tdozat.py')], 'rows given to the parser, annotated documents, sessions',
     'runtime monitor at the interface of the external parser: a recording stand-in answers with a function of what it got for each word, fault injection in batches, documents and parameters', 'the submodule is replaced by a stand-in with its interface, over real TensorFlow graphs and saved parameters')

NA = []


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in sorted(P + NA, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quantifier']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']], 'observe_at': [p['observe']]}},
                ensure_ascii=False) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': 'bash /verif/setup.sh',
        'checks': [{'property': p['id'], 'quick_cmd': 'bash /verif/run.sh ' + p['id'],
                    'thorough_cmd': 'VERIF_TIER=thorough bash /verif/run.sh ' + p['id'],
                    'technique': 'runtime monitoring: ' + p['technique'], 'level': 'exploration', 'level_note': p['note']} for p in P],
        'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
        'notes': 'No hooks in /repo: the monitors observe public interfaces. VERIF_SEED selects the workload; a violation is replayed with '
                 'bash /verif/run.sh CNN --replay FILE.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write('\n')


if __name__ == '__main__':
    main()
