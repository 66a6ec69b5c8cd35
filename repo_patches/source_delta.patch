From 0ecc03892bf863a872fe5bd9432fdfb0ec7718c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:50 +0000
Subject: [PATCH 01/46] fix: a sentence ending in a multiword token was written
 again into the next sentence

---
 babylondigger/evaluation/conllu_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index fd99f75..ba3d7b1 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -196,7 +196,7 @@ class _AbstractWriterState(object):
     def write_token(self, token: NavigableToken) -> '_AbstractWriterState':
         pass
 
-    def write_end_of_sentence(self):
+    def write_end_of_sentence(self) -> '_AbstractWriterState':
         pass
 
 
@@ -222,6 +222,7 @@ class _RegularTokenWriterState(_AbstractWriterState):
         super().write_end_of_sentence()
         self.__file.write("\n")
         self.__index = 0
+        return self
 
     def write_to_file(self, line):
         self.__file.write(line)
@@ -304,7 +305,7 @@ class CoNLLUWriter(object):
         for sentence in doc.sentences:
             for token in sentence:
                 state = state.write_token(token)
-            state.write_end_of_sentence()
+            state = state.write_end_of_sentence()
 
 
 def to_conll(column_extractors, index: int, token: NavigableToken, write_space_after: bool = True, fake_heads: bool = True) -> List[str]:
-- 
2.43.0


From 6afedc44c2cbfa3c648e6cb3b12ed38400b2d8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:51 +0000
Subject: [PATCH 02/46] fix: CoNLL-U writer crashed when FEATS column is not
 selected

---
 babylondigger/evaluation/conllu_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index ba3d7b1..b4868d6 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -313,7 +313,7 @@ def to_conll(column_extractors, index: int, token: NavigableToken, write_space_a
         return s if s is not None else "_"
 
     def __feats_to_string(feats: Dict) -> str:
-        if len(feats) == 0:
+        if not feats:
             return "_"
         return "|".join(sorted("{}={}".format(*item) for item in feats.items()))
 
-- 
2.43.0


From b3e3737929c8fb80e8d2bf233a866afd4976baa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 03/46] fix: empty node inside of a multiword token was read as
 one of its words

---
 babylondigger/evaluation/conllu_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index b4868d6..df2a46c 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -86,6 +86,8 @@ class _MultiWordReaderState(_AbstractReaderState):
         self._token_end = token_end
 
     def _process_token(self, parsed_token: 'InternalToken') -> _AbstractReaderState:
+        if '.' in parsed_token.id:  # empty token
+            return self
         self._tokens.append(Token(start=self._token_start, end=self._token_end,
                                   pos=parsed_token.pos, lemma=parsed_token.lemma,
                                   head_sentence_index=self._compute_head(parsed_token.head), deprel=parsed_token.deprel,
-- 
2.43.0


From 6b91f45c0aba4791bcf0d24e8593206043e838d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:53 +0000
Subject: [PATCH 04/46] fix: CoNLL-U reader crashed on MISC entries without "="

---
 babylondigger/evaluation/conllu_io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index df2a46c..80c5180 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -173,7 +173,7 @@ def _line_parser(columns: Set[int]):
             lemma=lemma_extractor(token_repr),
             head=head_extractor(token_repr),
             deprel=deprel_extractor(token_repr),
-            space_after=_parse_to_dict(token_repr[MISC]).get("SpaceAfter") is None)
+            space_after=_parse_misc(token_repr[MISC]).get("SpaceAfter") is None)
     return _parse_line
 
 
@@ -190,6 +190,12 @@ def _parse_to_dict(feats: Optional[str]) -> Dict[str, str]:
     return {entry[0]: entry[1] for entry in map(lambda s: s.split("="), feats.split("|"))}
 
 
+def _parse_misc(misc: Optional[str]) -> Dict[str, str]:
+    if misc is None:
+        return {}
+    return dict(entry.split("=", 1) for entry in misc.split("|") if "=" in entry)  # MISC could contain any values
+
+
 ########## writer ##########
 
 
-- 
2.43.0


From 388251cf07c829da2d8c5d9418375c7f879a17be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:54 +0000
Subject: [PATCH 05/46] fix: CoNLL-U reader truncated feature values containing
 "="

---
 babylondigger/evaluation/conllu_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index 80c5180..5f84940 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -187,7 +187,7 @@ def _parse_pos(upos: Optional[str], xpos: Optional[str], feats: Optional[str]) -
 def _parse_to_dict(feats: Optional[str]) -> Dict[str, str]:
     if feats is None:
         return {}
-    return {entry[0]: entry[1] for entry in map(lambda s: s.split("="), feats.split("|"))}
+    return {entry[0]: entry[1] for entry in map(lambda s: s.split("=", 1), feats.split("|"))}
 
 
 def _parse_misc(misc: Optional[str]) -> Dict[str, str]:
-- 
2.43.0


From 558e0cd1e524ec78d84308c4aa1643f63235bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:55 +0000
Subject: [PATCH 06/46] fix: UDPipe wrapper truncated feature values containing
 "="

---
 babylondigger/wrappers/udpipe1_2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/wrappers/udpipe1_2.py b/babylondigger/wrappers/udpipe1_2.py
index 86f915e..0eb3119 100644
--- a/babylondigger/wrappers/udpipe1_2.py
+++ b/babylondigger/wrappers/udpipe1_2.py
@@ -95,7 +95,7 @@ def convert_from_ud(sentence: NavigableSentence, ud_sent: ud.Sentence) -> List[T
     for token, word in zip(sentence, ud_sent.words[1:]):  # skip <root> in ud_sent
         feats = None
         if word.feats:
-            feats = {entry[0]: entry[1] for entry in map(lambda s: s.split("="), word.feats.split("|"))}
+            feats = {entry[0]: entry[1] for entry in map(lambda s: s.split("=", 1), word.feats.split("|"))}
         pos = Pos(non_empty(word.upostag), non_empty(word.xpostag), feats) if word.upostag or word.xpostag or feats else None
         head = None
         if word.head is not None and word.head >= 0:
-- 
2.43.0


From fd7327ca668154d7f417d1b1c95152133cb82e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:56 +0000
Subject: [PATCH 07/46] fix: head outside of the sentence was taken for a root
 when its index happened to be -1

---
 babylondigger/datamodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 75a6554..60380f4 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -142,7 +142,8 @@ class Token(object):
 
     @property
     def is_root(self) -> bool:
-        return self.__head_document_index == -1 or self.__head_sentence_index == -1
+        return self.has_head and \
+               self.__head_document_index in (None, -1) and self.__head_sentence_index in (None, -1)
 
     @property
     def deprel(self) -> str:
@@ -229,7 +230,7 @@ class Token(object):
     def fill_heads(cls, token: 'Token', sentence_start: int):
         if token.__head_sentence_index is None and token.__head_document_index is None:
             return token
-        if token.__head_sentence_index == -1 or token.__head_document_index == -1:
+        if token.is_root:
             return token.with_syntax(token, token.__deprel, head_document_index=-1, head_sentence_index=-1)
         head_document_index = token.__head_document_index
         head_sentence_index = token.__head_sentence_index
-- 
2.43.0


From 8a7b498e0691aa359e6b721dbff6c3521e623cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:57 +0000
Subject: [PATCH 08/46] fix: document accepted first multiword token with
 skipped parts

---
 babylondigger/datamodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 60380f4..b3247fa 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -440,6 +440,9 @@ class Document(_WordList):
             self.__sentences = []
             return
 
+        if self._tokens[0].sub_index != 0:
+            raise ValueError('multiword token is skipped (first token: {})'.format(self._tokens[0]))
+
         if sentences[-1].end > len(tokens):
             raise ValueError('sentence refers to nonexistent token (sentence: {}, tokens count: {})'
                              .format(sentences[-1], len(tokens)))
-- 
2.43.0


From 159eeda1ae1baa9ce2c50b41290922156bbf7548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:58 +0000
Subject: [PATCH 09/46] fix: document without tokens accepted sentences,
 from_document accepted loss of all tokens

---
 babylondigger/datamodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index b3247fa..328ca3b 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -437,6 +437,8 @@ class Document(_WordList):
         _WordList.__init__(self, text, tokens, lambda token: token._head_document_index, sorted_sentences=sentences)
 
         if len(tokens) == 0:
+            if sentences is not None and list(sentences):
+                raise ValueError('sentence refers to nonexistent token (tokens count: 0)')
             self.__sentences = []
             return
 
@@ -565,7 +567,7 @@ class Document(_WordList):
     @classmethod
     def from_document(cls, document: 'Document', tokens: List[Token]):
         sorted_tokens = sorted(tokens, key=attrgetter('start', 'end', 'sub_index'))
-        if any(not old.coincides(new) for (old, new) in zip(document._tokens, sorted_tokens)):
+        if len(sorted_tokens) != document.tokens_count or any(not old.coincides(new) for (old, new) in zip(document._tokens, sorted_tokens)):
             raise ValueError("new tokens should coincide old ones")
         return cls(document.document_text, sorted_tokens, document.__sentences)
 
-- 
2.43.0


From 629e6d38bc6e3bb8fa0c113972ef1dbfdc73639d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:59 +0000
Subject: [PATCH 10/46] fix: document accepted tokens outside of its text

---
 babylondigger/datamodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 328ca3b..a1ebc2f 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -442,6 +442,9 @@ class Document(_WordList):
             self.__sentences = []
             return
 
+        if self._tokens[-1].end > len(text):
+            raise ValueError('token is outside of the text (token: {}, text length: {})'.format(self._tokens[-1], len(text)))
+
         if self._tokens[0].sub_index != 0:
             raise ValueError('multiword token is skipped (first token: {})'.format(self._tokens[0]))
 
-- 
2.43.0


From 3fcac9588f401bef93c867f391ea79f032c608c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:00 +0000
Subject: [PATCH 11/46] fix: tokens with different sentence heads were equal

---
 babylondigger/datamodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index a1ebc2f..7900d54 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -180,7 +180,8 @@ class Token(object):
             return self.__start == other.__start and self.__end == other.__end and \
                    self.pos == other.pos and self.lemma == other.lemma and \
                    self._head_document_index == other._head_document_index and \
-                   self._head_sentence_index == self._head_sentence_index and self.deprel == other.deprel and \
+                   (self._head_document_index is not None or self._head_sentence_index == other._head_sentence_index) and \
+                   self.deprel == other.deprel and \
                    self.sub_index == other.sub_index and self.text_replacement == other.text_replacement and \
                    self.extras == other.extras
         return NotImplemented
-- 
2.43.0


From 482b39018746cb36086807be184dc5402100b18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:00 +0000
Subject: [PATCH 12/46] fix: comparison of token extras with other objects
 raised TypeError

---
 babylondigger/datamodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 7900d54..26e3fff 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -69,7 +69,7 @@ class TokenExtras(object):
     def __eq__(self, other):
         if isinstance(other, TokenExtras):
             return self.__extras == other.__extras
-        raise NotImplemented
+        return NotImplemented
 
     def as_dict(self):
         return deepcopy(self.__extras)
-- 
2.43.0


From f2374379034632a2be724f1fb19e41f12ce20a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 13/46] fix: head of the token without syntax raised TypeError

---
 babylondigger/datamodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 26e3fff..25af3d6 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -408,7 +408,7 @@ class NavigableToken(DocumentToken, _NavigableItem['NavigableToken']):
 
     @property
     def head(self) -> Optional['NavigableToken']:
-        if self.is_root:
+        if self.is_root or not self.has_head:
             return None
         return self.__token_getter(self.head_index)
 
-- 
2.43.0


From 81d6b0aac515e8f9c37eabd9c80feb8a881f13d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:02 +0000
Subject: [PATCH 14/46] fix: str() of the document without tokens raised
 IndexError

---
 babylondigger/datamodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 25af3d6..3bb521d 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -540,6 +540,8 @@ class Document(_WordList):
         return self.__sentences
 
     def __str__(self):
+        if not self._tokens:
+            return self.document_text
         result = self.document_text[0:self._tokens[0].start]
         pointer = self._tokens[0].start
         for sentence in self.__sentences:
-- 
2.43.0


From 405581925567d644449cf463f8d0945a37a52adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:03 +0000
Subject: [PATCH 15/46] fix: Pos with and without XPOS (UPOS) could not be
 ordered

---
 babylondigger/datamodel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 3bb521d..af446b5 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -41,7 +41,7 @@ class Pos(object):
     def __lt__(self, other):
         if not isinstance(other, Pos):
             return NotImplemented
-        return self.__tuple_view() < other.__tuple_view()
+        return self.__ordering_key() < other.__ordering_key()
 
     def __hash__(self):
         return hash(self.__tuple_view())
@@ -49,6 +49,10 @@ class Pos(object):
     def __tuple_view(self):
         return self.__upos, self.__xpos, tuple(sorted(self.__feats.items()))
 
+    def __ordering_key(self):
+        upos, xpos, feats = self.__tuple_view()
+        return (upos is not None, upos), (xpos is not None, xpos), feats
+
 
 class TokenExtras(object):
     def __init__(self, extras: dict):
-- 
2.43.0


From c4e98ccd49e3c201bed38696abcdf36083e04e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:04 +0000
Subject: [PATCH 16/46] fix: pos_XF labels could not be enumerated if XPOS is
 specified partly

---
 babylondigger/features/extractors.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index 873af00..511a322 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -615,11 +615,17 @@ def _id2obj(labels_counts: Dict[__T, int], threshold=0) -> List[__T]:
         objects = filter(lambda item: item[1] > threshold, objects)
     objects = map(lambda item: item[0], objects)
     objects = filter(lambda obj: obj != most_common, objects)
-    id2obj = sorted(objects, key=lambda x: (x is not None, x))
+    id2obj = sorted(objects, key=_sort_key)
     id2obj.insert(0, most_common)
     return id2obj
 
 
+def _sort_key(obj):
+    if isinstance(obj, tuple):
+        return True, tuple(map(_sort_key, obj))
+    return obj is not None, obj
+
+
 def _obj2id(id2obj: List[__T]) -> Dict[__T, int]:
     return {obj: i for i, obj in enumerate(id2obj)}
 
-- 
2.43.0


From 40901bf399535395b4d0322bcc646d728c045bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:05 +0000
Subject: [PATCH 17/46] fix: vocabulary of trained word embeddings consisted of
 characters instead of (lowercased) words

---
 babylondigger/features/extractors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index 511a322..bd2419e 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -122,7 +122,7 @@ class TrainableEmbeddingsExtractorBuilder(builder.FeatureExtractorBuilder[Naviga
         self.__lowercase = lowercase
 
     def build(self, dataset: Iterable[Document]):
-        tokens = chain.from_iterable(_tokens(dataset, lambda token: token.text))
+        tokens = _tokens(dataset, lambda token: token.text.lower() if self.__lowercase else token.text)
         counter = Counter(tokens)
         filtered = map(lambda item: item[0], filter(lambda item: item[1] >= self.__threshold, counter.most_common()))
         word2id = {wr: index for index, wr in enumerate(sorted(filtered), 2)}
-- 
2.43.0


From bff4eb847f5c547978df7ee4f2be4bde17a1bb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:06 +0000
Subject: [PATCH 18/46] fix: whole word lemma transformation rules were
 applicable to longer words

---
 babylondigger/lemmas/transformation_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/babylondigger/lemmas/transformation_rules.py b/babylondigger/lemmas/transformation_rules.py
index 0b2a905..29bd302 100644
--- a/babylondigger/lemmas/transformation_rules.py
+++ b/babylondigger/lemmas/transformation_rules.py
@@ -128,8 +128,8 @@ class LemmaTransformationTrie(object):
             if child is None:
                 break
             current = child
-
-        _extend(result, current.__exceptions)
+        else:  # whole word
+            _extend(result, current.__exceptions)
         return result
 
     @classmethod
-- 
2.43.0


From 55b30f18ab0668412010f45be7d71db57817f466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:07 +0000
Subject: [PATCH 19/46] fix: unseen lemma label could be out of range

---
 babylondigger/features/extractors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index bd2419e..60074bd 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -414,7 +414,7 @@ class LemmaDictFeatureExtractor(builder.FeatureExtractorInterface[Token, List[in
         self.__lemma2id = lemma2id
 
     def get_features(self, obj: Token, **kwargs) -> Dict[str, List[int]]:
-        return {self.__label_name: [self.__lemma2id.get(obj.lemma, OOV)]}
+        return {self.__label_name: [self.__lemma2id.get(obj.lemma, 0)]}
 
 
 class LemmaDictInterpreter(builder.InterpreterInterface[DocumentToken, List[int]]):
-- 
2.43.0


From a2a701238ea2da9fe5f0794d30242456e70c4859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:08 +0000
Subject: [PATCH 20/46] fix: lemma rules could not be built for unhashable
 dataset (e.g. list of documents)

---
 babylondigger/features/extractors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index 60074bd..d1b264b 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -439,12 +439,12 @@ class CachedSuffixRulesBuilder(object):
         self.__cache = {}
 
     def build_rules(self, dataset: Iterable[Document]):
-        if dataset not in self.__cache:
+        if id(dataset) not in self.__cache:
             suffix_count = _count_labels(dataset, _suffix_transformation)
             id2suffix = _id2obj(suffix_count, self.__threshold)
             suffix2id = _obj2id(id2suffix)
-            self.__cache[dataset] = (suffix2id, id2suffix)
-        return self.__cache[dataset]
+            self.__cache[id(dataset)] = (dataset, (suffix2id, id2suffix))  # keep dataset to make id unique
+        return self.__cache[id(dataset)][1]
 
 
 class LemmaSuffixTransformationFeatureExtractorBuilder(builder.FeatureExtractorBuilder[NavigableToken, int]):
-- 
2.43.0


From f3d3f67beacf2d2c6b42915ec36d3bec83dd6ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 21/46] fix: input feature could be replaced with UNKNOWN when
 sparse rate is 0

---
 babylondigger/features/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/features/builder.py b/babylondigger/features/builder.py
index 08367c5..0964bc2 100644
--- a/babylondigger/features/builder.py
+++ b/babylondigger/features/builder.py
@@ -185,7 +185,7 @@ class SparseFeatureExtractor(FeatureExtractorInterface[_T, _V]):
 
 def _sparse_rate_sequence(input_, sparse_rate):
     if isinstance(input_, int):
-        return input_ if random.random() > sparse_rate else OOV
+        return input_ if random.random() >= sparse_rate else OOV
     elif isinstance(input_, list):
         return [_sparse_rate_sequence(el, sparse_rate) for el in input_]
     else:
-- 
2.43.0


From 252cd8e2ad19f2256226d49691f17559f2054042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:10 +0000
Subject: [PATCH 22/46] fix: complex processor built from an iterator skipped
 its processors after __enter__

---
 babylondigger/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/processor.py b/babylondigger/processor.py
index 71e34dd..0767eab 100644
--- a/babylondigger/processor.py
+++ b/babylondigger/processor.py
@@ -16,7 +16,7 @@ class DocumentProcessorInteface(object):
 
 class DocumentComplexProcessor(DocumentProcessorInteface):
     def __init__(self, processors: Iterable[DocumentProcessorInteface]):
-        self.__processors = processors
+        self.__processors = list(processors)
 
     def process(self, documents: Iterator[Document]) -> Iterator[Document]:
         result = documents
-- 
2.43.0


From d4792ba069536455798791b11b59b0661bc5a310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:11 +0000
Subject: [PATCH 23/46] fix: averager crashed on metrics without aligned
 accuracy

---
 babylondigger/evaluation/evaluation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/babylondigger/evaluation/evaluation.py b/babylondigger/evaluation/evaluation.py
index 72346a5..8f076d6 100644
--- a/babylondigger/evaluation/evaluation.py
+++ b/babylondigger/evaluation/evaluation.py
@@ -241,8 +241,8 @@ def get_metrics_averager(metrics: List[str]):
                 if score[metric].aligned_accuracy is not None:
                     sums[metric]['aligned_accuracy'] += score[metric].aligned_accuracy
 
-        return {metric: _Scores(**{key: value / len(scores) for key, value in sums[metric].items()}) for metric in
-                metrics}
+        return {metric: _Scores(**{key: sums[metric][key] / len(scores) if key in sums[metric] else None
+                                   for key in _Scores._fields}) for metric in metrics}
 
     return calculate_average_scores
 
-- 
2.43.0


From 2afc02800a18d803292da6ed6788fd2515007ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:12 +0000
Subject: [PATCH 24/46] fix: averaged scores did not contain fields used for
 comparison

---
 babylondigger/evaluation/evaluation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/evaluation.py b/babylondigger/evaluation/evaluation.py
index 8f076d6..24368ab 100644
--- a/babylondigger/evaluation/evaluation.py
+++ b/babylondigger/evaluation/evaluation.py
@@ -259,7 +259,8 @@ def main(args):
 
     trainer = get_trainer(args.method)
 
-    metrics_averager = get_metrics_averager(args.settings["metric_printer"]["fields"])
+    metrics_averager = get_metrics_averager(sorted({*args.settings["metric_printer"]["fields"],
+                                                    *args.settings["cmp_metric"]["fields"]}))
     estimator = __build_estimator(args, metrics_printer, metrics_averager)
     hyperparams = args.hyperparams
     if not isinstance(hyperparams, list):
-- 
2.43.0


From 7fce92674d898f8d45cfd55ed811d9ddd9bf0b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:14 +0000
Subject: [PATCH 25/46] fix: negative HEAD of multiword token words was not
 rejected

---
 babylondigger/evaluation/conll17_ud_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conll17_ud_eval.py b/babylondigger/evaluation/conll17_ud_eval.py
index 3f16d69..1f5c09e 100644
--- a/babylondigger/evaluation/conll17_ud_eval.py
+++ b/babylondigger/evaluation/conll17_ud_eval.py
@@ -164,7 +164,7 @@ def load_conllu(file):
                     raise UDError("There is a cycle in a sentence")
                 if word.parent is None:
                     head = int(word.columns[HEAD])
-                    if head > len(ud.words) - sentence_start:
+                    if head < 0 or head > len(ud.words) - sentence_start:
                         raise UDError("HEAD '{}' points outside of the sentence".format(word.columns[HEAD]))
                     if head:
                         parent = ud.words[sentence_start + head - 1]
-- 
2.43.0


From b375e4ac7afe9fddc86bdc4c4557db880e23d5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 26/46] fix: dense task network could not be built without
 loss_weights

---
 babylondigger/neural/tagger/task_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/tagger/task_builders.py b/babylondigger/neural/tagger/task_builders.py
index 45a2533..1a3c9c7 100644
--- a/babylondigger/neural/tagger/task_builders.py
+++ b/babylondigger/neural/tagger/task_builders.py
@@ -52,7 +52,7 @@ class DenseTaskNetworkBuilder(AbstractTaskNetworkBuilder):
 
     def _sum_losses(self, losses):
         if self.__loss_weights is None:
-            return tf.reduce_sum(tf.stack(losses), name='loss')
+            return tf.reduce_sum(tf.stack(list(losses.values())), name='loss')
 
         weighted_losses = []
         for loss in losses:
-- 
2.43.0


From d0f1f74c5443a6fd88201a077b8506c853783be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:54 +0000
Subject: [PATCH 27/46] fix: lemma_combo task network could not be built
 without loss_weights

---
 babylondigger/neural/tagger/task_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/tagger/task_builders.py b/babylondigger/neural/tagger/task_builders.py
index 1a3c9c7..0f84e50 100644
--- a/babylondigger/neural/tagger/task_builders.py
+++ b/babylondigger/neural/tagger/task_builders.py
@@ -123,7 +123,7 @@ class LemmaCOMBOTaskNetworkBuilder(AbstractTaskNetworkBuilder):
         self.__max_word_length = features_config["output_subwords"]["max_word_length"]
         self.__output_subwords_config = features_config["output_subwords"]
         self.__input_subwords_config = features_config["input_subwords"]
-        self.__loss_weight = config.get("loss_weights")["LEMMA"]
+        self.__loss_weight = config.get("loss_weights", {}).get("LEMMA", 1.0)
         self.__initializers = []
 
     def gold(self, shapes):
-- 
2.43.0


From 6ae31f37a7729c286ef353e3abb5ceb8ad25ae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:55 +0000
Subject: [PATCH 28/46] fix: lemma_binary task network could not be built (no
 initializers)

---
 babylondigger/neural/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/network.py b/babylondigger/neural/network.py
index 96fe062..eb4462e 100644
--- a/babylondigger/neural/network.py
+++ b/babylondigger/neural/network.py
@@ -96,7 +96,7 @@ class AbstractTaskNetworkBuilder(object):
         pass
 
     def initializers(self) -> List['NeuralNetworkInitializer']:
-        pass
+        return []
 
 
 class AbstractSharedNetworkBuilder(object):
-- 
2.43.0


From 30354f13da67c735aa04338f3ce3e4d88e41a7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:55 +0000
Subject: [PATCH 29/46] fix: average of subwords depended on the padding of the
 batch

---
 babylondigger/neural/utils.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/babylondigger/neural/utils.py b/babylondigger/neural/utils.py
index 8629a0d..ea965ef 100644
--- a/babylondigger/neural/utils.py
+++ b/babylondigger/neural/utils.py
@@ -58,13 +58,9 @@ def subword_cnn(ids, input_: tf.Tensor, config, feature_name):
 
 def subword_average(ids, input_: tf.Tensor, config, feature_name):
     zero = tf.constant(0)
-    mask = tf.expand_dims(tf.not_equal(ids, zero), axis=-1)
-    mask_shape = tf.shape(mask)
-    input_shape = tf.shape(input_)
-    broadcast_mask = tf.broadcast_to(mask, [mask_shape[0], mask_shape[1], mask_shape[2], input_shape[-1]])
-    nonzero_input_ = tf.ragged.boolean_mask(input_, broadcast_mask).to_tensor()
-    nonzero_input_reshaped = tf.reshape(nonzero_input_, [input_shape[0], input_shape[1], input_shape[2], input_.get_shape().as_list()[-1]])
-    return tf.reduce_mean(nonzero_input_reshaped, axis=-2)
+    mask = tf.cast(tf.expand_dims(tf.not_equal(ids, zero), axis=-1), input_.dtype)
+    count = tf.maximum(tf.reduce_sum(mask, axis=-2), 1.0)  # number of subwords without padding
+    return tf.reduce_sum(input_ * mask, axis=-2) / count
 
 
 def subword_self_attention(ids, input_: tf.Tensor, config, feature_name):
-- 
2.43.0


From 82acf400511e6c0d3abb17f71f3f38214863c9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 30/46] fix: scorer failed with RecursionError on long
 dependency chains

---
 babylondigger/evaluation/conll17_ud_eval.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/babylondigger/evaluation/conll17_ud_eval.py b/babylondigger/evaluation/conll17_ud_eval.py
index 1f5c09e..eb21b42 100644
--- a/babylondigger/evaluation/conll17_ud_eval.py
+++ b/babylondigger/evaluation/conll17_ud_eval.py
@@ -160,17 +160,21 @@ def load_conllu(file):
         if not line:
             # Add parent UDWord links and check there are no cycles
             def process_word(word):
-                if word.parent == "remapping":
-                    raise UDError("There is a cycle in a sentence")
-                if word.parent is None:
+                path = []
+                while word.parent is None:
                     head = int(word.columns[HEAD])
                     if head < 0 or head > len(ud.words) - sentence_start:
                         raise UDError("HEAD '{}' points outside of the sentence".format(word.columns[HEAD]))
-                    if head:
-                        parent = ud.words[sentence_start + head - 1]
-                        word.parent = "remapping"
-                        process_word(parent)
-                        word.parent = parent
+                    if not head:
+                        break
+                    parent = ud.words[sentence_start + head - 1]
+                    word.parent = "remapping"
+                    path.append((word, parent))
+                    word = parent
+                if word.parent == "remapping":
+                    raise UDError("There is a cycle in a sentence")
+                for child, parent in path:
+                    child.parent = parent
 
             for word in ud.words[sentence_start:]:
                 process_word(word)
-- 
2.43.0


From d80d7775e3fd7d3603089bd80b7240dcb48a04a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:57 +0000
Subject: [PATCH 31/46] fix: complex processor did not exit from all entered
 processors in case of failure

---
 babylondigger/processor.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/babylondigger/processor.py b/babylondigger/processor.py
index 0767eab..5e7049d 100644
--- a/babylondigger/processor.py
+++ b/babylondigger/processor.py
@@ -1,4 +1,5 @@
 from typing import Iterator, Iterable
+from contextlib import ExitStack
 
 from babylondigger.datamodel import Document
 
@@ -17,6 +18,7 @@ class DocumentProcessorInteface(object):
 class DocumentComplexProcessor(DocumentProcessorInteface):
     def __init__(self, processors: Iterable[DocumentProcessorInteface]):
         self.__processors = list(processors)
+        self.__entered = []
 
     def process(self, documents: Iterator[Document]) -> Iterator[Document]:
         result = documents
@@ -25,10 +27,11 @@ class DocumentComplexProcessor(DocumentProcessorInteface):
         return result
 
     def __enter__(self):
-        for processor in self.__processors:
-            processor.__enter__()
+        with ExitStack() as stack:  # exit from already entered processors in case of failure
+            for processor in self.__processors:
+                stack.enter_context(processor)
+            self.__entered.append(stack.pop_all())
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        for processor in self.__processors:
-            processor.__exit__(exc_type, exc_val, exc_tb)
+        return self.__entered.pop().__exit__(exc_type, exc_val, exc_tb)
-- 
2.43.0


From 84e6b491825eeb51906957715751885a342adff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 32/46] fix: kernels of BiLSTM_CNN and lemma_combo had the same
 variable names

---
 babylondigger/neural/tagger/task_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/tagger/task_builders.py b/babylondigger/neural/tagger/task_builders.py
index 0f84e50..6bf29d0 100644
--- a/babylondigger/neural/tagger/task_builders.py
+++ b/babylondigger/neural/tagger/task_builders.py
@@ -176,7 +176,7 @@ class LemmaCOMBOTaskNetworkBuilder(AbstractTaskNetworkBuilder):
         # apply dilated convolutions to concatenated char embeddings and shared's output
         cnn_input = tf.reshape(tf.concat([broadcast, ce], axis=-1),
                                [-1, 1, self.__max_word_length, self.__cnn_char_embed_size + self.__cnn_bilstm_dense_size])
-        cnn_output = utils.apply_conv_layer(cnn_input, self.__cnn_kernels, 'cnn_kernel')
+        cnn_output = utils.apply_conv_layer(cnn_input, self.__cnn_kernels, 'lemma_cnn_kernel')
 
         if self.__input_subwords_config.get("highway_layer", False):
             # apply highway layer
-- 
2.43.0


From 98bea9e7612e63835143c5e61dc25692691a58ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:08 +0000
Subject: [PATCH 33/46] fix: head outside of the sentence was another word of
 the sentence (negative index)

---
 babylondigger/datamodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index af446b5..042a9a3 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -414,6 +414,8 @@ class NavigableToken(DocumentToken, _NavigableItem['NavigableToken']):
     def head(self) -> Optional['NavigableToken']:
         if self.is_root or not self.has_head:
             return None
+        if self.head_index < 0:
+            raise IndexError('Head of the token {} is outside'.format(self))
         return self.__token_getter(self.head_index)
 
     @property
-- 
2.43.0


From af25b1b08e45cc8d484f0b5f4cba49637b918bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:08 +0000
Subject: [PATCH 34/46] fix: training failed at stagnation without
 lr_decrease_factor (documented default: 2)

---
 babylondigger/neural/tagger/neural_tagger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/tagger/neural_tagger.py b/babylondigger/neural/tagger/neural_tagger.py
index 2dfb8af..5eb4fc5 100644
--- a/babylondigger/neural/tagger/neural_tagger.py
+++ b/babylondigger/neural/tagger/neural_tagger.py
@@ -126,7 +126,7 @@ class NeuralTaggerTrainer(TaggerTrainerInterface):
                     scores = dev_tester(tagger)
                     acc = sum(score.aligned_accuracy for score in scores.values() if score.aligned_accuracy is not None)
                     if acc <= _previous_accs[-1] and acc <= sum(_previous_accs) / len(_previous_accs):
-                        lr /= optimizer['lr_decrease_factor']
+                        lr /= optimizer.get('lr_decrease_factor', 2)
 
                     _previous_accs.append(acc)
                     _previous_accs.pop(0)
-- 
2.43.0


From 8036e83c90e8bb23400d90b1c6bf70746f005571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 35/46] fix: fixed pretrained subword embeddings of lemma_combo
 were updated in training

---
 babylondigger/neural/tagger/task_builders.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/babylondigger/neural/tagger/task_builders.py b/babylondigger/neural/tagger/task_builders.py
index 6bf29d0..71bf919 100644
--- a/babylondigger/neural/tagger/task_builders.py
+++ b/babylondigger/neural/tagger/task_builders.py
@@ -199,8 +199,10 @@ class LemmaCOMBOTaskNetworkBuilder(AbstractTaskNetworkBuilder):
         return tf.cast(tf.argmax(logits, axis=-1), tf.int32, name=name)
 
     def _get_char_embeddings(self, input_, shape):
-        ce, ce_matrix = utils.embedding_layer('input_subwords_e', input_, shape, trainable=True)
-        if "embedding_path" in self.__features_config["input_subwords"]:
+        pretrained = "embedding_path" in self.__input_subwords_config
+        trainable = self.__input_subwords_config.get("trainable", True) if pretrained else True
+        ce, ce_matrix = utils.embedding_layer('input_subwords_e', input_, shape, trainable=trainable)
+        if pretrained:
             self.__initializers.append(utils.matrix_initializer('input_subwords', ce_matrix))
 
         def pad_to_max_len():
-- 
2.43.0


From 27c580f780835915e2a237ed604f32dfb1191f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:58 +0000
Subject: [PATCH 36/46] fix: method stub could not be evaluated (trainer did
 not give scores)

---
 babylondigger/tagger.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/babylondigger/tagger.py b/babylondigger/tagger.py
index 07f3465..7805a51 100644
--- a/babylondigger/tagger.py
+++ b/babylondigger/tagger.py
@@ -37,9 +37,9 @@ class StubTagger(TaggerInterface):
 
 class StubTaggerTrainer(TaggerTrainerInterface):
 
-    def train(self, documents: Iterable[Document], **kwargs):
-        pos = self.get_most_frequent_pos(documents)
-        return [StubTagger(pos)]
+    def train(self, documents: Iterable[Document], dev_tester=None, **kwargs):
+        tagger = StubTagger(self.get_most_frequent_pos(documents))
+        return [tagger if dev_tester is None else (dev_tester(tagger), tagger)]
 
     def get_most_frequent_pos(self, documents: Iterable[Document]) -> Pos:
         tokens = map(lambda document: document.tokens, documents)
-- 
2.43.0


From cd16444279ea7d719d9c1332f392e97d828a19c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:20 +0000
Subject: [PATCH 37/46] fix: settings of experiments were decoded in the
 encoding of the locale

---
 babylondigger/evaluation/evaluation.py | 4 ++--
 babylondigger/evaluation/grid_eval.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/babylondigger/evaluation/evaluation.py b/babylondigger/evaluation/evaluation.py
index 24368ab..b45e808 100644
--- a/babylondigger/evaluation/evaluation.py
+++ b/babylondigger/evaluation/evaluation.py
@@ -346,9 +346,9 @@ def _build_parser():
 
 def _parse_arguments(parser):
     args = parser.parse_args()
-    with open(args.settings) as f:
+    with open(args.settings, encoding='utf8') as f:
         settings = json.load(f)
-    with open(args.hypers) as f:
+    with open(args.hypers, encoding='utf8') as f:
         hyperparams = json.load(f)
     return _Arguments(settings, args.method, hyperparams, args.delete_after)
 
diff --git a/babylondigger/evaluation/grid_eval.py b/babylondigger/evaluation/grid_eval.py
index d435658..e5ca808 100644
--- a/babylondigger/evaluation/grid_eval.py
+++ b/babylondigger/evaluation/grid_eval.py
@@ -20,7 +20,7 @@ def __parse_arguments_with_grid():
     parser = evl._build_parser()
     parser.add_argument('--grid', dest='grid', help='path to json file')
     args = parser.parse_args()
-    with open(args.grid) as f:
+    with open(args.grid, encoding='utf8') as f:
         grid = json.load(f)
     return evl._parse_arguments(parser), grid
 
-- 
2.43.0


From b485d6bad7c5b6c054dfa120c2251beeb74fa09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:24 +0000
Subject: [PATCH 38/46] fix: empty (predicted) lemmas and tags were written as
 empty columns

---
 babylondigger/evaluation/conllu_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index 5f84940..0139bec 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -318,7 +318,7 @@ class CoNLLUWriter(object):
 
 def to_conll(column_extractors, index: int, token: NavigableToken, write_space_after: bool = True, fake_heads: bool = True) -> List[str]:
     def __shield_none(s: str) -> str:
-        return s if s is not None else "_"
+        return s if s else "_"  # columns must not be empty
 
     def __feats_to_string(feats: Dict) -> str:
         if not feats:
-- 
2.43.0


From 280ecfe21207354948a0f27992d6d4a326eb3710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:49 +0000
Subject: [PATCH 39/46] fix: words with no-break and other Unicode spaces broke
 the reading of embedding files

---
 babylondigger/features/extractors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index d1b264b..7803bda 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -1,3 +1,4 @@
+import re
 from collections import Counter, defaultdict, OrderedDict
 from itertools import chain
 from typing import Dict, List, Tuple, Iterator, Iterable, Callable, TypeVar, Any, Generic
@@ -71,7 +72,7 @@ def _read_embeddings(path: str) -> Tuple[Dict[str, List[float]], int]:
     with open(path, 'r', encoding='utf8') as src:
         line_nr = 0
         for line in src:
-            values = line.split()
+            values = re.split('[ \t]+', line.strip(' \t\r\n'))  # words may contain other (Unicode) spaces
             if line_nr == 0 and len(values) == 2:
                 embed_size = int(values[1])
             else:
-- 
2.43.0


From 61aa970d594b2b63b44b8985ce4808192ae7123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:44 +0000
Subject: [PATCH 40/46] fix: words without BPE subwords (blanks, zero-width
 characters) raised IndexError

---
 babylondigger/features/extractors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index 7803bda..7a23384 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -225,7 +225,7 @@ class TokenBPESegmenter(TokenSubwordSegmenter):
 
     def segment(self, token: str):
         subwords = [ch for ch in self.__bpe.encode(token)]
-        if subwords[0].startswith('\u2581'):
+        if subwords and subwords[0].startswith('\u2581'):  # there are no subwords in blanks
             if len(subwords[0]) > 1:
                 subwords[0] = subwords[0][1:]
             else:
-- 
2.43.0


From 8a6089084d15b27d8e91b88ae8f9285f0bb1ecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:15 +0000
Subject: [PATCH 41/46] fix: the file of weights of the scorer was decoded in
 the encoding of the locale

---
 babylondigger/evaluation/conll17_ud_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conll17_ud_eval.py b/babylondigger/evaluation/conll17_ud_eval.py
index eb21b42..d817a33 100644
--- a/babylondigger/evaluation/conll17_ud_eval.py
+++ b/babylondigger/evaluation/conll17_ud_eval.py
@@ -486,7 +486,7 @@ def main():
                         help="Name of the CoNLL-U file with the gold data.")
     parser.add_argument("system_file", type=str,
                         help="Name of the CoNLL-U file with the predicted data.")
-    parser.add_argument("--weights", "-w", type=argparse.FileType("r"), default=None,
+    parser.add_argument("--weights", "-w", type=argparse.FileType("r", **({"encoding": "utf-8"} if sys.version_info >= (3, 0) else {})), default=None,
                         metavar="deprel_weights_file",
                         help="Compute WeightedLAS using given weights for Universal Dependency Relations.")
     parser.add_argument("--verbose", "-v", default=0, action="count",
-- 
2.43.0


From be4952c6e7460ac6e195995aec70f185acfee022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:20 +0000
Subject: [PATCH 42/46] fix: after a failed run the wrapper of the Dozat parser
 mixed its predictions with those of the next run

---
 babylondigger/wrappers/tdozat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/babylondigger/wrappers/tdozat.py b/babylondigger/wrappers/tdozat.py
index 9de721e..43cf45a 100644
--- a/babylondigger/wrappers/tdozat.py
+++ b/babylondigger/wrappers/tdozat.py
@@ -93,6 +93,7 @@ class TDozatDocumentProcessor(DocumentProcessorInteface):
         dataset = _DocumentDataset(documents, self.__network.vocabs, config=self.__config)
         # following code is copy-pasted from tdozat_parser.parser.base_network.BaseNetwork#parse_file
         probability_tensors = self.parse_outputs.probabilities
+        self.parse_outputs.predictions = {'indices': []}  # a failed run could leave some
         for i, indices in enumerate(dataset.batch_iterator(shuffle=False)):
             tokens, lengths = dataset.get_tokens(indices)
             feed_dict = dataset.set_placeholders(indices)
-- 
2.43.0


From d94406e52ce05549883c700ab5f0275a29b0e4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 43/46] fix: the wrapper of the Dozat parser left its session
 open when the parameters could not be loaded

---
 babylondigger/wrappers/tdozat.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/babylondigger/wrappers/tdozat.py b/babylondigger/wrappers/tdozat.py
index 43cf45a..a8a362b 100644
--- a/babylondigger/wrappers/tdozat.py
+++ b/babylondigger/wrappers/tdozat.py
@@ -78,8 +78,12 @@ class TDozatDocumentProcessor(DocumentProcessorInteface):
         config.allow_soft_placement = True
 
         self._sess = tf.Session(graph=self.__g, config=config)
-        self._sess.run(tf.variables_initializer(list(non_save_variables)))
-        saver.restore(self._sess, tf.train.latest_checkpoint(self.__network.save_dir))
+        try:
+            self._sess.run(tf.variables_initializer(list(non_save_variables)))
+            saver.restore(self._sess, tf.train.latest_checkpoint(self.__network.save_dir))
+        except BaseException:
+            self.__exit__(None, None, None)  # it is not called after a failed entry
+            raise
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-- 
2.43.0


From b18b4f6c0c6172eabcc55be26a08f357e65b6e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:01 +0000
Subject: [PATCH 44/46] fix: a grid with the same parameter in two dimensions
 was accepted if it was not the first one of its entry

---
 babylondigger/evaluation/grid_eval.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/babylondigger/evaluation/grid_eval.py b/babylondigger/evaluation/grid_eval.py
index e5ca808..da53363 100644
--- a/babylondigger/evaluation/grid_eval.py
+++ b/babylondigger/evaluation/grid_eval.py
@@ -45,6 +45,14 @@ def __take_all_key_path(dictt, new_list):
         return tuple([elem for elem in new_list])
 
 
+def __take_all_paths(dictt, prefix=()):
+    for key, value in dictt.items():
+        if isinstance(value, dict):
+            yield from __take_all_paths(value, prefix + (key,))
+        else:
+            yield prefix + (key,)
+
+
 def __check_is_grid_valid(grid):
     new_set = set()
     big_set = set()
@@ -57,6 +65,11 @@ def __check_is_grid_valid(grid):
         new_set.clear()
     if len(big_set) != len(grid):
         raise ValueError("Grid has intersections! Different params shouldn't overlap.")
+    paths = [{path for dictt in grid[key] for path in __take_all_paths(dictt)} for key in grid]
+    for first, second in it.permutations(paths, 2):
+        # the whole path of one parameter is (a beginning of) the path of another
+        if any(path[:length] in first for path in second for length in range(1, len(path) + 1)):
+            raise ValueError("Grid has intersections! Different params shouldn't overlap.")
 
 
 def main():
-- 
2.43.0


From b8c27036ba18d6aa253e7b832de2c5015f33a93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:46 +0000
Subject: [PATCH 45/46] fix: the best model was not deleted after the
 evaluation if the model directory is a symbolic link

---
 babylondigger/evaluation/evaluation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/evaluation.py b/babylondigger/evaluation/evaluation.py
index b45e808..c633d47 100644
--- a/babylondigger/evaluation/evaluation.py
+++ b/babylondigger/evaluation/evaluation.py
@@ -282,7 +282,12 @@ def main(args):
         metrics_printer(test_scores)
 
     if args.delete_after:
-        shutil.rmtree(args.settings['model_dir'], ignore_errors=True)
+        model_dir = args.settings['model_dir']
+        if os.path.islink(model_dir):  # a link cannot be removed as a directory, its models can
+            for name in os.listdir(model_dir):
+                shutil.rmtree(os.path.join(model_dir, name), ignore_errors=True)
+        else:
+            shutil.rmtree(model_dir, ignore_errors=True)
 
 
 def __build_estimator(args, metrics_printer, metrics_averager):
-- 
2.43.0


From e418c21c208097e303cc41dfd6fc2168ccd02ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:48 +0000
Subject: [PATCH 46/46] fix: the lemmatizer lemma_binary ignored the configured
 weight of its loss

---
 babylondigger/neural/tagger/task_builders.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/babylondigger/neural/tagger/task_builders.py b/babylondigger/neural/tagger/task_builders.py
index 71bf919..cf824d0 100644
--- a/babylondigger/neural/tagger/task_builders.py
+++ b/babylondigger/neural/tagger/task_builders.py
@@ -221,6 +221,7 @@ class LemmaSuffixBinaryTaskNetworkBuilder(AbstractTaskNetworkBuilder):
         self.__shared_name = config['shared_name']
         self.__dense_size = config['dense_size']
         self.__lemma_rules_config = features_config['lemma_suffix_transformation']
+        self.__loss_weight = config.get("loss_weights", {}).get("LEMMA", 1.0)
 
     def gold(self, shapes):
         return {
@@ -245,7 +246,8 @@ class LemmaSuffixBinaryTaskNetworkBuilder(AbstractTaskNetworkBuilder):
         list_gold = tf.unstack(gold[self.__labels_name], axis=-1)[0]
         gold_one_hots = tf.one_hot(list_gold, shapes[self.__labels_name]["LEMMA"])
         loss = self._loss(logits, gold_one_hots, shared['sentence_mask'], shared['sentence_norm'])
-        return output, loss
+        weighted_loss = tf.math.multiply(loss, tf.convert_to_tensor(self.__loss_weight, tf.float32))
+        return output, weighted_loss
 
     def _logits(self, shapes, inputs, shared, dropout):
         dense = tf.layers.dense(shared, units=self.__dense_size, name='dense_'+self.__labels_name)
-- 
2.43.0

