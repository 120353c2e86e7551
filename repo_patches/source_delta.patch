From a025c788024672df28aacf80717384f464cf5636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:01 +0000
Subject: [PATCH 01/12] fix: tokenizer leaked protection placeholders of nested
 protected texts

---
 scrappybara/preprocessing/tokenizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scrappybara/preprocessing/tokenizer.py b/scrappybara/preprocessing/tokenizer.py
index bd6fb52..9bc7f49 100644
--- a/scrappybara/preprocessing/tokenizer.py
+++ b/scrappybara/preprocessing/tokenizer.py
@@ -194,7 +194,8 @@ class Tokenizer(object):
         for replace in self.__re_reattach:
             text = re.sub(replace[0], replace[1], text)
         # Re-establish protected patterns
-        for key, value in protected.items():
+        # (in reverse order, because a protected text can contain the key of a text protected before it)
+        for key, value in reversed(list(protected.items())):
             text = text.replace(key, value)
         return text.split()
 
-- 
2.43.0


From bfa174843f1f5214009d871b09d568031f5aa198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:01 +0000
Subject: [PATCH 02/12] fix: tokenizer returned an empty token for an empty
 text

---
 scrappybara/preprocessing/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/preprocessing/tokenizer.py b/scrappybara/preprocessing/tokenizer.py
index 9bc7f49..ecba70e 100644
--- a/scrappybara/preprocessing/tokenizer.py
+++ b/scrappybara/preprocessing/tokenizer.py
@@ -161,7 +161,7 @@ class Tokenizer(object):
     def __call__(self, text):
         """Returns a list of tokens"""
         if not text:
-            return ['']
+            return []
         text = sanitize(text, self.__re_sanitization)
         # Protect tokens
         protected, text = self.__protect_text(text)
-- 
2.43.0


From fc3ce73278b9f0abe002ba7df615ee3bdecd89aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:01 +0000
Subject: [PATCH 03/12] fix: token context lost left tokens when there are
 fewer than the order needs

---
 scrappybara/langmodel/token_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/langmodel/token_context.py b/scrappybara/langmodel/token_context.py
index 4b1b1ac..c4ac122 100644
--- a/scrappybara/langmodel/token_context.py
+++ b/scrappybara/langmodel/token_context.py
@@ -22,7 +22,7 @@ class TokenContext(object):
         """Given an order n, returns all combinations of ngram: before/token/after"""
         assert order > 1
         exploring_range = order - 1
-        tokens_before = self.__tokens_before[len(self.__tokens_before) - exploring_range:]
+        tokens_before = self.__tokens_before[max(0, len(self.__tokens_before) - exploring_range):]
         tokens_after = self.__tokens_after[:exploring_range]
         tokens = tokens_before + [self.token] + tokens_after
         return [' '.join(items) for items in self.__slide_window(tokens, order)]
-- 
2.43.0


From 894fc7aa3f500561b75323a9dc3677fba59c1dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:01 +0000
Subject: [PATCH 04/12] fix: errors raised in worker threads were swallowed and
 their items lost

---
 scrappybara/utils/multithreading.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scrappybara/utils/multithreading.py b/scrappybara/utils/multithreading.py
index 648d954..66ff565 100644
--- a/scrappybara/utils/multithreading.py
+++ b/scrappybara/utils/multithreading.py
@@ -11,9 +11,13 @@ class _Thread(threading.Thread):
         self.__input_items = input_items
         self.__process = process
         self.output_items = []
+        self.error = None  # Exception raised while processing items
 
     def run(self):
-        self.output_items = [self.__process(item) for item in self.__input_items]
+        try:
+            self.output_items = [self.__process(item) for item in self.__input_items]
+        except BaseException as error:
+            self.error = error
 
 
 def run_multithreads(items, process, nb_threads):
@@ -26,4 +30,7 @@ def run_multithreads(items, process, nb_threads):
     for idx, _ in enumerate(items_lists):
         nb_threads[idx].join()
         output_items.extend(nb_threads[idx].output_items)
+    for thread in nb_threads:
+        if thread.error is not None:
+            raise thread.error
     return output_items
-- 
2.43.0


From c575e22775c58dfb0a2c64c280f173055a195f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:01 +0000
Subject: [PATCH 05/12] fix: tagger returned tags of the padding tokens

---
 scrappybara/syntax/tagger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/syntax/tagger.py b/scrappybara/syntax/tagger.py
index 1ba77ea..6fbed11 100644
--- a/scrappybara/syntax/tagger.py
+++ b/scrappybara/syntax/tagger.py
@@ -21,4 +21,4 @@ class Tagger(object):
         data_per_sentence = [vectorize_sentence(tokens, self.__charset, self.__wordset) for tokens in token_lists]
         seq_lengths, char_codes, word_vectors = zip(*data_per_sentence)
         tag_codes = self.__ptags_model.predict(char_codes, word_vectors)
-        return [[Tag(code) for code in tag_codes[idx][1:sl + 1]] for idx, sl in enumerate(seq_lengths)]
+        return [[Tag(code) for code in tag_codes[idx][1:sl - 1]] for idx, sl in enumerate(seq_lengths)]
-- 
2.43.0


From 2046a1d1eef5944826f408259f49a4b2646d4bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:01 +0000
Subject: [PATCH 06/12] fix: maximum likelihood smoothing crashed on an order
 without any ngram

---
 scrappybara/langmodel/mle_smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/langmodel/mle_smoother.py b/scrappybara/langmodel/mle_smoother.py
index faa2e36..6a922d2 100644
--- a/scrappybara/langmodel/mle_smoother.py
+++ b/scrappybara/langmodel/mle_smoother.py
@@ -34,7 +34,7 @@ class MLESmoother(Smoother):
     def __call__(self):
         for order in range(1, self._last_order + 1):
             data_slices = []
-            ngrams = self._ngrams[order]
+            ngrams = self._ngrams.get(order, [])
             for process_range in self._process_ranges(len(self._ngrams.get(order, []))):
                 np_counts = np.array([ngrams[i].count for i in process_range])
                 data_slices.append(_DataSlice(np_counts, self.__total_counts[order]))
-- 
2.43.0


From a97d09490cb58ee198727f265511197402a645a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:57 +0000
Subject: [PATCH 07/12] fix: sentencizer leaked its sentence marker into tokens
 and sentences

---
 scrappybara/preprocessing/sentencizer.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/scrappybara/preprocessing/sentencizer.py b/scrappybara/preprocessing/sentencizer.py
index f27a723..87a13f7 100644
--- a/scrappybara/preprocessing/sentencizer.py
+++ b/scrappybara/preprocessing/sentencizer.py
@@ -17,7 +17,7 @@ class Sentencizer(object):
     __re_bracket_block_end = '⦆'
     __re_sent_enders = re.compile(r'([.?!:]+|¶)')
     __re_sanitization = [
-        (re.compile(r'\."'), '."¶'),  # The end dot of a sentence can be in quote
+        (re.compile(r'\."'), '." ¶ '),  # The end dot of a sentence can be in quote
     ]
 
     def __init__(self, tokenizer=Tokenizer()):
@@ -28,9 +28,13 @@ class Sentencizer(object):
         quotes = []
         brackets = []
 
+        def _tokenize_block(_text):
+            # Sentences don't end inside quotes & brackets
+            return [_token for _token in self.__tokenize(_text) if _token != '¶']
+
         def _insert_quote_block(_token, _ctr):
             _ctr.append('"')
-            _ctr.extend(self.__tokenize(quotes[int(_token[1:-1])]))
+            _ctr.extend(_tokenize_block(quotes[int(_token[1:-1])]))
             _ctr.append('"')
 
         blocks = re.split(self.__re_newline, text)
@@ -51,7 +55,7 @@ class Sentencizer(object):
                     elif token.startswith(self.__re_bracket_block_start):
                         idx = int(token[1:-1])
                         sent_tokens_with_blocks.append('(')
-                        for nested_token in self.__tokenize(brackets[idx]):
+                        for nested_token in _tokenize_block(brackets[idx]):
                             if nested_token.startswith(self.__re_quote_block_start):
                                 _insert_quote_block(nested_token, sent_tokens_with_blocks)
                             else:
@@ -84,7 +88,8 @@ class Sentencizer(object):
             if re.fullmatch(self.__re_sent_enders, token):
                 if token != '¶':
                     current_sent.append(token)
-                sents.append(current_sent)
+                if current_sent:
+                    sents.append(current_sent)
                 current_sent = []
             else:
                 current_sent.append(token)
-- 
2.43.0


From ad98f7ab0b2f94ffa2f6185ddf5c73489219fdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:57 +0000
Subject: [PATCH 08/12] fix: sentencizer crashed on texts containing its block
 symbols

---
 scrappybara/preprocessing/sentencizer.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/scrappybara/preprocessing/sentencizer.py b/scrappybara/preprocessing/sentencizer.py
index 87a13f7..a9c4057 100644
--- a/scrappybara/preprocessing/sentencizer.py
+++ b/scrappybara/preprocessing/sentencizer.py
@@ -32,6 +32,16 @@ class Sentencizer(object):
             # Sentences don't end inside quotes & brackets
             return [_token for _token in self.__tokenize(_text) if _token != '¶']
 
+        def _is_block(_token, _start, _end, _ctr):
+            # The text itself can contain the symbols used to mark blocks
+            return re.fullmatch(_start + '[0-9]+' + _end, _token) and int(_token[1:-1]) < len(_ctr)
+
+        def _is_quote_block(_token):
+            return _is_block(_token, self.__re_quote_block_start, self.__re_quote_block_end, quotes)
+
+        def _is_bracket_block(_token):
+            return _is_block(_token, self.__re_bracket_block_start, self.__re_bracket_block_end, brackets)
+
         def _insert_quote_block(_token, _ctr):
             _ctr.append('"')
             _ctr.extend(_tokenize_block(quotes[int(_token[1:-1])]))
@@ -50,13 +60,13 @@ class Sentencizer(object):
             for sent_tokens in self.__split_sentences(tokens):
                 sent_tokens_with_blocks = []
                 for token in sent_tokens:
-                    if token.startswith(self.__re_quote_block_start):
+                    if _is_quote_block(token):
                         _insert_quote_block(token, sent_tokens_with_blocks)
-                    elif token.startswith(self.__re_bracket_block_start):
+                    elif _is_bracket_block(token):
                         idx = int(token[1:-1])
                         sent_tokens_with_blocks.append('(')
                         for nested_token in _tokenize_block(brackets[idx]):
-                            if nested_token.startswith(self.__re_quote_block_start):
+                            if _is_quote_block(nested_token):
                                 _insert_quote_block(nested_token, sent_tokens_with_blocks)
                             else:
                                 sent_tokens_with_blocks.append(nested_token)
-- 
2.43.0


From 0aefabc257a27317d82b37aba43ae0b1a2293546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:57 +0000
Subject: [PATCH 09/12] fix: parser could give two parents to a token

---
 scrappybara/syntax/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scrappybara/syntax/parser.py b/scrappybara/syntax/parser.py
index d8e72b2..b0b5aa3 100644
--- a/scrappybara/syntax/parser.py
+++ b/scrappybara/syntax/parser.py
@@ -71,7 +71,9 @@ class _Parse(object):
 
     def register_transition(self, trans):
         if trans == Trans.LEFT:
-            self.arcs.append((self.__pdep(self.__stack[-1]), self.__buffer[0], self.__stack[-1]))
+            # A token has a single parent: the left arc is ignored if the token already has one
+            if not any([child_idx == self.__stack[-1] for _, _, child_idx in self.arcs]):
+                self.arcs.append((self.__pdep(self.__stack[-1]), self.__buffer[0], self.__stack[-1]))
             self.__reduce()
         elif trans == Trans.RIGHT:
             self.arcs.append((self.__pdep(self.__buffer[0]), self.__stack[-1], self.__buffer[0]))
-- 
2.43.0


From 786b4f92bb0171d743d4debefcab8372d1737d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:07 +0000
Subject: [PATCH 10/12] fix: active form of a negated passive lost its negation

---
 scrappybara/semantics/semantic_tuple_extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/semantics/semantic_tuple_extractor.py b/scrappybara/semantics/semantic_tuple_extractor.py
index 625f559..7bdd47a 100644
--- a/scrappybara/semantics/semantic_tuple_extractor.py
+++ b/scrappybara/semantics/semantic_tuple_extractor.py
@@ -187,7 +187,7 @@ class SemanticTupleExtractor(object):
             # Active forms
             if prop.tag == Tag.ADJ and prop.active_verb:
                 for agent in [a for a in prop.agents if a.tag in NOUN_TAGS]:
-                    is_aff = xnor(agent.is_aff, prop.is_aff, noun.is_aff)
+                    is_aff = xnor(agent.is_aff, copula.is_aff, prop.is_aff, noun.is_aff)
                     verb_arg = Argument(prop.active_verb, ArgCode.TRANS.value, is_aff)
                     agent_arg = Argument(agent.canon, _noun_arg_code(agent))
                     stuples.append(SemanticTuple(agent_arg, verb_arg, noun_arg))
-- 
2.43.0


From b4daf3c22179485cdd7ba4371cc7bcca08c79afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:00 +0000
Subject: [PATCH 11/12] fix: nested or concurrent iterations over a tree lost
 arcs

---
 scrappybara/utils/tree.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/scrappybara/utils/tree.py b/scrappybara/utils/tree.py
index 33a3e9a..680d8e0 100644
--- a/scrappybara/utils/tree.py
+++ b/scrappybara/utils/tree.py
@@ -12,14 +12,8 @@ class Tree:
         self.__parents = {}  # Node => (label, node)
 
     def __iter__(self):
-        self.__iter = iter(self.__parents.items())
-        return self
-
-    def __next__(self):
         """Arc iterator"""
-        child, rparent = next(self.__iter)
-        label, parent = rparent
-        return label, parent, child
+        return iter([(label, parent, child) for child, (label, parent) in self.__parents.items()])
 
     def __len__(self):
         return 1 + len(self.__parents.keys())
-- 
2.43.0


From 316e7457ceebf3a9a0cdf41b07f5467f37be86cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:09 +0000
Subject: [PATCH 12/12] fix: protect only the matched URL, not every occurrence
 of its text (a URL that starts like another one was cut)

---
 scrappybara/preprocessing/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/preprocessing/tokenizer.py b/scrappybara/preprocessing/tokenizer.py
index ecba70e..ed1743f 100644
--- a/scrappybara/preprocessing/tokenizer.py
+++ b/scrappybara/preprocessing/tokenizer.py
@@ -209,7 +209,7 @@ class Tokenizer(object):
                 token = match.group()
                 key = '_PROTECTED_%d_' % index
                 protected[key] = token
-                text = text.replace(token, key)
+                text = text[:match.start()] + key + text[match.end():]
                 match = re.search(pattern, text)
                 index += 1
         return protected, text
-- 
2.43.0

