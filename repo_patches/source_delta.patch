From 2c974640b45cf3d7688d01e039faad39f46ed855 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:41 +0000
Subject: [PATCH 01/33] fix: index() must not modify or share the caller's
 vocabulary

---
 bm25s/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 2ca7691..f00a56d 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -459,10 +459,11 @@ class BM25:
             if inferred_corpus_obj == "tuple":
                 logger.debug(msg="Building index from IDs")
                 corpus_token_ids, vocab_dict = corpus
+                vocab_dict = dict(vocab_dict)
             elif inferred_corpus_obj == "object":
                 logger.debug(msg="Building index from IDs objects")
                 corpus_token_ids = corpus.ids
-                vocab_dict = corpus.vocab
+                vocab_dict = dict(corpus.vocab)
             else:
                 raise ValueError(
                     "Internal error: Found an invalid corpus object, indicating `_inferred_corpus_object` is not working correctly."
-- 
2.43.0


From 08f09214ed20bf42e33a51e675a576c78b396608 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:41 +0000
Subject: [PATCH 02/33] fix: index a corpus whose documents are all empty

---
 bm25s/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index f00a56d..146b29d 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -483,7 +483,7 @@ class BM25:
                 pass
             
             if "" not in vocab_dict:
-                vocab_dict[""] = max(vocab_dict.values()) + 1
+                vocab_dict[""] = max(vocab_dict.values(), default=-1) + 1
 
         self.scores = scores
         self.vocab_dict = vocab_dict
-- 
2.43.0


From 6dfc85e29e31570849130799839f8ca4eb9732d4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:41 +0000
Subject: [PATCH 03/33] fix: give the empty token added by index() a column in
 the score matrix

---
 bm25s/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 146b29d..12d0d38 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -484,6 +484,16 @@ class BM25:
             
             if "" not in vocab_dict:
                 vocab_dict[""] = max(vocab_dict.values(), default=-1) + 1
+                # the empty token needs its own (empty) column in the score matrix
+                n_missing = vocab_dict[""] + 2 - len(scores["indptr"])
+                if n_missing > 0:
+                    scores["indptr"] = np.pad(
+                        scores["indptr"], (0, n_missing), mode="edge"
+                    )
+                    if self.nonoccurrence_array is not None:
+                        self.nonoccurrence_array = np.pad(
+                            self.nonoccurrence_array, (0, n_missing)
+                        )
 
         self.scores = scores
         self.vocab_dict = vocab_dict
-- 
2.43.0


From 710549e8ee2726856f48740109f6a470a9bcbe87 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 04/33] fix: vocabulary tokens that occur in no document no
 longer divide by zero

---
 bm25s/scoring.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bm25s/scoring.py b/bm25s/scoring.py
index 4b567e7..8594a79 100644
--- a/bm25s/scoring.py
+++ b/bm25s/scoring.py
@@ -53,6 +53,8 @@ def _build_idf_array(
     idf_array = np.zeros(n_vocab, dtype=dtype)
 
     for token_id, df in doc_frequencies.items():
+        if df == 0:
+            continue  # in the vocabulary, but in no document: contributes nothing
         idf_array[token_id] = compute_idf_fn(df, N=n_docs)
 
     return idf_array
@@ -87,6 +89,8 @@ def _build_nonoccurrence_array(
     nonoccurrence_array = np.zeros(n_vocab, dtype=dtype)
 
     for token_id, df in doc_frequencies.items():
+        if df == 0:
+            continue  # in the vocabulary, but in no document: contributes nothing
         idf = compute_idf_fn(df, N=n_docs)
         tfc = calculate_tfc_fn(
             tf_array=0, l_d=l_d, l_avg=l_avg, k1=k1, b=b, delta=delta
-- 
2.43.0


From 36d6900563dbc465b032cc5c1602a02f0afaa024 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 05/33] fix: index a corpus given as a generator instead of
 silently losing it

---
 bm25s/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 12d0d38..69078cf 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -378,6 +378,9 @@ class BM25:
         Low-level function to build the BM25 index from tokens, used by the `index` method.
         You can override this function if you want to build the index in a different way.
         """
+        # the corpus is read more than once, so it cannot remain a one-shot iterator
+        corpus_tokens = list(corpus_tokens)
+
         unique_tokens = get_unique_tokens(
             corpus_tokens,
             show_progress=show_progress,
-- 
2.43.0


From 55e81828d615788a34fb071c4c7ffc3509fba90a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 06/33] fix: an index built from bare token IDs must keep those
 IDs

---
 bm25s/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 69078cf..22c0330 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -387,6 +387,10 @@ class BM25:
             leave_progress=leave_progress,
             desc="BM25S Create Vocab",
         )
+        if unique_tokens and all(isinstance(token, int) for token in unique_tokens):
+            # these are token IDs already (e.g. from `Tokenizer.tokenize`): keep them,
+            # so that queries using the same IDs match the same tokens
+            unique_tokens = range(max(unique_tokens) + 1)
         vocab_dict = {token: i for i, token in enumerate(unique_tokens)}
         unique_token_ids = [vocab_dict[token] for token in unique_tokens]
 
-- 
2.43.0


From ebd3fa17cfc86c46179afe7d52937279597debfc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 07/33] fix: orjson dumps must accept integer keys like the
 built-in json does

---
 bm25s/utils/json_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/json_functions.py b/bm25s/utils/json_functions.py
index 683bf88..26a868e 100644
--- a/bm25s/utils/json_functions.py
+++ b/bm25s/utils/json_functions.py
@@ -13,9 +13,9 @@ def dumps_with_builtin(d: dict, **kwargs) -> str:
 def dumps_with_orjson(d: dict, **kwargs) -> str:
     if kwargs.get("ensure_ascii", True):
         # Simulate `ensure_ascii=True` by escaping non-ASCII characters
-        return orjson.dumps(d).decode("utf-8").encode("ascii", "backslashreplace").decode("utf-8")
+        return orjson.dumps(d, option=orjson.OPT_NON_STR_KEYS).decode("utf-8").encode("ascii", "backslashreplace").decode("utf-8")
     # Ignore other kwargs not supported by orjson
-    return orjson.dumps(d).decode("utf-8")
+    return orjson.dumps(d, option=orjson.OPT_NON_STR_KEYS).decode("utf-8")
 
 if ORJSON_AVAILABLE:
     def dumps(d: dict, **kwargs) -> str:
-- 
2.43.0


From 08bba4dbcb2fb2beb0f63adc35e87cbe8896a6ff Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 08/33] fix: ASCII-only orjson output must be valid JSON
 escapes

---
 bm25s/utils/json_functions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/json_functions.py b/bm25s/utils/json_functions.py
index 26a868e..9930766 100644
--- a/bm25s/utils/json_functions.py
+++ b/bm25s/utils/json_functions.py
@@ -1,4 +1,5 @@
 import json
+import re
 
 try:
     import orjson
@@ -7,13 +8,18 @@ except ImportError:
     ORJSON_AVAILABLE = False
     
 
+# non-ASCII characters can only occur inside of strings
+_NON_ASCII = re.compile(r"[^\x00-\x7f]+")
+
+
 def dumps_with_builtin(d: dict, **kwargs) -> str:
     return json.dumps(d, **kwargs)
 
 def dumps_with_orjson(d: dict, **kwargs) -> str:
     if kwargs.get("ensure_ascii", True):
         # Simulate `ensure_ascii=True` by escaping non-ASCII characters
-        return orjson.dumps(d, option=orjson.OPT_NON_STR_KEYS).decode("utf-8").encode("ascii", "backslashreplace").decode("utf-8")
+        text = orjson.dumps(d, option=orjson.OPT_NON_STR_KEYS).decode("utf-8")
+        return _NON_ASCII.sub(lambda match: json.dumps(match.group())[1:-1], text)
     # Ignore other kwargs not supported by orjson
     return orjson.dumps(d, option=orjson.OPT_NON_STR_KEYS).decode("utf-8")
 
-- 
2.43.0


From c8267dec1e567ba394f7d9dcedfb1fa9bdeb399a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:25 +0000
Subject: [PATCH 09/33] fix: the line index of a corpus file without extension
 stays next to that file

---
 bm25s/utils/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index b06ebba..8b1478f 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -21,7 +21,7 @@ from . import json_functions
 
 def change_extension(path, new_extension):
     path = str(path)
-    return path.rpartition(".")[0] + new_extension
+    return os.path.splitext(path)[0] + new_extension
 
 
 def find_newline_positions(path, show_progress=True, leave_progress=True, encoding="utf-8"):
-- 
2.43.0


From ce8b88f42de6cc01e16f39ea72403ec8e94112ab Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:25 +0000
Subject: [PATCH 10/33] fix: retrieve documents that are lists, tuples or of
 mixed types unchanged

---
 bm25s/__init__.py             |  2 +-
 bm25s/numba/retrieve_utils.py |  2 +-
 bm25s/utils/corpus.py         | 18 +++++++++++++++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 22c0330..7bd49f0 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -858,7 +858,7 @@ class BM25:
             else:
                 index_flat = indices.flatten().tolist()
                 results = [corpus[i] for i in index_flat]
-                retrieved_docs = np.array(results).reshape(indices.shape)
+                retrieved_docs = utils.corpus.to_document_array(results, indices.shape)
 
         if return_as == "tuple":
             return Results(documents=retrieved_docs, scores=scores)
diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index c7fee7e..631b332 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -143,7 +143,7 @@ def _retrieve_numba_functional(
         else:
             index_flat = retrieved_indices.flatten().tolist()
             results = [corpus[i] for i in index_flat]
-            retrieved_docs = np.array(results).reshape(retrieved_indices.shape)
+            retrieved_docs = utils.corpus.to_document_array(results, retrieved_indices.shape)
 
     if return_as == "tuple":
         return retrieved_docs, retrieved_scores
diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index 8b1478f..8be80bc 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -24,6 +24,22 @@ def change_extension(path, new_extension):
     return os.path.splitext(path)[0] + new_extension
 
 
+def to_document_array(documents, shape):
+    """
+    Arrange a flat list of documents into an array of the given shape. Only simple values of
+    a single type are stored directly; anything else (dictionaries, lists, tuples, or a mix
+    of types) becomes an array of objects, so that every document is kept as it is.
+    """
+    types = {type(document) for document in documents}
+    if len(types) == 1 and issubclass(*types, (str, int, float, np.generic)):
+        return np.array(documents).reshape(shape)
+
+    array = np.empty(len(documents), dtype=object)
+    for i, document in enumerate(documents):
+        array[i] = document
+    return array.reshape(shape)
+
+
 def find_newline_positions(path, show_progress=True, leave_progress=True, encoding="utf-8"):
     path = str(path)
     indexes = []
@@ -174,7 +190,7 @@ class JsonlCorpus:
             # was a list, and then reshape it back to the original shape
             index_flat = index.flatten().tolist()
             results = [self.__getitem__(i) for i in index_flat]
-            reshaped = np.array(results).reshape(index.shape)
+            reshaped = to_document_array(results, index.shape)
             return reshaped
         
         raise TypeError("Invalid index type")
-- 
2.43.0


From e6417a8d050ac3a6184b535323415844c9c9fac0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:25 +0000
Subject: [PATCH 11/33] fix: load_qrels keeps every judgment of a query, not
 only the last one

---
 bm25s/utils/beir.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index e14fe68..97726e2 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -271,7 +271,10 @@ def load_qrels(
             qrels.append((qid, cid, int(score)))
 
     if return_dict:
-        qrels = {qid: {cid: score} for qid, cid, score in qrels}
+        qrels_dict = {}
+        for qid, cid, score in qrels:
+            qrels_dict.setdefault(qid, {})[cid] = score
+        qrels = qrels_dict
 
     return qrels
 
-- 
2.43.0


From a8febb3883290e377c799c1e318edd1e4f81461e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:25 +0000
Subject: [PATCH 12/33] fix: the empty token of a tokenizer keeps the ID of an
 existing empty stem

---
 bm25s/tokenization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bm25s/tokenization.py b/bm25s/tokenization.py
index 2308e01..315e15e 100644
--- a/bm25s/tokenization.py
+++ b/bm25s/tokenization.py
@@ -223,6 +223,9 @@ class Tokenizer:
             
         if allow_empty is True and update_vocab is True and "" not in self.word_to_id:
             idx = max(self.word_to_id.values(), default=-1) + 1
+            if using_stemmer:
+                # a stemmer may already have produced the empty token from another word
+                idx = self.stem_to_sid.get("", idx)
             self.word_to_id[""] = idx
             
             if using_stemmer:
-- 
2.43.0


From 88fc5faad5758457d35ea9d5fcc2a66418c4b432 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 13/33] fix: a batch whose first query (or every query) is
 empty works on all backends

---
 bm25s/__init__.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 7bd49f0..31d9336 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -94,18 +94,15 @@ def is_list_of_list_of_type(obj, type_=int):
     if len(obj) == 0:
         return False
 
-    first_elem = obj[0]
-    if not isinstance(first_elem, list):
-        return False
+    # some queries may be empty, so we look at the first token there is
+    for elem in obj:
+        if not isinstance(elem, list):
+            return False
 
-    if len(first_elem) == 0:
-        return False
+        if len(elem) > 0:
+            return isinstance(elem[0], type_)
 
-    first_token = first_elem[0]
-    if not isinstance(first_token, type_):
-        return False
-
-    return True
+    return False
 
 
 def _is_tuple_of_list_of_tokens(obj):
@@ -786,7 +783,9 @@ class BM25:
             # if is list of list of int
             if is_list_of_list_of_type(query_tokens, type_=int):
                 query_tokens_ids = query_tokens
-            elif is_list_of_list_of_type(query_tokens, type_=str):
+            elif is_list_of_list_of_type(query_tokens, type_=str) or (
+                isinstance(query_tokens, list) and all(q == [] for q in query_tokens)
+            ):
                 query_tokens_ids = [self.get_tokens_ids(q) for q in query_tokens]
             else:
                 raise ValueError(
-- 
2.43.0


From 7dd3442126d70aa1f46775f9a195fb9fc644033a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 14/33] fix: apply the weight mask to the complete BM25L/BM25+
 score

---
 bm25s/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 31d9336..1eb7278 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -543,16 +543,16 @@ class BM25:
             dtype=dtype,
         )
 
-        if weight_mask is not None:
-            # multiply the scores by the weight mask
-            scores *= weight_mask
-
         # if there's a non-occurrence array, we need to add the non-occurrence score
         # back to the scores
         if self.nonoccurrence_array is not None:
             nonoccurrence_scores = self.nonoccurrence_array[query_tokens_ids].sum()
             scores += nonoccurrence_scores
 
+        if weight_mask is not None:
+            # multiply the scores by the weight mask
+            scores *= weight_mask
+
         return scores
 
     def get_scores(
-- 
2.43.0


From 566864da2f794416cc035fc4361fc82daa09e018 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 15/33] fix: the numba backend must not ignore the weight mask

---
 bm25s/__init__.py             | 1 +
 bm25s/numba/retrieve_utils.py | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 1eb7278..fe87596 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -807,6 +807,7 @@ class BM25:
                 dtype=self.dtype,
                 int_dtype=self.int_dtype,
                 nonoccurrence_array=self.nonoccurrence_array,
+                weight_mask=weight_mask,
             )
 
             if return_as == "tuple":
diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index 631b332..668f3e6 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -109,6 +109,10 @@ def _retrieve_numba_functional(
     set_num_threads(n_threads)
 
 
+    if weight_mask is not None:
+        # the compiled function needs the scores to keep their type
+        weight_mask = weight_mask.astype(dtype)
+
     # convert query_tokens_ids from list of list to a flat 1-d np.ndarray with
     # pointers to the start of each query to be used to find the boundaries of each query
     query_pointers = np.cumsum([0] + [len(q) for q in query_tokens_ids], dtype=int_dtype)
-- 
2.43.0


From eb6c5aaa8391092055093fa155fcce42629c3738 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 16/33] fix: the numba backend rejects a k larger than the
 corpus with a ValueError

---
 bm25s/numba/retrieve_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index 668f3e6..070ab7f 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -99,6 +99,12 @@ def _retrieve_numba_functional(
     else:
         pass
 
+    if k > scores["num_docs"]:
+        raise ValueError(
+            f"k of {k} is larger than the number of documents, which is {scores['num_docs']}."
+            f" Please set with a smaller k or increase the size of corpus."
+        )
+
     if n_threads == -1:
         n_threads = os.cpu_count()
     elif n_threads == 0:
-- 
2.43.0


From e6e0543198600605306e14ce522ca85ed8c90532 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 17/33] fix: never ask numba for more threads than it can start

---
 bm25s/numba/retrieve_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index 070ab7f..177ffb8 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -78,7 +78,7 @@ def _retrieve_numba_functional(
     int_dtype="int32",
     weight_mask=None,
 ):  
-    from numba import get_num_threads, set_num_threads, njit
+    from numba import get_num_threads, set_num_threads, njit, config
 
 
     if backend_selection != "numba":
@@ -112,7 +112,7 @@ def _retrieve_numba_functional(
     
     # get og thread count
     og_n_threads = get_num_threads()
-    set_num_threads(n_threads)
+    set_num_threads(min(n_threads, config.NUMBA_NUM_THREADS))
 
 
     if weight_mask is not None:
-- 
2.43.0


From 20991fd538be427924345bbed0fac27ca155ccd6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 18/33] fix: automatic selection must not round float64 scores
 to float32

---
 bm25s/selection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bm25s/selection.py b/bm25s/selection.py
index cdf58d3..a197e69 100644
--- a/bm25s/selection.py
+++ b/bm25s/selection.py
@@ -58,7 +58,9 @@ def topk(query_scores, k, backend="auto", sorted=True):
         )
     if backend == "auto":
         # if jax.lax is available, use it to speed up selection, otherwise use numpy
-        backend = "jax" if JAX_IS_AVAILABLE else "numpy"
+        # (jax only has 32-bit precision by default, so it cannot be used for 64-bit scores)
+        is_64bit = np.asarray(query_scores).dtype.itemsize > 4
+        backend = "jax" if JAX_IS_AVAILABLE and not is_64bit else "numpy"
     
     if backend not in ["numpy", "jax"]:
         raise ValueError("Invalid backend. Please choose from 'numpy' or 'jax'.")
-- 
2.43.0


From c937e123b6d92f268b93a54fe408d451a83c4ab6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 19/33] fix: a timer must not count the time while it was
 paused

---
 bm25s/utils/benchmark.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bm25s/utils/benchmark.py b/bm25s/utils/benchmark.py
index 6edf651..2867279 100644
--- a/bm25s/utils/benchmark.py
+++ b/bm25s/utils/benchmark.py
@@ -49,7 +49,7 @@ class Timer:
         stop_time = time.monotonic()
         r = self.results[name]
         r["stopped"] = stop_time
-        r["elapsed"] += stop_time - r.pop("last")
+        r["elapsed"] += stop_time - r.pop("last", stop_time)
 
         if show:
             self.show(name, n_total=n_total)
@@ -66,7 +66,7 @@ class Timer:
         paused_time = time.monotonic()
         r = self.results[name]
 
-        r["elapsed"] += paused_time - r["last"]
+        r["elapsed"] += paused_time - r.pop("last", paused_time)
 
     def resume(self, name):
         # if not self.has_started(name):
@@ -78,7 +78,7 @@ class Timer:
         # if self.has_stopped(name):
         #     raise ValueError(f"Timer with name {name} already stopped.")
 
-        self.results[name]["last"] = time.monotonic()
+        self.results[name].setdefault("last", time.monotonic())
 
     def is_paused(self, name):
         return name in self.results and "paused" in self.results[name]
-- 
2.43.0


From df6f2101749c22042ffc49e6552b1dbb33458331 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 20/33] fix: saving a memory-mapped index or corpus over its
 own files must not destroy it

---
 bm25s/__init__.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index fe87596..d8353f9 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -126,6 +126,17 @@ def _is_tuple_of_list_of_tokens(obj):
     return True
 
 
+def _save_array(path, array, allow_pickle=False):
+    """
+    Save an array to exactly `path`, via a temporary file since the array may be a
+    memory-map of the very file we are about to replace.
+    """
+    tmp_path = f"{path}.tmp"
+    with open(tmp_path, "wb") as f:
+        np.save(f, array, allow_pickle=allow_pickle)
+    os.replace(tmp_path, path)
+
+
 class BM25:
     def __init__(
         self,
@@ -926,14 +937,14 @@ class BM25:
         indices_path = save_dir / indices_name
         indptr_path = save_dir / indptr_name
 
-        np.save(data_path, self.scores["data"], allow_pickle=allow_pickle)
-        np.save(indices_path, self.scores["indices"], allow_pickle=allow_pickle)
-        np.save(indptr_path, self.scores["indptr"], allow_pickle=allow_pickle)
+        _save_array(data_path, self.scores["data"], allow_pickle=allow_pickle)
+        _save_array(indices_path, self.scores["indices"], allow_pickle=allow_pickle)
+        _save_array(indptr_path, self.scores["indptr"], allow_pickle=allow_pickle)
 
         # save nonoccurrence array if it exists
         if self.nonoccurrence_array is not None:
             nnm_path = save_dir / nnoc_name
-            np.save(nnm_path, self.nonoccurrence_array, allow_pickle=allow_pickle)
+            _save_array(nnm_path, self.nonoccurrence_array, allow_pickle=allow_pickle)
 
         # Save the vocab dictionary
         vocab_path = save_dir / vocab_name
@@ -961,7 +972,10 @@ class BM25:
         corpus = corpus if corpus is not None else self.corpus
 
         if corpus is not None:
-            with open(save_dir / corpus_name, "wt", encoding="utf-8") as f:
+            # the corpus may be backed by the very file we are about to replace
+            corpus_path = save_dir / corpus_name
+            tmp_corpus_path = f"{corpus_path}.tmp"
+            with open(tmp_corpus_path, "wt", encoding="utf-8") as f:
                 # if it's not an iterable, we skip
                 if not isinstance(corpus, Iterable):
                     logging.warning(
@@ -986,9 +1000,11 @@ class BM25:
                     else:
                         f.write(doc_str + "\n")
 
+            os.replace(tmp_corpus_path, corpus_path)
+
             # also save corpus.mmindex
-            mmidx = utils.corpus.find_newline_positions(save_dir / corpus_name)
-            utils.corpus.save_mmindex(mmidx, path=save_dir / corpus_name)
+            mmidx = utils.corpus.find_newline_positions(corpus_path)
+            utils.corpus.save_mmindex(mmidx, path=corpus_path)
 
     def load_scores(
         self,
-- 
2.43.0


From 8b7f83f42e63a75cd6453af80159d9afcba0fdc1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:24 +0000
Subject: [PATCH 21/33] fix: BEIR files and the model card are UTF-8 whatever
 the locale

---
 bm25s/hf.py         |  2 +-
 bm25s/utils/beir.py | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/bm25s/hf.py b/bm25s/hf.py
index 33955a2..f326b3f 100644
--- a/bm25s/hf.py
+++ b/bm25s/hf.py
@@ -563,7 +563,7 @@ class BM25HF(BM25):
                 idf_method=self.idf_method,
             )
 
-            with open(os.path.join(save_dir, "README.md"), "w") as f:
+            with open(os.path.join(save_dir, "README.md"), "w", encoding="utf-8") as f:
                 f.write(results)
 
         # push content of the temporary directory to the repo
diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index 97726e2..33d3ffb 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -53,12 +53,12 @@ def merge_cqa_dupstack(data_path):
         # combine all the corpus files into one
         # corpus files are located under cqadupstack/<name>/corpus.jsonl
         corpus_files = list(data_path.glob("*/corpus.jsonl"))
-        with open(corpus_path, "w") as f:
+        with open(corpus_path, "w", encoding="utf-8") as f:
             for file in tqdm(corpus_files, desc="Merging Corpus", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.name
 
-                with open(file, "r") as f2:
+                with open(file, "r", encoding="utf-8") as f2:
                     for line in tqdm(
                         f2, desc=f"Merging {corpus_name} Corpus", leave=False
                     ):
@@ -73,12 +73,12 @@ def merge_cqa_dupstack(data_path):
     queries_path = data_path / "queries.jsonl"
     if not queries_path.exists():
         queries_files = list(data_path.glob("*/queries.jsonl"))
-        with open(queries_path, "w") as f:
+        with open(queries_path, "w", encoding="utf-8") as f:
             for file in tqdm(queries_files, desc="Merging Queries", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.name
 
-                with open(file, "r") as f2:
+                with open(file, "r", encoding="utf-8") as f2:
                     for line in tqdm(
                         f2, desc=f"Merging {corpus_name} Queries", leave=False
                     ):
@@ -95,13 +95,13 @@ def merge_cqa_dupstack(data_path):
 
     if not qrels_path.exists():
         qrels_files = list(data_path.glob("*/qrels/test.tsv"))
-        with open(qrels_path, "w") as f:
+        with open(qrels_path, "w", encoding="utf-8") as f:
             # First, write the columns: query-id	corpus-id	score
             f.write("query-id\tcorpus-id\tscore\n")
             for file in tqdm(qrels_files, desc="Merging Qrels", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.parent.name
-                with open(file, "r") as f2:
+                with open(file, "r", encoding="utf-8") as f2:
                     # skip first line
                     next(f2)
 
@@ -192,7 +192,7 @@ def load_jsonl(
         raise FileNotFoundError(f"Corpus file not found at {corpus_path}")
 
     corpus = []
-    with open(corpus_path, "r") as f:
+    with open(corpus_path, "r", encoding="utf-8") as f:
         # get the number of bytes in the file
         num_lines = sum(1 for i in open(corpus_path, "rb"))
         pbar = tqdm(
@@ -258,7 +258,7 @@ def load_qrels(
         raise FileNotFoundError(f"Qrels file not found at {qrels_path}")
 
     qrels = []
-    with open(qrels_path, "r") as f:
+    with open(qrels_path, "r", encoding="utf-8") as f:
         # skip first line
         next(f)
         for line in tqdm(
-- 
2.43.0


From f590c133dc88d3ba2fcf30cb24664b0dfc314f51 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 22/33] fix: load BEIR records that have no metadata

---
 bm25s/utils/beir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index 33d3ffb..d66cf96 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -208,7 +208,7 @@ def load_jsonl(
                 line["title"] = line.get("title")
             if remove is not None:
                 for key in remove:
-                    del line[key]
+                    line.pop(key, None)
             corpus.append(line)
             # update the progress bar wrt the number of bytes read
 
-- 
2.43.0


From ea03ef6f9304b42d9dd894a9957f4b4b0b7c73ba Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:00 +0000
Subject: [PATCH 23/33] fix: a memory-mapped corpus can be read by several
 threads at once

---
 bm25s/utils/corpus.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index 8be80bc..97c995a 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -103,8 +103,10 @@ def get_line(
     else:
         CLOSE_MMAP = False
 
-    mmap_obj.seek(mmindex[index])
-    result = mmap_obj.readline().decode(encoding)
+    # slice instead of seek and readline: the position is shared between threads
+    start = mmindex[index]
+    end = mmap_obj.find(b"\n", start)
+    result = mmap_obj[start : end + 1 if end != -1 else len(mmap_obj)].decode(encoding)
 
     if CLOSE_MMAP:
         mmap_obj.close()
-- 
2.43.0


From 5c08cb771f51f3210a5b31130f3643cc66df3d85 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 24/33] fix: an index call that fails leaves the existing index
 as it was

---
 bm25s/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index d8353f9..86b5d90 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -321,7 +321,7 @@ class BM25:
 
         # preliminary: if the method is one of BM25L or BM25+, we need to calculate the non-occurrence array
         if self.method in self.methods_requiring_nonoccurrence:
-            self.nonoccurrence_array = _build_nonoccurrence_array(
+            nonoccurrence_array = _build_nonoccurrence_array(
                 doc_frequencies=doc_frequencies,
                 n_docs=n_docs,
                 compute_idf_fn=_select_idf_scorer(self.idf_method),
@@ -334,7 +334,7 @@ class BM25:
                 dtype=self.dtype,
             )
         else:
-            self.nonoccurrence_array = None
+            nonoccurrence_array = None
 
         # Step 2: Calculate the idf for each token using the document frequencies
         idf_array = _build_idf_array(
@@ -358,7 +358,7 @@ class BM25:
             dtype=self.dtype,
             int_dtype=self.int_dtype,
             method=self.method,
-            nonoccurrence_array=self.nonoccurrence_array,
+            nonoccurrence_array=nonoccurrence_array,
         )
 
         # Now, we build the sparse matrix
@@ -377,6 +377,9 @@ class BM25:
             "indptr": indptr,
             "num_docs": n_docs,
         }
+        # only now, so that a build that fails leaves an existing index as it was
+        self.nonoccurrence_array = nonoccurrence_array
+
         return scores
 
     def build_index_from_tokens(
-- 
2.43.0


From b18a367646c06d4eb0e03f88554326e4e1a6563b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 25/33] fix: merging results keeps documents of different types
 as they are

---
 bm25s/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 86b5d90..35e00ab 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -71,7 +71,11 @@ class Results(NamedTuple):
         """
         Merge a list of Results objects into a single Results object.
         """
-        documents = np.concatenate([r.documents for r in results], axis=0)
+        documents = [r.documents for r in results]
+        if len({d.dtype.kind for d in documents}) > 1:
+            # numpy would convert documents of one type into another
+            documents = [d.astype(object) for d in documents]
+        documents = np.concatenate(documents, axis=0)
         scores = np.concatenate([r.scores for r in results], axis=0)
         return cls(documents=documents, scores=scores)
 
-- 
2.43.0


From 75bd1053926248fa921d95466d27e697f0622a30 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 26/33] fix: downloading a dataset does not need tqdm

---
 bm25s/utils/beir.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index d66cf96..e2e4458 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -6,7 +6,7 @@ try:
     from tqdm.auto import tqdm
 except ImportError:
 
-    def tqdm(iterable, *args, **kwargs):
+    def tqdm(iterable=None, *args, **kwargs):
         return iterable
 
 
@@ -128,7 +128,6 @@ def download_dataset(
     import urllib.request
     import zipfile
     from pathlib import Path
-    from tqdm.auto import tqdm
 
     save_dir = Path(save_dir)
     save_dir.mkdir(parents=True, exist_ok=True)
@@ -152,15 +151,18 @@ def download_dataset(
             total_size = int(response.headers.get("content-length", 0))
             block_size = 8192 * 2
             # set the tqdm total to the total size
-            pbar.total = total_size
+            if pbar is not None:
+                pbar.total = total_size
             while True:
                 buffer = response.read(block_size)
                 if not buffer:
                     break
                 f.write(buffer)
-                pbar.update(len(buffer))
+                if pbar is not None:
+                    pbar.update(len(buffer))
 
-        pbar.close()
+        if pbar is not None:
+            pbar.close()
 
     # now that we have the zip file, extract it
     if unzip:
-- 
2.43.0


From e02937a15b62eb52958f6240ea352ed7ea741de4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 27/33] fix: an interrupted download is not taken for the
 archive

---
 bm25s/utils/beir.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index e2e4458..69fe0bd 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -146,10 +146,13 @@ def download_dataset(
             leave=False,
             disable=not show_progress,
         )
-        with open(save_zip_path, "wb") as f:
+        # an incomplete file must not be taken for the archive later
+        part_path = save_zip_path.with_name(save_zip_path.name + ".part")
+        with open(part_path, "wb") as f:
             response = urllib.request.urlopen(url)
             total_size = int(response.headers.get("content-length", 0))
             block_size = 8192 * 2
+            downloaded = 0
             # set the tqdm total to the total size
             if pbar is not None:
                 pbar.total = total_size
@@ -158,12 +161,19 @@ def download_dataset(
                 if not buffer:
                     break
                 f.write(buffer)
+                downloaded += len(buffer)
                 if pbar is not None:
                     pbar.update(len(buffer))
 
         if pbar is not None:
             pbar.close()
 
+        if downloaded < total_size:
+            raise IOError(
+                f"Download of {url} is incomplete: {downloaded} of {total_size} bytes."
+            )
+        part_path.replace(save_zip_path)
+
     # now that we have the zip file, extract it
     if unzip:
         with zipfile.ZipFile(save_zip_path, "r") as zip_ref:
-- 
2.43.0


From 353ec338a47bf6d54490ea34f9ffe1ffe3e71c7d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 28/33] fix: an interrupted CQADupStack merge is not taken for
 the merged files

---
 bm25s/utils/beir.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index 69fe0bd..a99e6de 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -53,7 +53,9 @@ def merge_cqa_dupstack(data_path):
         # combine all the corpus files into one
         # corpus files are located under cqadupstack/<name>/corpus.jsonl
         corpus_files = list(data_path.glob("*/corpus.jsonl"))
-        with open(corpus_path, "w", encoding="utf-8") as f:
+        # an incomplete file must not be taken for the merged one later
+        part_path = corpus_path.with_name(corpus_path.name + ".part")
+        with open(part_path, "w", encoding="utf-8") as f:
             for file in tqdm(corpus_files, desc="Merging Corpus", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.name
@@ -68,12 +70,14 @@ def merge_cqa_dupstack(data_path):
                         # write back to file
                         f.write(json_functions.dumps(line))
                         f.write("\n")
+        part_path.replace(corpus_path)
 
     # now, do the same for queries.jsonl
     queries_path = data_path / "queries.jsonl"
     if not queries_path.exists():
         queries_files = list(data_path.glob("*/queries.jsonl"))
-        with open(queries_path, "w", encoding="utf-8") as f:
+        part_path = queries_path.with_name(queries_path.name + ".part")
+        with open(part_path, "w", encoding="utf-8") as f:
             for file in tqdm(queries_files, desc="Merging Queries", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.name
@@ -88,6 +92,7 @@ def merge_cqa_dupstack(data_path):
                         # write back to file
                         f.write(json_functions.dumps(line))
                         f.write("\n")
+        part_path.replace(queries_path)
 
     # now, do the same for qrels/test.tsv
     qrels_path = data_path / "qrels" / "test.tsv"
@@ -95,7 +100,8 @@ def merge_cqa_dupstack(data_path):
 
     if not qrels_path.exists():
         qrels_files = list(data_path.glob("*/qrels/test.tsv"))
-        with open(qrels_path, "w", encoding="utf-8") as f:
+        part_path = qrels_path.with_name(qrels_path.name + ".part")
+        with open(part_path, "w", encoding="utf-8") as f:
             # First, write the columns: query-id	corpus-id	score
             f.write("query-id\tcorpus-id\tscore\n")
             for file in tqdm(qrels_files, desc="Merging Qrels", leave=False):
@@ -115,6 +121,7 @@ def merge_cqa_dupstack(data_path):
                         cid = f"{corpus_name}_{cid}"
                         # write back to file
                         f.write(f"{qid}\t{cid}\t{score}\n")
+        part_path.replace(qrels_path)
 
 
 def download_dataset(
-- 
2.43.0


From 2695c96f94e4821b1b3d4c2856d83706a8e95e7e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 29/33] fix: an interrupted save never leaves a mix of two
 indexes that can be loaded

---
 bm25s/__init__.py | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 35e00ab..b79f3c6 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -939,6 +939,25 @@ class BM25:
         save_dir = Path(save_dir)
         save_dir.mkdir(parents=True, exist_ok=True)
 
+        # The parameters are removed first and saved last, since an index cannot be loaded without
+        # them: a save that does not finish must not leave a mix of its files and those of an index
+        # saved here before
+        params_path = save_dir / params_name
+        params = dict(
+            k1=self.k1,
+            b=self.b,
+            delta=self.delta,
+            method=self.method,
+            idf_method=self.idf_method,
+            dtype=self.dtype,
+            int_dtype=self.int_dtype,
+            num_docs=self.scores["num_docs"],
+            version=__version__,
+            backend=self.backend,
+        )
+        if params_path.exists():
+            params_path.unlink()
+
         # Save the scores arrays
         data_path = save_dir / data_name
         indices_path = save_dir / indices_name
@@ -959,23 +978,6 @@ class BM25:
         with open(vocab_path, "wt", encoding="utf-8") as f:
             f.write(json_functions.dumps(self.vocab_dict, ensure_ascii=False))
 
-        # Save the parameters
-        params_path = save_dir / params_name
-        params = dict(
-            k1=self.k1,
-            b=self.b,
-            delta=self.delta,
-            method=self.method,
-            idf_method=self.idf_method,
-            dtype=self.dtype,
-            int_dtype=self.int_dtype,
-            num_docs=self.scores["num_docs"],
-            version=__version__,
-            backend=self.backend,
-        )
-        with open(params_path, "w") as f:
-            json.dump(params, f, indent=4)
-
         corpus = corpus if corpus is not None else self.corpus
 
         if corpus is not None:
@@ -1013,6 +1015,10 @@ class BM25:
             mmidx = utils.corpus.find_newline_positions(corpus_path)
             utils.corpus.save_mmindex(mmidx, path=corpus_path)
 
+        # Save the parameters
+        with open(params_path, "w") as f:
+            json.dump(params, f, indent=4)
+
     def load_scores(
         self,
         save_dir,
-- 
2.43.0


From 1f575d88da8aae5c69c634aac864f1a43caefbaa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:40 +0000
Subject: [PATCH 30/33] fix: return large integer documents as they are, not as
 floats

---
 bm25s/utils/corpus.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index 97c995a..3b2beaf 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -32,7 +32,10 @@ def to_document_array(documents, shape):
     """
     types = {type(document) for document in documents}
     if len(types) == 1 and issubclass(*types, (str, int, float, np.generic)):
-        return np.array(documents).reshape(shape)
+        array = np.array(documents)
+        # integers that do not fit a common type (e.g. 2**63 and -1) would become floats
+        if not (issubclass(*types, int) and array.dtype.kind == "f"):
+            return array.reshape(shape)
 
     array = np.empty(len(documents), dtype=object)
     for i, document in enumerate(documents):
-- 
2.43.0


From cb767859f5913512418deb64712d1903416c88c2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 31/33] fix: accept a tuple of lists of tokens as queries with
 the numba backend

---
 bm25s/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index b79f3c6..3c99702 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -772,6 +772,9 @@ class BM25:
 
         if isinstance(query_tokens, tokenization.Tokenized):
             query_tokens = tokenization.convert_tokenized_to_string_list(query_tokens)
+        elif isinstance(query_tokens, tuple):
+            # a tuple of lists of tokens: the numba backend only accepts a list of them
+            query_tokens = list(query_tokens)
 
         corpus = corpus if corpus is not None else self.corpus
 
-- 
2.43.0


From 52105c864e0b1c9581affd3664348a009a87dc75 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 32/33] fix: an interrupted save of a line index does not leave
 an unreadable one

---
 bm25s/utils/corpus.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index 3b2beaf..32b6c16 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -73,8 +73,11 @@ def find_newline_positions(path, show_progress=True, leave_progress=True, encodi
 def save_mmindex(indexes, path, encoding="utf-8"):
     path = str(path)
     index_file = change_extension(path, ".mmindex.json")
-    with open(index_file, "w", encoding=encoding) as f:
+    # an incomplete file must not be taken for the index later
+    tmp_index_file = f"{index_file}.tmp"
+    with open(tmp_index_file, "w", encoding=encoding) as f:
         f.write(json_functions.dumps(indexes))
+    os.replace(tmp_index_file, index_file)
 
 
 def load_mmindex(path, encoding="utf-8"):
-- 
2.43.0


From ce16bbb33bd0be2820f78227460bac0e151a657c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 33/33] fix: evaluate() gives the same values when a cutoff is
 repeated

---
 bm25s/utils/beir.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index a99e6de..a57e39b 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -327,6 +327,9 @@ def evaluate(
                     results[qid].pop(pid)
                     popped.append(pid)
 
+    # a cutoff given twice must not be counted twice
+    k_values = list(dict.fromkeys(k_values))
+
     ndcg = {}
     _map = {}
     recall = {}
-- 
2.43.0

