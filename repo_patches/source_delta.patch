From e24d07fc0ade18a5ef615bd50e74cd85c5d86c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 01/20] fix: JSON helper escapes non-ASCII text as valid JSON

---
 bm25s/utils/json_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/json_functions.py b/bm25s/utils/json_functions.py
index 683bf88..171893b 100644
--- a/bm25s/utils/json_functions.py
+++ b/bm25s/utils/json_functions.py
@@ -1,4 +1,5 @@
 import json
+import re
 
 try:
     import orjson
@@ -12,8 +13,8 @@ def dumps_with_builtin(d: dict, **kwargs) -> str:
 
 def dumps_with_orjson(d: dict, **kwargs) -> str:
     if kwargs.get("ensure_ascii", True):
-        # Simulate `ensure_ascii=True` by escaping non-ASCII characters
-        return orjson.dumps(d).decode("utf-8").encode("ascii", "backslashreplace").decode("utf-8")
+        # Simulate `ensure_ascii=True` by escaping non-ASCII characters as JSON does (\\uXXXX)
+        return re.sub(r"[^\x00-\x7f]", lambda m: json.dumps(m.group())[1:-1], orjson.dumps(d).decode("utf-8"))
     # Ignore other kwargs not supported by orjson
     return orjson.dumps(d).decode("utf-8")
 
-- 
2.43.0


From 88d72bc39eb43ce5698ebdd10ab1c87c5e477f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 02/20] fix: index vocabulary tokens that occur in no document
 (division by zero with atire and bm25+)

---
 bm25s/scoring.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bm25s/scoring.py b/bm25s/scoring.py
index 4b567e7..3e336fd 100644
--- a/bm25s/scoring.py
+++ b/bm25s/scoring.py
@@ -53,7 +53,10 @@ def _build_idf_array(
     idf_array = np.zeros(n_vocab, dtype=dtype)
 
     for token_id, df in doc_frequencies.items():
-        idf_array[token_id] = compute_idf_fn(df, N=n_docs)
+        # a token that occurs in no document has no postings (and some idf
+        # variants are undefined for df=0), so its idf stays at 0
+        if df > 0:
+            idf_array[token_id] = compute_idf_fn(df, N=n_docs)
 
     return idf_array
 
@@ -87,6 +90,10 @@ def _build_nonoccurrence_array(
     nonoccurrence_array = np.zeros(n_vocab, dtype=dtype)
 
     for token_id, df in doc_frequencies.items():
+        # a token that occurs in no document does not contribute to any score
+        if df == 0:
+            continue
+
         idf = compute_idf_fn(df, N=n_docs)
         tfc = calculate_tfc_fn(
             tf_array=0, l_d=l_d, l_avg=l_avg, k1=k1, b=b, delta=delta
-- 
2.43.0


From 6ac5ddd8cba244b9f085990d4957a6839e707f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 03/20] fix: index() no longer shares and modifies the caller's
 vocabulary dictionary

---
 bm25s/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 2ca7691..fe48b30 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -468,6 +468,8 @@ class BM25:
                     "Internal error: Found an invalid corpus object, indicating `_inferred_corpus_object` is not working correctly."
                 )
 
+            # copy, so that the index and the caller do not share the same vocabulary object
+            vocab_dict = dict(vocab_dict)
             unique_token_ids = list(vocab_dict.values())
             scores = self.build_index_from_ids(
                 unique_token_ids=unique_token_ids,
-- 
2.43.0


From 0144a9212108c16f02d9412d26c81850683d72ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 04/20] fix: give the automatically added empty token a valid
 (empty) column in the index

---
 bm25s/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index fe48b30..82d6845 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -484,7 +484,15 @@ class BM25:
                 pass
             
             if "" not in vocab_dict:
-                vocab_dict[""] = max(vocab_dict.values()) + 1
+                vocab_dict[""] = max(vocab_dict.values(), default=-1) + 1
+                # the empty token has no postings, so its column in the index is empty
+                indptr = scores["indptr"]
+                scores["indptr"] = np.append(indptr, indptr[-1:])
+                if self.nonoccurrence_array is not None:
+                    self.nonoccurrence_array = np.append(
+                        self.nonoccurrence_array,
+                        np.zeros(1, dtype=self.nonoccurrence_array.dtype),
+                    )
 
         self.scores = scores
         self.vocab_dict = vocab_dict
-- 
2.43.0


From c3a6e7c0d473b8335d94932fd8d59fd2d7036aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 05/20] fix: integer tokens keep their value as token ID when
 indexing lists of integers

---
 bm25s/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 82d6845..aa4116b 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -384,6 +384,12 @@ class BM25:
             leave_progress=leave_progress,
             desc="BM25S Create Vocab",
         )
+        if len(unique_tokens) > 0 and all(
+            isinstance(token, int) and token >= 0 for token in unique_tokens
+        ):
+            # integer tokens are used as token IDs at query time, so each one keeps its value
+            unique_tokens = range(max(unique_tokens) + 1)
+
         vocab_dict = {token: i for i, token in enumerate(unique_tokens)}
         unique_token_ids = [vocab_dict[token] for token in unique_tokens]
 
-- 
2.43.0


From ff507015d2733f2d61bd8319164e531e7fbb539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 06/20] fix: apply the weight mask to the complete score (bm25l
 and bm25+)

---
 bm25s/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index aa4116b..868733f 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -544,16 +544,16 @@ class BM25:
             dtype=dtype,
         )
 
-        if weight_mask is not None:
-            # multiply the scores by the weight mask
-            scores *= weight_mask
-
         # if there's a non-occurrence array, we need to add the non-occurrence score
         # back to the scores
         if self.nonoccurrence_array is not None:
             nonoccurrence_scores = self.nonoccurrence_array[query_tokens_ids].sum()
             scores += nonoccurrence_scores
 
+        if weight_mask is not None:
+            # multiply the scores by the weight mask
+            scores *= weight_mask
+
         return scores
 
     def get_scores(
-- 
2.43.0


From bc19d2e7c2d7e3d63f124c3c63c64d262fac71aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 07/20] fix: pass the weight mask to the numba backend

---
 bm25s/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 868733f..c960056 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -806,6 +806,7 @@ class BM25:
                 dtype=self.dtype,
                 int_dtype=self.int_dtype,
                 nonoccurrence_array=self.nonoccurrence_array,
+                weight_mask=weight_mask,
             )
 
             if return_as == "tuple":
-- 
2.43.0


From f7294663c5cf80cafbba947625ddfe75ab4f5ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 08/20] fix: reject negative token IDs, accept empty queries on
 an index without tokens

---
 bm25s/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index c960056..c894438 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -527,7 +527,10 @@ class BM25:
         int_dtype = np.dtype(self.int_dtype)
         query_tokens_ids: np.ndarray = np.asarray(query_tokens_ids, dtype=int_dtype)
 
-        max_token_id = int(query_tokens_ids.max(initial=0))
+        max_token_id = int(query_tokens_ids.max(initial=-1))
+
+        if int(query_tokens_ids.min(initial=0)) < 0:
+            raise ValueError("The query contains negative token IDs.")
 
         if max_token_id >= len(indptr) - 1:
             raise ValueError(
-- 
2.43.0


From ba42543e879fff5f45e45e21178b6a6c985421bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 09/20] fix: get_scores accepts an empty query

---
 bm25s/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index c894438..1573cc2 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -565,7 +565,9 @@ class BM25:
         if not isinstance(query_tokens_single, list):
             raise ValueError("The query_tokens must be a list of tokens.")
 
-        if isinstance(query_tokens_single[0], str):
+        if len(query_tokens_single) == 0:
+            query_tokens_ids = []
+        elif isinstance(query_tokens_single[0], str):
             query_tokens_ids = self.get_tokens_ids(query_tokens_single)
         elif isinstance(query_tokens_single[0], int):
             # already are token IDs, no need to convert
-- 
2.43.0


From 841d881551e685093bd04f539dabfb976c956d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 10/20] fix: a batch with empty queries is recognized by its
 first non-empty query

---
 bm25s/__init__.py | 49 +++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 1573cc2..9a01c10 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -94,18 +94,14 @@ def is_list_of_list_of_type(obj, type_=int):
     if len(obj) == 0:
         return False
 
-    first_elem = obj[0]
-    if not isinstance(first_elem, list):
-        return False
-
-    if len(first_elem) == 0:
-        return False
+    # the first non-empty list decides, since any query may be empty
+    for elem in obj:
+        if not isinstance(elem, list):
+            return False
+        if len(elem) > 0:
+            return isinstance(elem[0], type_)
 
-    first_token = first_elem[0]
-    if not isinstance(first_token, type_):
-        return False
-
-    return True
+    return False
 
 
 def _is_tuple_of_list_of_tokens(obj):
@@ -115,18 +111,14 @@ def _is_tuple_of_list_of_tokens(obj):
     if len(obj) == 0:
         return False
 
-    first_elem = obj[0]
-    if not isinstance(first_elem, list):
-        return False
-
-    if len(first_elem) == 0:
-        return False
-
-    first_token = first_elem[0]
-    if not isinstance(first_token, str):
-        return False
+    # the first non-empty list decides, since any query may be empty
+    for elem in obj:
+        if not isinstance(elem, list):
+            return False
+        if len(elem) > 0:
+            return isinstance(elem[0], str)
 
-    return True
+    return False
 
 
 class BM25:
@@ -720,7 +712,7 @@ class BM25:
                     for token_id in query
                     if token_id in self.unique_token_ids_set
                 ]
-                if len(query_filtered) == 0:
+                if len(query) > 0 and len(query_filtered) == 0:
                     if "" not in self.vocab_dict:
                         raise ValueError(
                             "The query does not contain any tokens that are in the vocabulary. "
@@ -786,11 +778,22 @@ class BM25:
             backend_selection = (
                 "numba" if backend_selection == "auto" else backend_selection
             )
+            # a tuple of lists of tokens is handled like a list of lists of tokens
+            if isinstance(query_tokens, tuple):
+                query_tokens = list(query_tokens)
+
             # if is list of list of int
             if is_list_of_list_of_type(query_tokens, type_=int):
                 query_tokens_ids = query_tokens
             elif is_list_of_list_of_type(query_tokens, type_=str):
                 query_tokens_ids = [self.get_tokens_ids(q) for q in query_tokens]
+            elif (
+                isinstance(query_tokens, list)
+                and len(query_tokens) > 0
+                and all(isinstance(q, list) and len(q) == 0 for q in query_tokens)
+            ):
+                # every query is empty, so there is nothing to convert
+                query_tokens_ids = query_tokens
             else:
                 raise ValueError(
                     "The query_tokens must be a list of list of tokens (str for stemmed words, int for token ids matching corpus) or a tuple of two lists: the first list is the list of unique token IDs, and the second list is the list of token IDs for each document."
-- 
2.43.0


From d76ac205aaefa062b524cb6006784dfc4dd27452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 11/20] fix: numba backend rejects too large k and out-of-range
 token IDs, and always restores the thread count

---
 bm25s/numba/retrieve_utils.py | 56 ++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index c7fee7e..8a5f2ef 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -104,33 +104,47 @@ def _retrieve_numba_functional(
     elif n_threads == 0:
         n_threads = 1
     
-    # get og thread count
-    og_n_threads = get_num_threads()
-    set_num_threads(n_threads)
-
+    if k > scores["num_docs"]:
+        raise ValueError(
+            f"k of {k} is larger than the number of available scores"
+            f", which is {scores['num_docs']} (corpus size should be larger than top-k)."
+            f" Please set with a smaller k or increase the size of corpus."
+        )
 
     # convert query_tokens_ids from list of list to a flat 1-d np.ndarray with
     # pointers to the start of each query to be used to find the boundaries of each query
     query_pointers = np.cumsum([0] + [len(q) for q in query_tokens_ids], dtype=int_dtype)
     query_tokens_ids_flat = np.concatenate(query_tokens_ids).astype(int_dtype)
 
-    retrieved_scores, retrieved_indices = _retrieve_internal_jitted_parallel(
-        query_pointers=query_pointers,
-        query_tokens_ids_flat=query_tokens_ids_flat,
-        k=k,
-        sorted=sorted,
-        dtype=np.dtype(dtype),
-        int_dtype=np.dtype(int_dtype),
-        data=scores["data"],
-        indptr=scores["indptr"],
-        indices=scores["indices"],
-        num_docs=scores["num_docs"],
-        nonoccurrence_array=nonoccurrence_array,
-        weight_mask=weight_mask,
-    )
-
-    # reset the number of threads
-    set_num_threads(og_n_threads)
+    # the jitted code does not check bounds, so the token IDs are checked here
+    if len(query_tokens_ids_flat) > 0 and (
+        query_tokens_ids_flat.min() < 0
+        or query_tokens_ids_flat.max() >= len(scores["indptr"]) - 1
+    ):
+        raise ValueError("The query contains token IDs that are not in the index.")
+
+    # get og thread count
+    og_n_threads = get_num_threads()
+    set_num_threads(n_threads)
+
+    try:
+        retrieved_scores, retrieved_indices = _retrieve_internal_jitted_parallel(
+            query_pointers=query_pointers,
+            query_tokens_ids_flat=query_tokens_ids_flat,
+            k=k,
+            sorted=sorted,
+            dtype=np.dtype(dtype),
+            int_dtype=np.dtype(int_dtype),
+            data=scores["data"],
+            indptr=scores["indptr"],
+            indices=scores["indices"],
+            num_docs=scores["num_docs"],
+            nonoccurrence_array=nonoccurrence_array,
+            weight_mask=weight_mask,
+        )
+    finally:
+        # reset the number of threads
+        set_num_threads(og_n_threads)
 
     if corpus is None:
         retrieved_docs = retrieved_indices
-- 
2.43.0


From 34e31b8e0f2199f5958652c6dce3352e57498d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 12/20] fix: load_qrels keeps all judged documents of a query

---
 bm25s/utils/beir.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index e14fe68..97726e2 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -271,7 +271,10 @@ def load_qrels(
             qrels.append((qid, cid, int(score)))
 
     if return_dict:
-        qrels = {qid: {cid: score} for qid, cid, score in qrels}
+        qrels_dict = {}
+        for qid, cid, score in qrels:
+            qrels_dict.setdefault(qid, {})[cid] = score
+        qrels = qrels_dict
 
     return qrels
 
-- 
2.43.0


From 6c6c8acad739afe999e7a117fbf38136258d61fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 13/20] fix: stopping a paused timer no longer counts the
 paused time

---
 bm25s/utils/benchmark.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/benchmark.py b/bm25s/utils/benchmark.py
index 6edf651..03f0ade 100644
--- a/bm25s/utils/benchmark.py
+++ b/bm25s/utils/benchmark.py
@@ -49,7 +49,9 @@ class Timer:
         stop_time = time.monotonic()
         r = self.results[name]
         r["stopped"] = stop_time
-        r["elapsed"] += stop_time - r.pop("last")
+        # a paused timer has no time left to add
+        if "last" in r:
+            r["elapsed"] += stop_time - r.pop("last")
 
         if show:
             self.show(name, n_total=n_total)
@@ -66,7 +68,7 @@ class Timer:
         paused_time = time.monotonic()
         r = self.results[name]
 
-        r["elapsed"] += paused_time - r["last"]
+        r["elapsed"] += paused_time - r.pop("last")
 
     def resume(self, name):
         # if not self.has_started(name):
-- 
2.43.0


From 8a636a8e84c2cf355aac505b34461e1fa4da5863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 14/20] fix: JSON helper accepts non-string keys with orjson as
 with the builtin json

---
 bm25s/utils/json_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/json_functions.py b/bm25s/utils/json_functions.py
index 171893b..1be507f 100644
--- a/bm25s/utils/json_functions.py
+++ b/bm25s/utils/json_functions.py
@@ -14,9 +14,9 @@ def dumps_with_builtin(d: dict, **kwargs) -> str:
 def dumps_with_orjson(d: dict, **kwargs) -> str:
     if kwargs.get("ensure_ascii", True):
         # Simulate `ensure_ascii=True` by escaping non-ASCII characters as JSON does (\\uXXXX)
-        return re.sub(r"[^\x00-\x7f]", lambda m: json.dumps(m.group())[1:-1], orjson.dumps(d).decode("utf-8"))
+        return re.sub(r"[^\x00-\x7f]", lambda m: json.dumps(m.group())[1:-1], orjson.dumps(d, option=orjson.OPT_NON_STR_KEYS).decode("utf-8"))
     # Ignore other kwargs not supported by orjson
-    return orjson.dumps(d).decode("utf-8")
+    return orjson.dumps(d, option=orjson.OPT_NON_STR_KEYS).decode("utf-8")
 
 if ORJSON_AVAILABLE:
     def dumps(d: dict, **kwargs) -> str:
-- 
2.43.0


From 87d7feada7a6a9f4d90327ec8877d924ee3bbaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 15/20] fix: change_extension keeps the path of a file without
 extension

---
 bm25s/utils/corpus.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index b06ebba..fcc1e3a 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -20,8 +20,7 @@ except ImportError:
 from . import json_functions
 
 def change_extension(path, new_extension):
-    path = str(path)
-    return path.rpartition(".")[0] + new_extension
+    return os.path.splitext(str(path))[0] + new_extension
 
 
 def find_newline_positions(path, show_progress=True, leave_progress=True, encoding="utf-8"):
-- 
2.43.0


From 1bb894fad827ea1b7a112f5f95626c061a5fe157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 16/20] fix: a carriage return inside a line is not a line
 boundary

---
 bm25s/utils/corpus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index fcc1e3a..c71065a 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -26,7 +26,8 @@ def change_extension(path, new_extension):
 def find_newline_positions(path, show_progress=True, leave_progress=True, encoding="utf-8"):
     path = str(path)
     indexes = []
-    with open(path, "r", encoding=encoding) as f:
+    # lines end with "\n" only, as in `get_line`
+    with open(path, "r", encoding=encoding, newline="\n") as f:
         indexes.append(f.tell())
         pbar = tqdm(
             total=os.path.getsize(path),
-- 
2.43.0


From 2e7d63578838b1b64075eac4c6604e8f417b6d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 17/20] fix: the empty token reuses the ID of an already known
 empty stem

---
 bm25s/tokenization.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bm25s/tokenization.py b/bm25s/tokenization.py
index 2308e01..375c101 100644
--- a/bm25s/tokenization.py
+++ b/bm25s/tokenization.py
@@ -223,13 +223,14 @@ class Tokenizer:
             
         if allow_empty is True and update_vocab is True and "" not in self.word_to_id:
             idx = max(self.word_to_id.values(), default=-1) + 1
-            self.word_to_id[""] = idx
             
             if using_stemmer:
                 if "" not in self.word_to_stem:
                     self.word_to_stem[""] = ""
-                if "" not in self.stem_to_sid:
-                    self.stem_to_sid[""] = idx
+                # a word may already have been stemmed to "", keep its ID then
+                idx = self.stem_to_sid.setdefault("", idx)
+
+            self.word_to_id[""] = idx
         
         for text in texts:
             if self.lower:
-- 
2.43.0


From b20a14fbfd9637112e91ab85a92a5069ecf7fe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 18/20] fix: top-k selection with JAX keeps float64 scores
 exact

---
 bm25s/selection.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bm25s/selection.py b/bm25s/selection.py
index cdf58d3..6d28bec 100644
--- a/bm25s/selection.py
+++ b/bm25s/selection.py
@@ -10,6 +10,11 @@ else:
     # any output to avoid it from saying that gpu is not available
     _ = jax.lax.top_k(np.array([0] * 5), 1)
 
+    try:
+        from jax import enable_x64
+    except ImportError:
+        from jax.experimental import enable_x64
+
 
 def _topk_numpy(query_scores, k, sorted):
     # https://stackoverflow.com/questions/65038206/how-to-get-indices-of-top-k-values-from-a-numpy-array
@@ -38,7 +43,9 @@ def _topk_numpy(query_scores, k, sorted):
 
 
 def _topk_jax(query_scores, k):
-    topk_scores, topk_indices = jax.lax.top_k(query_scores, k)
+    # without x64, JAX would round float64 scores to float32 before comparing them
+    with enable_x64(True):
+        topk_scores, topk_indices = jax.lax.top_k(query_scores, k)
     topk_scores = np.asarray(topk_scores)
     topk_indices = np.asarray(topk_indices)
 
-- 
2.43.0


From f22b6f80a3135f3b76e8a2c51aee300be21dd844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 19/20] fix: numba backend accepts weight masks of any numeric
 or boolean type

---
 bm25s/numba/retrieve_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index 8a5f2ef..5f0821c 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -123,6 +123,10 @@ def _retrieve_numba_functional(
     ):
         raise ValueError("The query contains token IDs that are not in the index.")
 
+    # the jitted code multiplies scores by weights of the same type
+    if weight_mask is not None:
+        weight_mask = np.asarray(weight_mask, dtype=dtype)
+
     # get og thread count
     og_n_threads = get_num_threads()
     set_num_threads(n_threads)
-- 
2.43.0


From 9dd00f351deab30588b13fde09c440a59c853aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:19 +0000
Subject: [PATCH 20/20] fix: an integer query of only unknown token IDs does
 not match documents with empty tokens

---
 bm25s/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 9a01c10..99971ff 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -721,7 +721,9 @@ class BM25:
                             "You can also manually add an empty token to the vocabulary by setting `retriever.vocab_dict[''] = max(retriever.vocab_dict.values()) + 1`. "
                             "Then, run `retriever.unique_token_ids_set = set(retriever.vocab_dict.values())` to update the unique token IDs."
                         )
-                    query_filtered = [self.vocab_dict[""]]
+                    # the empty token may occur in documents, so the query must not
+                    # be replaced by it: no known token is left, every score is zero
+                    query_filtered = []
 
                 query_tokens_filtered.append(query_filtered)
 
-- 
2.43.0

