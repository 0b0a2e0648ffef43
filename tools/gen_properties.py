#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mech], "hook_needed": None}
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

I = "bm25s/__init__.py"; S = "bm25s/scoring.py"; SEL = "bm25s/selection.py"; NS = "bm25s/numba/selection.py"
NR = "bm25s/numba/retrieve_utils.py"; T = "bm25s/tokenization.py"; C = "bm25s/utils/corpus.py"
J = "bm25s/utils/json_functions.py"; H = "bm25s/hf.py"; B = "bm25s/utils/beir.py"; TM = "bm25s/utils/benchmark.py"

prop("C01", "Scores equal the selected BM25 variant's published formula",
 "For every tokenized corpus with at least one token, every supported scoring variant, every idf variant and every valid k1, b, delta, the score computed for a document equals (up to floating-point rounding) the sum over the query's tokens, repeats counted, of the published idf of the token times the published term-frequency weight of that token in that document. A document that does not contain a query token gets for it the published weight at term frequency zero, and tokens that occur nowhere in the corpus contribute nothing. Unknown variant names are rejected.",
 ["inputs", "configurations"], "all corpora, queries, variant and idf-variant combinations, k1 > 0, 0 <= b <= 1, delta >= 0",
 "The stable tests index one 4-document corpus with two variants and compare document ranks only; no score value is ever compared with the formula.",
 [S, I], [("term-frequency formulas", S + ":_score_tfc_*"), ("idf formulas", S + ":_score_idf_*"), ("document frequencies", S + ":_calculate_doc_freqs"), ("eager scoring with the non-occurrence shift", S + ":_build_scores_and_indices_for_matrix, _build_nonoccurrence_array"), ("query-time column sums", I + ":BM25.get_scores_from_ids")],
 [("scores", "sparse matrix of precomputed scores", I), ("nonoccurrence_array", "score of a token in documents that lack it", I)], ["BM25.get_scores", "BM25.retrieve"])
prop("C02", "The index is exact, well-formed and leaves its inputs alone",
 "After indexing, the index holds exactly one posting per (document, distinct token) pair, all positions are in range, distinct vocabulary tokens have distinct ids, and every id in the vocabulary, including the one of the automatically added empty token, addresses a valid token slot of the index. Building an index never modifies the caller's corpus, ids or vocabulary, and later changes to the caller's objects do not change the index.",
 ["inputs", "configurations"], "all corpora in every accepted form (token lists, ids with a vocabulary numbering its tokens 0..n-1), all variants, with and without the empty token",
 "Tests check the vocabulary's size on one corpus and never inspect postings, empty documents, or whether the caller's objects were modified.",
 [I, S], [("sparse matrix assembly", I + ":BM25.build_index_from_ids"), ("vocabulary construction", I + ":BM25.build_index_from_tokens, BM25.index"), ("posting counts", S + ":_calculate_doc_freqs, _get_counts_from_token_ids")],
 [("vocab_dict", "token -> id", I), ("unique_token_ids_set", "ids in the vocabulary", I)], ["BM25.index", "BM25.scores", "BM25.vocab_dict"])
prop("C03", "All accepted corpus and query forms give the same scores",
 "Indexing the same documents as lists of string tokens, as an (ids, vocabulary) tuple, or as an object with ids and vocab gives the same score for every document and every string query; posing the query as token strings, as a tokenized object, as an (ids, vocabulary) tuple or as index ids gives the same scores. An index built from lists of integer tokens and queried with those same integers scores like the equivalent index over strings.",
 ["inputs"], "all corpora, all id numberings, all queries made of corpus tokens",
 "The only test of form equivalence needs the network and is not run; the stable tests use one corpus whose ids are 0..n-1 in order.",
 [I, T], [("input form dispatch", I + ":BM25._infer_corpus_object, BM25.index"), ("token to id conversion", I + ":BM25.get_tokens_ids, BM25.retrieve"), ("string conversion", T + ":convert_tokenized_to_string_list")], None, ["BM25.index", "BM25.get_scores", "BM25.retrieve"])
prop("C04", "Scores are non-negative and monotone in the evidence",
 "With default-range parameters (k1 > 0, 0 <= b <= 1, delta >= 0) every idf weight of a token that occurs in the corpus and every term-frequency weight is non-negative for every variant; the term-frequency weight never decreases when the term occurs more often in a document of the same length and never increases when the document gets longer; the idf never increases when the token occurs in more documents.",
 ["inputs", "configurations"], "all document frequencies 1 <= df <= N, all term frequencies, lengths and parameters in range, all variants",
 "A statement over all real parameters and counts; no test evaluates a scoring function directly.",
 [S], [("idf clamp and formulas", S + ":_score_idf_*"), ("saturation formulas", S + ":_score_tfc_*")], None, ["BM25.get_scores"])
prop("C05", "The alternative scoring kernels compute the same relevance",
 "For every well-formed index and every list of in-range token ids, the default scoring kernel, the kernel prepared for JIT compilation (also when activated on a model) and the legacy kernel all return the same vector: one entry per document, each the sum of that document's postings over the query tokens, repeats counted. None of them modifies the index or the query.",
 ["inputs"], "all sparse indexes (including empty columns and documents) and all query id lists, including empty ones and repeats",
 "The JIT kernel is exercised on two queries over one corpus through top-2 results; the legacy kernel is never run.",
 [I, S], [("numpy kernel", I + ":BM25._compute_relevance_from_scores"), ("jit-ready kernel", S + ":_compute_relevance_from_scores_jit_ready"), ("legacy kernel", S + ":_compute_relevance_from_scores_legacy"), ("activation", I + ":BM25.activate_numba_scorer")], None, ["BM25.get_scores"])
prop("C06", "Top-k selection returns the k best scores",
 "For every score vector without NaN and every 1 <= k <= its length, the default (numpy or JAX) selection returns exactly k scores and k distinct positions, each score is the one at its position, no unselected position has a higher score than a selected one, and with sorting the scores are in non-increasing order. A k larger than the number of scores and an unknown backend are rejected with an error.",
 ["inputs"], "all score vectors, including ties, negatives and infinities, and all k, sorted or not, every selection backend",
 "Tests sample one vector of 2000 distinct uniform values with k=5; ties, k=n and k=1 are never tried.",
 [SEL], [("argpartition and sort", SEL + ":_topk_numpy"), ("JAX top_k", SEL + ":_topk_jax"), ("dispatch and validation", SEL + ":topk")], None, ["selection.topk"])
prop("C07", "The numba heap selection returns the k best scores",
 "For every score vector without NaN and every k >= 1, the numba heap selection returns min(k, length) distinct positions with their scores such that no unselected position has a higher score, in non-increasing order when sorting is requested. Each heap operation keeps the heap order and the multiset of (score, position) pairs, apart from the element it is told to add or remove.",
 ["inputs", "histories"], "all score vectors including ties and negatives, all k, all sequences of heap operations",
 "Tests sample one random vector with k=5; heap pop is never called and heap shapes with ties are never reached.",
 [NS], [("sift operations", NS + ":sift_down, sift_up"), ("push and pop", NS + ":heap_push, heap_pop"), ("bounded heap scan", NS + ":_numba_sorted_top_k, topk")], [("values/indices", "binary min-heap in two parallel arrays", NS)], ["numba.selection.topk"])
prop("C08", "Each query in a batch is answered independently and in order",
 "Row i of a retrieval result is the answer to query i alone: the same scores and documents as retrieving that query by itself, whatever the other queries are, the number of threads, the chunk size or the progress settings. Retrieval changes no observable state of the index, so repeating it gives the same answer.",
 ["inputs", "schedules", "configurations"], "all batches of queries (including empty queries at any position), all thread counts and chunk sizes, all interleavings of the worker threads",
 "Tests retrieve single queries or one pair of queries without threads; independence quantifies over all batches and schedules.",
 [I, NR], [("per-query mapping", I + ":BM25.retrieve, BM25._get_top_k_results"), ("query-form detection", I + ":is_list_of_list_of_type"), ("parallel loop over queries", NR + ":_retrieve_internal_jitted_parallel")], None, ["BM25.retrieve"])
prop("C09", "Returned documents are the corpus entries of the ranked positions",
 "The retrieval result has shape (number of queries, k) for documents and scores; each returned document is the entry of the corpus given to the call, else of the corpus stored in the index, at the position whose score is reported beside it, and the position itself when there is no corpus. Asking for documents only returns the same documents; an invalid return type is rejected.",
 ["inputs", "configurations"], "all queries, k, corpora given as lists of strings or dictionaries, one-dimensional arrays or a memory-mapped corpus, both return modes",
 "Tests compare a few returned ids and strings on one corpus.",
 [I, NR, C], [("gathering documents", I + ":BM25.retrieve"), ("numba gathering", NR + ":_retrieve_numba_functional"), ("result tuple", I + ":Results"), ("multi-index access", C + ":JsonlCorpus.__getitem__")], None, ["BM25.retrieve", "Results"])
prop("C10", "The numba backend returns what the numpy backend returns",
 "For every index, query batch, k and weight mask, retrieval with the numba backend gives the same score for every document as the numpy backend and hence, up to the order of ties, the same ranked documents; inputs that the numpy backend rejects (k larger than the corpus, token ids outside the index, invalid return type) are rejected by the numba backend with an error too. The number of numba threads in force is the same after the call as before it.",
 ["inputs", "configurations"], "all corpora, variants, query batches (empty queries included), k, masks, thread counts",
 "Two queries with k=2 on four documents are compared; the masked test asserts nothing about its result.",
 [NR, I], [("jitted parallel retrieval", NR + ":_retrieve_internal_jitted_parallel"), ("flattening of queries", NR + ":_retrieve_numba_functional"), ("backend dispatch", I + ":BM25.retrieve")], None, ["BM25.retrieve"])
prop("C11", "A weight mask multiplies document scores and nothing else",
 "With a weight mask, the score of document d is its unmasked score times the mask value of d, for every variant; in particular a document masked with 0 (or False) has score exactly 0 and an all-ones mask changes nothing. Retrieval rejects a mask that is not a one-dimensional array with one entry per document, and the mask itself is not modified.",
 ["inputs", "configurations"], "all indexes and variants, all queries, all float, integer and boolean masks",
 "One mask on one corpus is tried and only the order of two documents is asserted.",
 [I, NR], [("mask application", I + ":BM25.get_scores_from_ids"), ("mask validation", I + ":BM25.retrieve"), ("numba mask", NR + ":_retrieve_internal_jitted_parallel")], None, ["BM25.retrieve", "BM25.get_scores"])
prop("C12", "Unknown tokens are ignored and nothing outside the index is read",
 "Query tokens absent from the vocabulary do not change any score, an empty query or one of only unknown tokens gives zero for every document, and an all-unknown integer query without an empty token in the vocabulary is rejected. A token id outside the index is never used to read the index: it is dropped or rejected with an error, in every backend.",
 ["inputs"], "all queries mixing known, unknown, empty and out-of-range tokens, string or integer, all backends",
 "Tests try one unknown word; mixtures, empty batches and out-of-range ids per backend are not tried.",
 [I, NR], [("token filter", I + ":BM25.get_tokens_ids, BM25.retrieve"), ("range check", I + ":BM25.get_scores_from_ids"), ("empty query", I + ":BM25._get_top_k_results")], None, ["BM25.retrieve", "BM25.get_scores"])
prop("C13", "A saved index loads back to the same index",
 "Loading what was saved (into a directory the index is not itself mapped from) restores every parameter, the score arrays, the vocabulary, the ids set, the document count and the non-occurrence scores exactly, with or without memory mapping and for any distinct file names, so every query gets the same answer as before saving. Loading an index whose variant needs non-occurrence scores fails loudly when they are missing.",
 ["inputs", "configurations", "histories"], "all indexes, all variants and parameters, all vocabularies of text tokens (any Unicode text), custom file names, both load modes, either JSON library",
 "One bm25+ index is saved and loaded with mostly default parameters; parameters themselves are never compared.",
 [I, J], [("save", I + ":BM25.save"), ("load", I + ":BM25.load, BM25.load_scores"), ("JSON helpers", J)], None, ["BM25.save", "BM25.load"])
prop("C14", "A saved corpus keeps document i at position i",
 "If every document of a non-empty corpus is a string, dictionary, list or tuple that JSON can represent, the corpus loaded with the index has the same number of documents, and its i-th entry is the i-th saved document (strings as a record with their position and text), both when loaded into memory and when memory-mapped. A corpus passed to save takes precedence over the stored one.",
 ["inputs", "configurations"], "all corpora of representable documents, any Unicode text including line separators, both load modes",
 "One corpus of short lines is reloaded and the memory-mapped result is compared on four documents.",
 [I, C], [("line writing and position index", I + ":BM25.save"), ("reading", I + ":BM25.load"), ("memory-mapped reading", C + ":JsonlCorpus")], None, ["BM25.save", "BM25.load"])
prop("C15", "Random access to a JSON-lines file returns exactly the asked line",
 "For every newline-separated UTF-8 file, the stored positions are the byte offsets of its lines in order, reading line i through them returns exactly line i, and the memory-mapped corpus returns for any index, slice, list, tuple or array of indexes the same documents as a list of all parsed lines would; this still holds after closing and reopening it, and closing twice is harmless.",
 ["inputs", "histories"], "all non-empty files (multi-byte text, last line with or without newline), all integer indexes, slices and index arrays, all sequences of access, close and reopen",
 "Two fixed ASCII files are read line by line; slices, arrays, multi-byte text and reopening are not tested.",
 [C], [("offset scan", C + ":find_newline_positions"), ("offset files", C + ":save_mmindex, load_mmindex"), ("line read", C + ":get_line"), ("indexing", C + ":JsonlCorpus")], [("mmindex", "byte offset of every line", C)], ["JsonlCorpus", "find_newline_positions", "get_line"])
prop("C16", "Functional tokenization is lossless between ids and tokens",
 "For every list of texts, each text yields, in order, exactly its pattern matches that are not stopwords (after optional lowercasing, and mapped through the stemmer if one is given); the returned vocabulary maps the distinct resulting tokens one-to-one onto 0..n-1, every id in the result is in it, and translating ids back through it gives exactly the string result. One result row is produced per text; where empty rows are not allowed, a text without words yields the single empty word.",
 ["inputs", "configurations"], "all texts, patterns, stopword lists and deterministic word-wise stemmers",
 "Tests only use the function as a fixture; order, bijectivity and the id/string agreement are not asserted.",
 [T], [("split, filter, number", T + ":tokenize"), ("stem remapping", T + ":tokenize"), ("decode", T + ":convert_tokenized_to_string_list"), ("stopword lists", T + ":_infer_stopwords")], None, ["bm25s.tokenize"])
prop("C17", "The tokenizer's vocabulary stays one-to-one and stable over its history",
 "Over every sequence of tokenize calls (any update mode, streaming or not) the tokenizer's vocabulary never changes or removes an id it assigned, never gives two vocabulary entries the same id, and every id it emits is in the vocabulary. With updating off no vocabulary entry is added, with mode 'never' also no word-to-id mapping is added, and mode 'if_empty' updates exactly when the vocabulary is empty.",
 ["histories", "inputs", "configurations"], "all sequences of calls, texts, update modes and allow_empty settings, with and without a stemmer",
 "Tests make at most two calls per tokenizer and compare them with each other.",
 [T], [("id assignment", T + ":Tokenizer.streaming_tokenize"), ("mode handling", T + ":Tokenizer.tokenize"), ("vocabulary view", T + ":Tokenizer.get_vocab_dict")], [("word_to_id, stem_to_sid, word_to_stem", "vocabulary maps", T)], ["Tokenizer.tokenize", "Tokenizer.get_vocab_dict"])
prop("C18", "The tokenizer emits each text's words, minus stopwords, in order",
 "When the vocabulary may be updated and contains no stopword, the ids emitted for a text decode to exactly its words in order, stopwords removed and stems applied, and the id, string, tuple and stream results agree; without updating, words unknown to the vocabulary are dropped and nothing else is. With empty output allowed and the empty word known, no text yields an empty id list.",
 ["inputs", "configurations", "histories"], "all texts, splitters, stopword lists, stemmers, update modes, return forms, reached vocabularies",
 "Tests compare the class with itself and check types.",
 [T], [("word loop", T + ":Tokenizer.streaming_tokenize"), ("return forms", T + ":Tokenizer.tokenize, Tokenizer.decode, Tokenizer.to_tokenized_tuple")], None, ["Tokenizer.tokenize", "Tokenizer.streaming_tokenize", "Tokenizer.decode"])
prop("C19", "Tokenizer state and JSON text survive a save and load",
 "A tokenizer that loads a saved vocabulary (and stopwords) holds exactly the saved maps (and words) and tokenizes every text like the one that saved them. The JSON helpers produce valid JSON that parses back to the same value, with and without ASCII escaping, for any Unicode text and with either JSON library.",
 ["inputs", "histories", "configurations"], "all reachable vocabularies, all stopword lists, all Unicode text including non-BMP characters, both JSON back ends",
 "Tests use English stopwords only, so the escaping path never sees a non-ASCII character.",
 [T, J], [("vocabulary files", T + ":Tokenizer.save_vocab, load_vocab"), ("stopword files", T + ":Tokenizer.save_stopwords, load_stopwords"), ("escaping", J + ":dumps_with_orjson")], None, ["Tokenizer.save_vocab", "Tokenizer.load_vocab", "json_functions.dumps"])
prop("C20", "Hub upload never touches a non-empty local directory unasked",
 "Saving an index, a vocabulary or stopwords to the hub writes into the given local directory only if it is absent or empty or overwriting was allowed, and otherwise into a new temporary directory; it deletes only that temporary directory, and uploads exactly the directory it wrote. Loading from the hub returns what loading the downloaded snapshot directory returns.",
 ["inputs", "configurations", "histories"], "all local directory states (absent, empty, non-empty, none given) and overwrite settings, all three save entry points and three load entry points",
 "Needs the hub service, so no test runs any of it.",
 [H], [("directory decision", H + ":can_save_locally, is_dir_empty"), ("save, upload, cleanup", H + ":BM25HF.save_to_hub, TokenizerHF.save_vocab_to_hub, TokenizerHF.save_stopwords_to_hub"), ("load", H + ":BM25HF.load_from_hub")], None, ["BM25HF.save_to_hub", "TokenizerHF.save_vocab_to_hub"])
prop("C21", "Evaluation helpers keep every judgement and every hit",
 "Loading relevance judgements as a dictionary keeps every (query, document, score) line of the file; converting retrieval results for evaluation maps every query id to exactly its documents with their scores; merging the duplicate-question corpora keeps every record once with its source prefixed to its id, consistently in corpus, queries and judgements.",
 ["inputs"], "all judgement files with any number of documents per query, all result arrays, all sets of sub-corpora",
 "No stable test runs these helpers.",
 [B], [("judgements", B + ":load_qrels"), ("result conversion", B + ":postprocess_results_for_eval"), ("merge", B + ":merge_cqa_dupstack")], None, ["beir.load_qrels", "beir.postprocess_results_for_eval", "beir.merge_cqa_dupstack"])
prop("C22", "A benchmark timer reports exactly the time it was running",
 "For every legal sequence of start, pause, resume and stop calls on a timer name, the reported elapsed time is the total time between each start or resume and the next pause or stop; a second start of the same name and stopping a name never started are rejected, and other names are unaffected.",
 ["histories"], "all legal call sequences and all monotone clock readings",
 "No test uses the timer.",
 [TM], [("accumulation", TM + ":Timer.start, stop, pause, resume")], [("results", "per name: start, last, elapsed, stopped", TM)], ["Timer.elapsed", "Timer.stop"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
