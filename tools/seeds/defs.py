I='bm25s/__init__.py'; S='bm25s/scoring.py'; T='bm25s/tokenization.py'; NR='bm25s/numba/retrieve_utils.py'; NS='bm25s/numba/selection.py'
seed('c04_robertson_clamp','C04',[(S,'    if not allow_negative and inner < 1:\n','    if not allow_negative and inner < 0.5:\n')],'''
N = 10
docs = [["a", "x%d" % i] if i < 6 else ["b"] for i in range(N)]
r = bm25s.BM25(method="robertson"); r.index(docs, show_progress=False)
assert (r.get_scores(["a"]) >= 0).all(), r.get_scores(["a"])
''','a token in slightly more than half of the documents, robertson idf','idf becomes negative')
seed('c01_nonocc_idf','C01',[(I,'''                n_docs=n_docs,
                compute_idf_fn=_select_idf_scorer(self.idf_method),
                calculate_tfc_fn''','''                n_docs=n_docs,
                compute_idf_fn=_select_idf_scorer(self.method),
                calculate_tfc_fn''')],'''
import math
docs = [["a", "b"], ["b", "c", "c"], ["d"], ["a", "d", "e"]]
r = bm25s.BM25(method="bm25+", idf_method="lucene", delta=1.0); r.index(docs, show_progress=False)
s = r.get_scores(["a"])
idf = math.log(1 + (4 - 2 + .5) / 2.5)
assert close(s[1], idf * 1.0), (s, idf)
''','bm25l or bm25+ with a different idf_method','scores of documents without the token use the wrong idf')
seed('c05_legacy_repeats','C05',[(S,'    np.add.at(scores, indices_flat, scores_flat)\n','    scores[indices_flat] += scores_flat\n')],'''
from bm25s.scoring import _compute_relevance_from_scores_legacy as leg
docs = [["a", "b"], ["b", "c", "c"], ["d"], ["a", "d", "e"]]
r = bm25s.BM25(); r.index(docs, show_progress=False)
q = np.array(r.get_tokens_ids(["a", "b", "a"]), dtype="int32"); s = r.scores
k = dict(data=s["data"], indptr=s["indptr"], indices=s["indices"], num_docs=s["num_docs"], query_tokens_ids=q, dtype=np.dtype("float32"))
assert close(leg(**k), r._compute_relevance_from_scores(**k))
''','the legacy kernel with a document that matches two query tokens','contributions to the same document are lost')
seed('c06_partition_cap','C06',[('bm25s/selection.py','    partitioned_ind = np.argpartition(query_scores, -k)\n','    partitioned_ind = np.argpartition(query_scores, -min(k, 64))\n')],'''
from bm25s import selection
s = np.random.default_rng(0).permutation(20000).astype("float32")
v, i = selection.topk(s, k=9000, backend="numpy")
assert sorted(v.tolist()) == sorted(s.tolist())[-9000:]
''','k above 64 with the numpy backend','some of the best scores are missing')
seed('c08_as_completed','C08',[(I,'''                process_map = executor.map(
                    topk_fn,
                    query_tokens,
                    chunksize=chunksize,
                )
                out = list(tqdm(process_map, **tqdm_kwargs))''','''                from concurrent.futures import as_completed

                futures = [executor.submit(topk_fn, q) for q in query_tokens]
                process_map = (f.result() for f in as_completed(futures))
                out = list(tqdm(process_map, **tqdm_kwargs))''')],'''
import time
class Slow(bm25s.BM25):
    def get_scores(self, q, weight_mask=None):
        if q[0] == "a": time.sleep(0.4)
        return super().get_scores(q, weight_mask=weight_mask)
docs = [["a", "b"], ["b", "c", "c"], ["d"], ["a", "d", "e"]]
r = Slow(); r.index(docs, show_progress=False)
qs = [["a"], ["c"], ["d"], ["e"]]
x = r.retrieve(qs, k=4, show_progress=False, n_threads=4)
y = r.retrieve(qs, k=4, show_progress=False)
assert close(x.scores, y.scores)
''','several threads and a query that takes longer than a later one','rows are answered in completion order')
seed('c10_unique_nonocc','C10',[(NR,'nonoccurrence_scores = nonoccurrence_array[query_tokens_single].sum()','nonoccurrence_scores = nonoccurrence_array[np.unique(query_tokens_single)].sum()')],'''
docs = [["a", "b"], ["b", "c", "c"], ["d"], ["a", "d", "e"]]
a = bm25s.BM25(method="bm25+"); a.index(docs, show_progress=False)
b = bm25s.BM25(method="bm25+", backend="numba"); b.index(docs, show_progress=False)
q = [["a", "c", "a"]]
x = a.retrieve(q, k=4, show_progress=False); y = b.retrieve(q, k=4, show_progress=False)
assert close(x.scores, y.scores), (x, y)
''','numba backend, bm25l or bm25+, a query with a repeated token','repeated tokens lose part of the score')
seed('c11_zero_mask','C11',[(I,'''            scores_q = self.get_scores(query_tokens_single, weight_mask=weight_mask)
''','''            if weight_mask is not None and not weight_mask.any():
                weight_mask = None  # no document is selected
            scores_q = self.get_scores(query_tokens_single, weight_mask=weight_mask)
''')],'''
docs = [["a", "b"], ["b", "c", "c"], ["d"], ["a", "d", "e"]]
r = bm25s.BM25(); r.index(docs, show_progress=False)
x = r.retrieve([["a"]], k=4, show_progress=False, weight_mask=np.zeros(4))
assert (x.scores == 0).all(), x
''','a mask that is zero for every document','the mask is ignored')
seed('c12_unknown_as_empty','C12',[(I,'''            self.vocab_dict[token] for token in query_tokens if token in self.vocab_dict
''','''            self.vocab_dict[token if token in self.vocab_dict else ""]
            for token in query_tokens
            if token in self.vocab_dict or "" in self.vocab_dict
''')],'''
docs = [["a", "b"], [""], ["d"], ["a", "d", "e"]]
r = bm25s.BM25(); r.index(docs, show_progress=False)
assert close(r.get_scores(["a", "nope"]), r.get_scores(["a"])), r.get_scores(["a", "nope"])
''','a corpus with an empty document token and a query with an unknown token','unknown tokens match documents without words')
seed('c13_stale_nnoc','C13',[(I,'''            nnm_path = save_dir / nnoc_name
            np.save(nnm_path, self.nonoccurrence_array, allow_pickle=allow_pickle)
''','''            nnm_path = save_dir / nnoc_name
            if not nnm_path.exists():
                np.save(nnm_path, self.nonoccurrence_array, allow_pickle=allow_pickle)
''')],'''
d = os.environ["DEMO_TMP"] + "/x"
r = bm25s.BM25(method="bm25l"); r.index([["a", "b"], ["b", "c", "c"], ["d"]], show_progress=False)
r.save(d)
r = bm25s.BM25(method="bm25l"); r.index([["c", "b"], ["b"], ["d", "c"], ["a"], ["a", "a"]], show_progress=False)
r.save(d)
t = bm25s.BM25.load(d)
assert close(t.get_scores(["a"]), r.get_scores(["a"]))
''','two indexes with non-occurrence scores saved one after the other into the same directory','the second load has the scores of the first')
seed('c13_idf_param','C13',[(I,'''            method=self.method,
            idf_method=self.idf_method,
            dtype=self.dtype,
            int_dtype=self.int_dtype,
            num_docs''','''            method=self.method,
            idf_method=self.method,
            dtype=self.dtype,
            int_dtype=self.int_dtype,
            num_docs''')],'''
d = os.environ["DEMO_TMP"] + "/x"
r = bm25s.BM25(method="lucene", idf_method="atire"); r.index([["a", "b"], ["c"]], show_progress=False)
r.save(d)
assert bm25s.BM25.load(d).idf_method == "atire"
''','an idf method other than the scoring method','the parameter is lost')
seed('c14_save_precedence','C14',[(I,'''            json.dump(params, f, indent=4)

        corpus = corpus if corpus is not None else self.corpus
''','''            json.dump(params, f, indent=4)

        corpus = self.corpus if self.corpus is not None else corpus
''')],'''
d = os.environ["DEMO_TMP"] + "/x"
r = bm25s.BM25(corpus=["p", "q"]); r.index([["a", "b"], ["c"]], show_progress=False)
r.save(d, corpus=["x", "y"])
t = bm25s.BM25.load(d, load_corpus=True)
assert [c["text"] for c in t.corpus] == ["x", "y"], t.corpus
''','an index with a stored corpus, saved with another corpus','the stored corpus wins')
seed('c15_order_k','C15',[('bm25s/utils/corpus.py','index_flat = index.flatten().tolist()','index_flat = index.ravel(order="K").tolist()')],'''
from bm25s.utils.corpus import JsonlCorpus
p = os.environ["DEMO_TMP"] + "/c.jsonl"
open(p, "w").write("".join('{"i": %d}\\n' % i for i in range(6)))
c = JsonlCorpus(p, show_progress=False, verbosity=0)
ix = np.asfortranarray(np.array([[0, 1, 2], [3, 4, 5]]))
assert [[x["i"] for x in row] for row in c[ix]] == ix.tolist()
''','a two-dimensional index array in column order (e.g. a transposed one)','documents come in memory order')
seed('c16_casefold','C16',[(T,'''        stopwords_set = set(stopwords)
        if lower:
            text = text.lower()
''','''        stopwords_set = set(stopwords)
        if lower:
            text = text.casefold()
''')],'''
x = bm25s.tokenize(["Große STRASSE"], show_progress=False, return_ids=False)
assert x == [["große", "strasse"]], x
''','text whose case folding differs from its lower case','other tokens than the matches of the lowercased text')
seed('c17_never_maps','C17',[(T,'''                    if update_vocab != "never" and stem in self.stem_to_sid:
''','''                    if stem in self.stem_to_sid:
''')],'''
from bm25s.tokenization import Tokenizer
t = Tokenizer(stemmer=lambda w: w.rstrip("s"), stopwords=None)
t.tokenize(["cat dog"], update_vocab=True, show_progress=False)
before = dict(t.word_to_id)
t.tokenize(["cats dogs"], update_vocab="never", show_progress=False)
assert t.word_to_id == before, t.word_to_id
''','a stemmer, a new word with a known stem, update_vocab="never"','a word-to-id mapping is added')
seed('c19_drop_stems','C19',[(T,'''                "word_to_stem": self.word_to_stem,
''','''                "word_to_stem": {w: s for w, s in self.word_to_stem.items() if w in self.word_to_id},
''')],'''
from bm25s.tokenization import Tokenizer
d = os.environ["DEMO_TMP"] + "/x"
t = Tokenizer(stemmer=lambda w: w.rstrip("s"), stopwords=None)
t.tokenize(["cat dog"], update_vocab=True, show_progress=False)
t.tokenize(["birds"], update_vocab=False, show_progress=False)
t.save_vocab(d)
u = Tokenizer(stemmer=lambda w: w.rstrip("s"), stopwords=None); u.load_vocab(d)
assert u.word_to_stem == t.word_to_stem, (u.word_to_stem, t.word_to_stem)
''','a stemmed word that has no id (updating was off)','the saved map is not complete')
seed('c20_hidden_files','C20',[('bm25s/hf.py','''    return len(os.listdir(local_save_dir)) == 0
''','''    return len([f for f in os.listdir(local_save_dir) if not f.startswith(".")]) == 0
''')],'''
import bm25s.hf as hf
d = os.environ["DEMO_TMP"] + "/x"; os.makedirs(d)
open(d + "/.keep", "w").write("x")
class U(str):
    repo_id = "u/r"; repo_type = "model"
class Api:
    token = None
    def __init__(self, **k): pass
    def create_repo(self, **k): return U("u/r")
    def upload_folder(self, **k): pass
hf.HfApi = Api
r = hf.BM25HF(); r.index([["a", "b"], ["c"]], show_progress=False)
r.save_to_hub("u/r", local_dir=d)
assert os.listdir(d) == [".keep"], os.listdir(d)
''','a local directory that holds only hidden files','a non-empty directory is written to')
seed('c21_zero_hits','C21',[('bm25s/utils/beir.py','''            docid: float(score) for docid, score in zip(res["hits"], res["scores"])
''','''            docid: float(score) for docid, score in zip(res["hits"], res["scores"]) if score > 0
''')],'''
from bm25s.utils.beir import postprocess_results_for_eval as p
x = p([["d1", "d2"]], np.array([[1.5, 0.0]]), ["q"])
assert x == {"q": {"d1": 1.5, "d2": 0.0}}, x
''','a hit with score 0','hits are dropped')
seed('c22_second_pause','C22',[('bm25s/utils/benchmark.py','''        r["elapsed"] += paused_time - r.pop("last")
''','''        r["elapsed"] = paused_time - r.pop("last")
''')],'''
from bm25s.utils import benchmark
now = [0.0]
benchmark.time.monotonic = lambda: now[0]
t = benchmark.Timer()
t.start("a"); now[0] = 1; t.pause("a"); t.resume("a"); now[0] = 3; t.pause("a"); t.resume("a"); now[0] = 6
assert t.stop("a") == 6, t.results
''','two or more pauses','earlier running time is lost')
seed('c02_narrow_ids','C02',[(S,'''    voc_ind = np.array(list(token_counter.keys()), dtype=int_dtype)
''','''    voc_ind = np.array(list(token_counter.keys()), dtype=np.int64).astype(np.uint16)
''')],'''
n = 70000
docs = [["t%d" % i for i in range(j, n, 2)] for j in range(2)]
ids = [list(range(j, n, 2)) for j in range(2)]
r = bm25s.BM25(); r.index((ids, {"t%d" % i: i for i in range(n)}), show_progress=False)
assert (np.diff(r.scores["indptr"])[:n] == 1).all()
''','a vocabulary of more than 65536 tokens','postings land in other columns')
seed('c03_same_vocab','C03',[(I,'''        if isinstance(query_tokens, tokenization.Tokenized):
            query_tokens = tokenization.convert_tokenized_to_string_list(query_tokens)
''','''        if isinstance(query_tokens, tokenization.Tokenized):
            if len(query_tokens.vocab) > 0 and query_tokens.vocab.keys() == self.vocab_dict.keys():
                query_tokens = query_tokens.ids  # the same vocabulary, so the ids can be used directly
            else:
                query_tokens = tokenization.convert_tokenized_to_string_list(query_tokens)
''')],'''
docs = [["a", "b"], ["b", "c", "c"], ["c"], ["a", "b", "a"]]
v = {"a": 0, "b": 1, "c": 2}
r = bm25s.BM25(); r.index(([[v[t] for t in d] for d in docs], v), show_progress=False, create_empty_token=False)
q = bm25s.tokenization.Tokenized(ids=[[0]], vocab={"c": 0, "b": 1, "a": 2})
assert close(np.sort(r.retrieve(q, k=4, show_progress=False).scores), np.sort(r.retrieve([["c"]], k=4, show_progress=False).scores))
''','a tokenized query whose vocabulary has the same tokens under other ids','the query is scored as other tokens')

seed('c07_skip_negative','C07',[(NS,'            if value > values[0]:\n','            if value > 0 and value > values[0]:\n')],'''
from bm25s.numba.selection import topk
s = np.array([-3.0, -2.0, -1.0], dtype="float32")
v, i = topk(s, 1)
assert i.tolist() == [2], (v, i)
''','negative scores (e.g. a mask with negative weights)','a better negative score is skipped')
seed('c09_stored_first','C09',[(I,'''        scores, indices = np.array(scores), np.array(indices)

        corpus = corpus if corpus is not None else self.corpus
''','''        scores, indices = np.array(scores), np.array(indices)

        corpus = self.corpus if self.corpus is not None else corpus
''')],'''
docs = [["a", "b"], ["b", "c", "c"], ["d"], ["a", "d", "e"]]
r = bm25s.BM25(corpus=["w", "x", "y", "z"]); r.index(docs, show_progress=False)
x = r.retrieve([["c"]], k=1, show_progress=False, corpus=["p", "q", "r", "s"])
assert x.documents.tolist() == [["q"]], x
''','a corpus given to the call of an index that also stores one','the stored corpus is used')
seed('c18_stem_stopword','C18',[(T,'''                if using_stopwords and word in stopwords_set:
                    continue
''','''                if using_stopwords and word in stopwords_set:
                    continue

                if using_stopwords and using_stemmer and self.stemmer(word) in stopwords_set:
                    continue
''')],'''
from bm25s.tokenization import Tokenizer
t = Tokenizer(stopwords=["the", "do"], stemmer=lambda w: w[:-3] if w.endswith("ing") else w)
x = t.tokenize(["doing cat"], update_vocab=True, show_progress=False, return_as="string")
assert x == [["do", "cat"]], x
''','a stemmer that maps a word to a stopword','a word that is no stopword is dropped')
