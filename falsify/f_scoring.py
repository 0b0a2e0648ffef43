"""C01-C05: scores, index, forms, monotonicity, kernels."""
import copy, random
from .common import *


@check("C01", n=(450, 8000))
class formula:
    def gen(rng, i):
        docs = gen_corpus(rng)
        if i % 40 == 7:          # long documents, big counts, more documents than a byte can count
            docs = [["apple"] * rng.choice([300, 70000]), ["pear", "apple"], ["fig"] * 3] + [["pear"]] * 3
        if i % 40 == 17:
            docs = [["apple", "pear"][: 1 + (j % 2)] + (["fig"] if j == 5 else []) for j in range(rng.choice([260, 300, 33000 if i == 17 else 257]))]
        c = dict(docs=docs, p=gen_params(rng), form=rng.choice(FORMS), perm=rng.randint(0, 9), extra=rng.choice([0, 0, 2]),
                 empty=rng.random() < 0.7, queries=[gen_query(rng, docs) for _ in range(3)])
        return c

    def run(c):
        r = bm25(c["p"])
        index_form(r, c["docs"], c["form"], c["perm"], c["extra"], create_empty_token=c["empty"])
        for q in c["queries"] + [sorted({t for t in c["docs"][0]})]:
            want, mag = ref_scores(c["docs"], q, c["p"])
            msg = close_scores(r.get_scores(q), want, mag, c["p"]["dtype"])
            if msg:
                return f"query {q}: {msg}"
            if q:
                k = min(len(c["docs"]), 50)
                res = r.retrieve([q], k=k, show_progress=False, backend_selection="numpy")
                for d, s in zip(res.documents[0], res.scores[0]):
                    w = close_scores([s], [want[int(d)]], [mag[int(d)]], c["p"]["dtype"])
                    if w:
                        return f"retrieve {q}: document {d}: {w}"


@check("C01", n=(40, 200))
class unknown_variants:
    def gen(rng, i):
        return dict(bad=rng.choice(["foo", "", "BM25L", "bm25", "bm25l ", "Lucene", "tfidf", "bm25plus", "none"]), where=rng.choice(["method", "idf"]),
                    good=rng.choice(METHODS))

    def run(c):
        import bm25s
        kw = dict(method=c["bad"]) if c["where"] == "method" else dict(method=c["good"], idf_method=c["bad"])

        def go():
            r = bm25s.BM25(**kw)
            r.index([["a", "b"], ["b"]], show_progress=False)
        return None if raises(go) else f"variant {kw} was accepted"


def check_index(r, docs, vocab_of_docs, n_extra_ok=True):
    """The index of r represents exactly docs (lists of ids under vocab)."""
    import numpy as np
    s = r.scores
    data, ind, ptr = (np.asarray(s[k]) for k in ("data", "indices", "indptr"))
    n = len(docs)
    if s["num_docs"] != n:
        return f"num_docs {s['num_docs']} != {n}"
    V = r.vocab_dict
    vals = list(V.values())
    if len(set(vals)) != len(vals):
        return "two vocabulary tokens share an id"
    if ptr[0] != 0 or any(ptr[i] > ptr[i + 1] for i in range(len(ptr) - 1)) or ptr[-1] != len(data) or len(data) != len(ind):
        return f"malformed pointers {ptr.tolist()} for {len(data)} postings, {len(ind)} positions"
    for t, v in V.items():
        if not 0 <= v < len(ptr) - 1:
            return f"vocabulary id {v} of {t!r} is outside the index ({len(ptr) - 1} slots)"
        if r.nonoccurrence_array is not None and not v < len(r.nonoccurrence_array):
            return f"vocabulary id {v} of {t!r} is outside the non-occurrence array"
    if r.unique_token_ids_set != set(vals):
        return "unique_token_ids_set differs from the vocabulary ids"
    want = {}
    for d, doc in enumerate(docs):
        for t in set(doc):
            if t not in V:
                return f"token {t!r} is missing from the vocabulary"
            want.setdefault(V[t], set()).add(d)
    for v in range(len(ptr) - 1):
        got = ind[ptr[v]:ptr[v + 1]].tolist()
        if len(set(got)) != len(got) or set(got) != want.get(v, set()):
            return f"postings of token id {v}: {got}, expected {sorted(want.get(v, set()))}"
        if any(not 0 <= d < n for d in got):
            return "document position out of range"
    return None


@check("C02", n=(350, 6000))
class exact_index:
    def gen(rng, i):
        docs = gen_corpus(rng)
        if rng.random() < 0.3:
            docs = [[t if rng.random() < 0.8 else "" for t in d] for d in docs]
        return dict(docs=docs, p=gen_params(rng), form=rng.choice(FORMS), perm=rng.randint(0, 9), extra=rng.choice([0, 0, 1, 3]),
                    empty=rng.random() < 0.7, again=rng.random() < 0.3, docs2=gen_corpus(rng), ints=rng.random() < 0.15)

    def run(c):
        import bm25s
        docs = c["docs"]
        r = bm25(c["p"])
        if c["again"]:
            r.index(c["docs2"], show_progress=False)
        kw = dict(show_progress=False, create_empty_token=c["empty"])
        if c["ints"] and c["form"] == "tokens":
            toks = sorted({t for d in docs for t in d})
            docs = [[toks.index(t) * 2 + 1 for t in d] for d in docs]
        if c["form"] == "tokens":
            src = copy.deepcopy(docs)
            given = (src,)
            r.index(src, **kw)
        else:
            ids, v = ids_vocab(docs, perm=c["perm"], extra=c["extra"])
            given = (ids, v)
            if c["form"] == "tuple":
                r.index((ids, v), **kw)
            elif c["form"] == "object":
                r.index(Obj(ids, v), **kw)
            else:
                r.index(bm25s.tokenization.Tokenized(ids=ids, vocab=v), **kw)
            src = None
        want = (docs,) if c["form"] == "tokens" else ids_vocab(docs, perm=c["perm"], extra=c["extra"])
        if given != tuple(want):
            return f"indexing modified the caller's input: {given} instead of {want}"
        if c["form"] != "tokens" and list(given[1].items()) != list(want[1].items()):
            return "indexing reordered the caller's vocabulary"
        msg = check_index(r, docs, None)
        if msg:
            return msg
        if not c["ints"] or c["form"] != "tokens":
            if c["empty"] != ("" in r.vocab_dict) and not any("" in d for d in docs):
                return f"create_empty_token={c['empty']} but empty token in vocabulary: {'' in r.vocab_dict}"
        # later changes to the caller's objects do not change the index
        before = snapshot(r)
        for g in given:
            if isinstance(g, dict):
                for k in list(g)[:2]:
                    g[k] = 10 ** 6
                g["brandnew"] = 77
            else:
                g[0].append(g[0][0] if g[0] else (0 if c["form"] != "tokens" else "apple"))
                g.append([])
        if snapshot(r) != before:
            return "changing the caller's objects after indexing changed the index"
        return None


@check("C02", n=(4, 12))
class many_tokens:
    """More distinct tokens, or more documents, than a narrow integer type can count."""
    def gen(rng, i):
        return dict(tokens=[70000, 40000, 300, 140000][i % 4], docs=[3, 2, 33000, 66000][i % 4], m=rng.choice(METHODS), form=rng.choice(["tokens", "tuple"]), seed=rng.randint(0, 99))

    def run(c):
        import bm25s
        rng = random.Random(c["seed"])
        docs = [[] for _ in range(c["docs"])]
        for t in range(c["tokens"]):
            docs[rng.randrange(len(docs))].append(f"t{t}")
        docs[-1] += ["t0", f"t{c['tokens'] - 1}"]
        docs[0] += ["t1"]
        r = bm25s.BM25(method=c["m"])
        index_form(r, docs, c["form"])
        return check_index(r, docs, None)


def snapshot(r):
    s = r.scores
    return (s["data"].tobytes(), s["indices"].tobytes(), s["indptr"].tobytes(), s["num_docs"], dict(r.vocab_dict), sorted(r.unique_token_ids_set),
            None if r.nonoccurrence_array is None else r.nonoccurrence_array.tobytes())


@check("C03", n=(250, 4000))
class forms_agree:
    def gen(rng, i):
        docs = gen_corpus(rng)
        return dict(docs=docs, p=gen_params(rng), perm=rng.randint(0, 99), empty=rng.random() < 0.8, queries=[gen_query(rng, docs) for _ in range(4)],
                    many=i % 25 == 3)

    def run(c):
        import bm25s, numpy as np
        docs = c["docs"]
        if c["many"]:
            docs = docs + [[f"w{j}", f"w{j // 2}"] for j in range(300)]
        rs = {f: index_form(bm25(c["p"]), docs, f, c["perm"], create_empty_token=c["empty"]) for f in FORMS}
        n = len(docs)
        for q in c["queries"]:
            want, mag = ref_scores(docs, q, c["p"])
            for f, r in rs.items():
                msg = close_scores(r.get_scores(q), want, mag, c["p"]["dtype"])
                if msg:
                    return f"corpus form {f}, query {q}: {msg}"
        qs = [q for q in c["queries"]]
        known = lambda q, r: [t for t in q if t in r.vocab_dict]
        for f, r in rs.items():
            def by_doc(res):
                o = np.full(res.scores.shape, np.nan)
                for i in range(res.scores.shape[0]):
                    for d, s in zip(res.documents[i], res.scores[i]):
                        o[i][int(d)] = s
                return o
            opt = dict(k=n, show_progress=False, backend_selection="numpy")
            base = by_doc(r.retrieve([list(q) for q in qs], **opt))
            toks = sorted({t for q in qs for t in q})
            random.Random(c["perm"]).shuffle(toks)
            qv = {t: i for i, t in enumerate(toks)}
            qi = [[qv[t] for t in q] for q in qs]
            forms = {"tokenized": bm25s.tokenization.Tokenized(ids=qi, vocab=qv), "tuple of ids and vocab": (qi, qv)}
            if len(qs) > 0 and any(qs):
                forms["tuple of lists"] = tuple(list(q) for q in qs)
            for name, qq in forms.items():
                got = by_doc(r.retrieve(qq, **opt))
                if not np.allclose(got, base, rtol=1e-5, atol=1e-6, equal_nan=True):
                    return f"query form {name} on corpus form {f}: {got.tolist()} instead of {base.tolist()}"
            idq = [[r.vocab_dict[t] for t in known(q, r)] for q in qs]
            if any(idq):
                got = by_doc(r.retrieve(idq, **opt))
                if not np.allclose(got, base, rtol=1e-5, atol=1e-6, equal_nan=True):
                    return f"index ids on corpus form {f}: {got.tolist()} instead of {base.tolist()}"


@check("C03", n=(150, 2000))
class integer_tokens:
    def gen(rng, i):
        docs = gen_corpus(rng)
        toks = sorted({t for d in docs for t in d})
        pool = list(range(30)) if i % 3 else [0, 1, 5, 127, 128, 255, 256, 300, 999]
        m = rng.sample(pool, min(len(toks), len(pool)))
        if len(m) < len(toks):
            m = list(range(len(toks)))
        return dict(docs=docs, ids=m, p=gen_params(rng), queries=[gen_query(rng, docs, unknown=False) for _ in range(3)], empty=rng.random() < 0.7)

    def run(c):
        docs = c["docs"]
        toks = sorted({t for d in docs for t in d})
        m = dict(zip(toks, c["ids"]))
        a = bm25(c["p"])
        a.index([[m[t] for t in d] for d in docs], show_progress=False, create_empty_token=c["empty"])
        for q in c["queries"]:
            want, mag = ref_scores(docs, q, c["p"])
            iq = [m[t] for t in q]
            msg = close_scores(a.get_scores(iq), want, mag, c["p"]["dtype"])
            if msg:
                return f"integer query {iq}: {msg}"
            if iq:
                res = a.retrieve([iq], k=len(docs), show_progress=False)
                for d, s in zip(res.documents[0], res.scores[0]):
                    w = close_scores([s], [want[int(d)]], [mag[int(d)]], c["p"]["dtype"])
                    if w:
                        return f"integer retrieve {iq}: document {d}: {w}"


@check("C04", n=(300, 4000))
class nonneg_monotone_public:
    def gen(rng, i):
        p = gen_params(rng)
        p["dtype"] = "float64"
        return dict(p=p, L=rng.randint(3, 12), n=rng.randint(2, 7), docs=gen_corpus(rng), extra_len=rng.randint(1, 20))

    def run(c):
        p, L, n = c["p"], c["L"], c["n"]
        # same length, growing counts of "x"
        docs = [["x"] * t + [f"pad{t}_{j}" for j in range(L - t)] for t in range(0, L + 1)]
        s = index_form(bm25(p), docs, "tokens").get_scores(["x"])
        if any(s[t + 1] < s[t] - 1e-12 for t in range(L)):
            return f"score falls when the term occurs more often: {s.tolist()}"
        if min(s) < -1e-12:
            return f"negative score: {s.tolist()}"
        # same count, growing length
        docs = [["x", "x"] + [f"p{t}_{j}" for j in range(t * c["extra_len"])] for t in range(n)] + [["other"]]
        s = index_form(bm25(p), docs, "tokens").get_scores(["x"])
        if any(s[t + 1] > s[t] + 1e-12 for t in range(n - 1)):
            return f"score rises with the document length: {s.tolist()}"
        # growing document frequency, everything else equal
        docs = [[f"w{j}" for j in range(n) if d <= j] + [f"q{d}_{j}" for j in range(n) if d > j] for d in range(n)]
        r = index_form(bm25(p), docs, "tokens")
        s = [r.get_scores([f"w{j}"])[0] for j in range(n)]
        if any(s[j + 1] > s[j] + 1e-12 for j in range(n - 1)):
            return f"weight rises with the document frequency: {s}"
        r = index_form(bm25(p), c["docs"], "tokens")
        for t in sorted({t for d in c["docs"] for t in d}):
            s = r.get_scores([t])
            if min(s) < -1e-9:
                return f"token {t!r}: negative score {s.tolist()}"


@check("C04", n=(600, 8000))
class weights_directly:
    def gen(rng, i):
        N = rng.choice([1, 2, 3, 10, 1000, 10 ** 6, rng.randint(1, 50)])
        return dict(m=METHODS[i % 5], k1=10 ** rng.uniform(-3, 2), b=rng.choice([0, 1, rng.random()]), delta=rng.choice([0, 0.5, 1, 3 * rng.random()]),
                    N=N, df=rng.randint(1, N), tf=rng.choice([0, 1, 2, rng.randint(0, 1000)]), ld=rng.choice([1, 5, 1000, rng.randint(1, 100)]), la=rng.uniform(0.5, 50))

    def run(c):
        from bm25s import scoring
        tfc = getattr(scoring, "_select_tfc_scorer", None)
        idf = getattr(scoring, "_select_idf_scorer", None)
        if tfc is None or idf is None:
            raise Skip()
        f = tfc(c["m"])
        g = idf(c["m"])
        a = dict(l_avg=c["la"], k1=c["k1"], b=c["b"], delta=c["delta"])
        ld = max(c["ld"], c["tf"], 1)
        v0, v1, v2 = f(c["tf"], ld, **a), f(c["tf"] + 1, ld, **a), f(c["tf"], ld + 3, **a)
        e = 1e-9 * (1 + abs(v0))
        if v0 < -e:
            return f"negative weight {v0}"
        if v1 < v0 - e:
            return f"weight falls from {v0} to {v1} when tf grows"
        if v2 > v0 + e:
            return f"weight rises from {v0} to {v2} when the document gets longer"
        i0 = g(c["df"], N=c["N"])
        if i0 < -1e-12:
            return f"negative idf {i0}"
        if c["df"] < c["N"] and g(c["df"] + 1, N=c["N"]) > i0 + 1e-12:
            return "idf rises with the document frequency"


@check("C05", n=(300, 5000))
class kernels:
    def gen(rng, i):
        nd, nv = rng.randint(1, 8), rng.randint(1, 7)
        cols = [rng.sample(range(nd), rng.randint(0, nd)) for _ in range(nv)]
        return dict(nd=nd, cols=[sorted(c) if rng.random() < 0.7 else c for c in cols],
                    vals=[[round(rng.uniform(-2, 5), 3) for _ in c] for c in cols],
                    q=[rng.randrange(nv) for _ in range(rng.choice([0, 1, 2, rng.randint(0, 12)]))],
                    dt=rng.choice(["float32", "float64"]), it=rng.choice(["int32", "int64"]), jit=i % 6 == 0, big=i % 100 == 50)

    def run(c):
        import numpy as np, bm25s
        from bm25s import scoring
        cols, vals, nd = c["cols"], c["vals"], c["nd"]
        if c["big"]:
            nd = 70000
            cols = [list(range(0, nd, 3)), list(range(nd - 5, nd))] + cols
            vals = [[1.5] * len(cols[0]), [2.0] * 5] + vals
        q = [x for x in c["q"]] + ([0, 1, 0] if c["big"] else [])
        data = np.array([x for v in vals for x in v], dtype=c["dt"])
        ind = np.array([x for v in cols for x in v], dtype=c["it"])
        ptr = np.array([0] + np.cumsum([len(x) for x in cols]).tolist(), dtype=c["it"])
        qa = np.array(q, dtype=c["it"])
        want = np.zeros(nd)
        for t in q:
            for d, v in zip(cols[t], vals[t]):
                want[d] += np.asarray(v, dtype=c["dt"])
        fns = {"default": bm25s.BM25._compute_relevance_from_scores}
        for nm in ("_compute_relevance_from_scores_jit_ready", "_compute_relevance_from_scores_legacy"):
            if hasattr(scoring, nm):
                fns[nm] = getattr(scoring, nm)
        if c["jit"]:
            r = bm25s.BM25()
            r.activate_numba_scorer()
            fns["activated"] = r._compute_relevance_from_scores
        keep = [x.copy() for x in (data, ptr, ind, qa)]
        outs = []
        for nm, f in fns.items():
            got = f(data=data, indptr=ptr, indices=ind, num_docs=nd, query_tokens_ids=qa, dtype=np.dtype(c["dt"]))
            got = np.asarray(got)
            if got.shape != (nd,):
                return f"{nm}: shape {got.shape}, expected ({nd},)"
            if not np.allclose(got, want, rtol=1e-4, atol=1e-4):
                return f"{nm}: {got.tolist()[:20]} instead of {want.tolist()[:20]}"
            for a, b, what in zip((data, ptr, ind, qa), keep, ("data", "indptr", "indices", "query")):
                if not np.array_equal(a, b) or a.dtype != b.dtype:
                    return f"{nm} modified {what}"
            if any(np.shares_memory(got, x) for x in (data, ptr, ind, qa) if x.size):
                return f"{nm} returns memory of the index"


@check("C05", n=(25, 200))
class activated_model:
    def gen(rng, i):
        docs = gen_corpus(rng)
        return dict(docs=docs, p=gen_params(rng), queries=[gen_query(rng, docs) for _ in range(3)])

    def run(c):
        import numpy as np
        a = index_form(bm25(c["p"]), c["docs"], "tokens")
        b = index_form(bm25(c["p"]), c["docs"], "tokens")
        b.activate_numba_scorer()
        for q in c["queries"]:
            want, mag = ref_scores(c["docs"], q, c["p"])
            for r, nm in ((a, "default"), (b, "activated")):
                msg = close_scores(r.get_scores(q), want, mag, c["p"]["dtype"])
                if msg:
                    return f"{nm} kernel, query {q}: {msg}"
        if snapshot(a) != snapshot(b):
            pass
