"""C08-C12: retrieval."""
import copy, os
from .common import *
from .f_scoring import snapshot


def gen_batch(rng, docs, n=None, unknown=True):
    n = n or rng.randint(1, 6)
    qs = [gen_query(rng, docs, unknown) for _ in range(n)]
    if rng.random() < 0.4:
        qs[rng.randrange(n)] = []
    return qs


def queries_as(qs, form, r):
    """Queries in one of the accepted forms (None: not expressible)."""
    import bm25s
    if form == "strings":
        return [list(q) for q in qs]
    if form == "ids":
        out = [[r.vocab_dict[t] for t in q if t in r.vocab_dict] for q in qs]
        return out
    toks = sorted({t for q in qs for t in q}) or ["nothing"]
    v = {t: i for i, t in enumerate(toks)}
    ids = [[v[t] for t in q] for q in qs]
    if form == "tokenized":
        return bm25s.tokenization.Tokenized(ids=ids, vocab=v)
    if form == "tuple":
        return (ids, v)
    raise KeyError(form)


@check("C08", n=(160, 2500))
class batch_is_independent:
    def gen(rng, i):
        docs = gen_corpus(rng)
        n = rng.choice([1, 2, 3, 5, 7, 12])
        return dict(docs=docs, p=gen_params(rng), qs=gen_batch(rng, docs, n), k=rng.randint(1, len(docs)), form=rng.choice(["strings", "strings", "ids", "tokenized", "tuple"]),
                    threads=rng.choice([0, 0, 1, 2, 3, 8, -1]), chunk=rng.choice([1, 2, 3, 50]), sorted=rng.random() < 0.8, sel=rng.choice(["auto", "numpy", "jax"]),
                    backend="numba" if i % 5 == 4 else "numpy", numba_scorer=i % 20 == 11, mask=rng.random() < 0.25, corpus=rng.random() < 0.3, progress=rng.random() < 0.3,
                    ret=rng.choice(["tuple", "tuple", "documents"]))

    def run(c):
        import numpy as np
        docs = c["docs"]
        r = index_form(bm25(c["p"], backend=c["backend"], corpus=[f"doc {i}" for i in range(len(docs))] if c["corpus"] else None), docs, "tokens")
        if c["numba_scorer"]:
            r.activate_numba_scorer()
        mask = np.array([(i % 3) / 2 for i in range(len(docs))]) if c["mask"] else None
        kw = dict(k=c["k"], sorted=c["sorted"], weight_mask=mask, backend_selection=c["sel"] if c["backend"] == "numpy" else "auto")
        before = snapshot(r)
        attrs = {k: repr(v) for k, v in vars(r).items() if k not in ("scores", "_compute_relevance_from_scores")}
        q = queries_as(c["qs"], c["form"], r)
        q0 = copy.deepcopy(q)
        many = r.retrieve(q, n_threads=c["threads"], chunksize=c["chunk"], show_progress=c["progress"], leave_progress=False, **kw)
        if q != q0:
            return "retrieve modified the query batch"
        if snapshot(r) != before or attrs != {k: repr(v) for k, v in vars(r).items() if k not in ("scores", "_compute_relevance_from_scores")}:
            return "retrieve changed the state of the index"
        if len(many.documents) != len(c["qs"]) or len(many.scores) != len(c["qs"]):
            return f"{len(many.documents)} rows for {len(c['qs'])} queries"
        for i in range(len(c["qs"])):
            one = r.retrieve(queries_as([c["qs"][i]], c["form"], r), show_progress=False, **kw)
            if not np.array_equal(one.scores[0], many.scores[i]) or not np.array_equal(one.documents[0], many.documents[i]):
                return (f"query {i} {c['qs'][i]} answered alone: {one.documents[0].tolist()} {one.scores[0].tolist()}; in the batch: "
                        f"{many.documents[i].tolist()} {many.scores[i].tolist()}")
        again = r.retrieve(queries_as(c["qs"], c["form"], r), n_threads=0, show_progress=False, **kw)
        if not np.array_equal(again.scores, many.scores) or not np.array_equal(again.documents, many.documents):
            return "repeating the retrieval gives another answer"


@check("C08", n=(12, 80))
class long_batches:
    def gen(rng, i):
        docs = gen_corpus(rng, 8)
        return dict(docs=docs, p=gen_params(rng), qs=[gen_query(rng, docs) for _ in range(rng.choice([60, 110, 257]))], threads=rng.choice([2, 4, 0]), chunk=rng.choice([1, 7, 50]),
                    backend=["numpy", "numba"][i % 2])

    def run(c):
        import numpy as np
        r = index_form(bm25(c["p"], backend=c["backend"]), c["docs"], "tokens")
        n = len(c["docs"])
        m = r.retrieve(c["qs"], k=n, n_threads=c["threads"], chunksize=c["chunk"], show_progress=False)
        for i, q in enumerate(c["qs"]):
            want, mag = ref_scores(c["docs"], q, c["p"])
            got = [0.0] * n
            for d, s in zip(m.documents[i], m.scores[i]):
                got[int(d)] = float(s)
            msg = close_scores(got, want, mag, c["p"]["dtype"])
            if msg:
                return f"row {i} of {len(c['qs'])}: {msg}"


def gen_docs_corpus(rng, n):
    kind = rng.choice(["none", "str", "dict", "array", "jsonl", "objarray", "ints"])
    return kind


def make_corpus(kind, n, tag=""):
    import numpy as np
    if kind == "none":
        return None
    if kind == "str":
        return [f"{tag}document {i} " + "x" * (i % 4) for i in range(n)]
    if kind == "dict":
        return [{"id": i, "text": f"{tag}{i}"} for i in range(n)]
    if kind == "array":
        return np.array([f"{tag}id{i}" for i in range(n)])
    if kind == "objarray":
        return np.array([{"a": i, "t": tag} for i in range(n)] + [None], dtype=object)[:n]
    if kind == "ints":
        return [1000 + 7 * i for i in range(n)]
    if kind == "jsonl":
        import bm25s
        d = scratch()
        p = os.path.join(d, "c.jsonl")
        with open(p, "w") as f:
            for i in range(n):
                f.write(json.dumps({"id": i, "text": f"{tag}{i}é"}) + "\n")
        return bm25s.utils.corpus.JsonlCorpus(p, show_progress=False, verbosity=0)


@check("C09", n=(200, 3000))
class corpus_entries:
    def gen(rng, i):
        docs = gen_corpus(rng)
        return dict(docs=docs, p=gen_params(rng), qs=gen_batch(rng, docs), k=rng.randint(1, len(docs)), given=gen_docs_corpus(rng, 0), stored=gen_docs_corpus(rng, 0),
                    backend="numba" if i % 4 == 3 else "numpy", threads=rng.choice([0, 0, 2]), sorted=rng.random() < 0.8, mask=rng.random() < 0.2)

    def run(c):
        import numpy as np
        n = len(c["docs"])
        given, stored = make_corpus(c["given"], n, "g"), make_corpus(c["stored"], n, "s")
        r = index_form(bm25(c["p"], backend=c["backend"], corpus=stored), c["docs"], "tokens")
        mask = np.linspace(0.5, 1, n) if c["mask"] else None
        kw = dict(k=c["k"], show_progress=False, sorted=c["sorted"], n_threads=c["threads"], weight_mask=mask)
        res = r.retrieve(c["qs"], corpus=given, **kw)
        docs_only = r.retrieve(c["qs"], corpus=given, return_as="documents", **kw)
        r2 = index_form(bm25(c["p"], backend=c["backend"]), c["docs"], "tokens")
        pos = r2.retrieve(c["qs"], **kw)
        shape = (len(c["qs"]), c["k"])
        if tuple(res.scores.shape) != shape or tuple(res.documents.shape) != shape or tuple(np.shape(docs_only)) != shape:
            return f"shapes {res.documents.shape}, {res.scores.shape}, {np.shape(docs_only)}; expected {shape}"
        corpus = given if given is not None else stored
        for i in range(shape[0]):
            want, mag = ref_scores(c["docs"], c["qs"][i], c["p"])
            if mask is not None:
                want, mag = [w * m for w, m in zip(want, mask)], mag
            ps = [int(x) for x in pos.documents[i]]
            if len(set(ps)) != len(ps) or any(not 0 <= x < n for x in ps):
                return f"positions {ps}"
            m = close_scores(res.scores[i], [want[x] for x in ps], [mag[x] for x in ps], c["p"]["dtype"])
            if m:
                return f"query {i}: a reported score is not that of the position beside it: {m}"
            for j in range(shape[1]):
                e = ps[j] if corpus is None else corpus[ps[j]]
                for got in (res.documents[i][j], docs_only[i][j]):
                    got = got.item() if hasattr(got, "item") else got
                    e = e.item() if hasattr(e, "item") else e
                    if got != e:
                        return f"query {i} rank {j}: document {got!r}, expected the entry {e!r} of position {ps[j]}"


@check("C09", n=(40, 300))
class invalid_return_type:
    def gen(rng, i):
        docs = gen_corpus(rng)
        return dict(docs=docs, bad=rng.choice(["docs", "", "scores", "Tuple", "list", "document"]), backend=["numpy", "numba"][i % 2], q=gen_query(rng, docs, False))

    def run(c):
        import bm25s
        r = bm25s.BM25(backend=c["backend"])
        r.index(c["docs"], show_progress=False)
        if not raises(lambda: r.retrieve([c["q"]], k=1, return_as=c["bad"], show_progress=False)):
            return f"return_as={c['bad']!r} accepted"


def per_doc(res, n):
    import numpy as np
    o = np.full((len(res.scores), n), np.nan)
    for i in range(len(res.scores)):
        for d, s in zip(res.documents[i], res.scores[i]):
            if not np.isnan(o[i][int(d)]):
                raise AssertionError(f"document {d} returned twice for query {i}")
            o[i][int(d)] = s
    return o


@check("C10", n=(140, 2000))
class numba_equals_numpy:
    def gen(rng, i):
        docs = gen_corpus(rng)
        p = gen_params(rng)
        return dict(docs=docs, p=p, backend="numba", qs=gen_batch(rng, docs, rng.choice([1, 2, 4, 9])), k=rng.randint(1, len(docs)), sorted=rng.random() < 0.8,
                    form=rng.choice(["strings", "strings", "ids", "tokenized", "tuple", "tuplelists"]), threads=rng.choice([0, 1, 2, -1]), set_threads=rng.choice([None, 1, 2]),
                    mask=rng.choice([None, None, "float32", "float64", "int64", "bool", "zeros", "negative"]), empty=rng.random() < 0.8, sel=rng.choice(["auto", "numba"]))

    def run(c):
        import numpy as np, numba
        n = len(c["docs"])
        a = index_form(bm25(c["p"], backend="numpy"), c["docs"], "tokens", create_empty_token=c["empty"])
        b = index_form(bm25(c["p"], backend="numba"), c["docs"], "tokens", create_empty_token=c["empty"])
        mask = None
        if c["mask"] == "zeros":
            mask = np.zeros(n)
        elif c["mask"] == "negative":
            mask = np.linspace(-1, 1, n)
        elif c["mask"]:
            mask = np.array([(i * 7 % 4) for i in range(n)]).astype(c["mask"])
        q = (lambda r: tuple(list(x) for x in c["qs"])) if c["form"] == "tuplelists" else (lambda r: queries_as(c["qs"], c["form"], r))
        if c["form"] == "tuplelists" and not any(c["qs"]):
            raise Skip()
        kw = dict(sorted=c["sorted"], show_progress=False, weight_mask=mask)
        if c["set_threads"]:
            numba.set_num_threads(c["set_threads"])
        before = numba.get_num_threads()
        try:
            ra = b_err = a_err = None
            try:
                full = a.retrieve(q(a), k=n, backend_selection="numpy", **kw)
            except Exception as e:
                a_err = e
            try:
                rb = b.retrieve(q(b), k=n, n_threads=c["threads"], backend_selection=c["sel"], **kw)
                rk = b.retrieve(q(b), k=c["k"], n_threads=c["threads"], **kw)
            except Exception as e:
                b_err = e
            if numba.get_num_threads() != before:
                return f"numba threads {before} before the call, {numba.get_num_threads()} after it"
        finally:
            numba.set_num_threads(numba.config.NUMBA_NUM_THREADS)
        if a_err or b_err:
            if bool(a_err) != bool(b_err):
                return f"numpy backend: {a_err!r}; numba backend: {b_err!r}"
            return None
        A, B = per_doc(full, n), per_doc(rb, n)
        tol = 2e-5 if c["p"]["dtype"] == "float32" else 1e-9
        if not np.allclose(A, B, rtol=tol * 10, atol=tol):
            return f"scores differ: numpy {A.tolist()}, numba {B.tolist()}"
        K = per_doc(rk, n)
        for i in range(len(A)):
            want = np.sort(A[i])[::-1][:c["k"]]
            got = np.asarray(rk.scores[i])
            if c["sorted"] and any(got[j] < got[j + 1] for j in range(len(got) - 1)):
                return f"query {i}: scores not sorted {got.tolist()}"
            if not np.allclose(np.sort(got)[::-1], want, rtol=tol * 10, atol=tol):
                return f"query {i}: top {c['k']} scores {got.tolist()}, expected {want.tolist()}"
            sel = ~np.isnan(K[i])
            if not np.allclose(K[i][sel], A[i][sel], rtol=tol * 10, atol=tol):
                return f"query {i}: a reported score is not that of the position beside it"


@check("C10", n=(40, 300))
class numba_rejects:
    def gen(rng, i):
        docs = gen_corpus(rng)
        return dict(docs=docs, what=["k", "ret", "ids", "mask"][i % 4], q=gen_query(rng, docs, False) or [docs[0][0] if docs[0] else "zz"], seed=rng.randint(0, 9), extra=rng.choice([1, 5]),
                    m=rng.choice(METHODS))

    def run(c):
        import numpy as np, bm25s, numba
        n = len(c["docs"])
        before = numba.get_num_threads()
        for be in ("numpy", "numba"):
            r = bm25s.BM25(backend=be, method=c["m"])
            r.index(c["docs"], show_progress=False)
            kw = dict(k=1, show_progress=False)
            q = [list(c["q"])]
            if c["what"] == "k":
                kw["k"] = n + c["extra"]
            elif c["what"] == "ret":
                kw["return_as"] = "nope"
            elif c["what"] == "mask":
                kw["weight_mask"] = np.ones(n + c["extra"])
            else:
                # ids the vocabulary vouches for but the index does not have
                bad = len(r.scores["indptr"]) - 1 + c["extra"] if c["seed"] % 2 else -c["extra"]
                r.vocab_dict["bogus"] = bad
                r.unique_token_ids_set = set(r.vocab_dict.values())
                q = [["bogus"]] if c["seed"] % 3 else [[bad]]
            if not raises(lambda: r.retrieve(q, **kw)):
                return f"{be} backend accepted an invalid {c['what']}"
        if numba.get_num_threads() != before:
            return "the number of numba threads changed"


@check("C11", n=(220, 3000))
class mask_multiplies:
    def gen(rng, i):
        docs = gen_corpus(rng)
        n = len(docs)
        kind = rng.choice(["ones", "zero-one", "float", "bool", "int", "neg", "f32"])
        m = {"ones": [1.0] * n, "zero-one": [float(rng.randint(0, 1)) for _ in range(n)], "float": [rng.uniform(0, 3) for _ in range(n)],
             "bool": [rng.random() < 0.5 for _ in range(n)], "int": [rng.randint(0, 3) for _ in range(n)], "neg": [rng.uniform(-2, 2) for _ in range(n)],
             "f32": [rng.choice([0.0, 0.5, 2.0]) for _ in range(n)]}[kind]
        return dict(docs=docs, p=gen_params(rng), qs=gen_batch(rng, docs), mask=m, kind=kind, backend="numba" if i % 3 == 2 else "numpy", threads=rng.choice([0, 0, 2]),
                    sel=rng.choice(["numpy", "auto"]))

    def run(c):
        import numpy as np
        n = len(c["docs"])
        dt = {"bool": bool, "int": "int64", "f32": "float32"}.get(c["kind"], "float64")
        mask = np.array(c["mask"], dtype=dt)
        keep = mask.copy()
        r = index_form(bm25(c["p"], backend=c["backend"]), c["docs"], "tokens")
        kw = dict(k=n, show_progress=False, n_threads=c["threads"])
        if c["backend"] == "numpy":
            kw["backend_selection"] = c["sel"]
        res = per_doc(r.retrieve(c["qs"], weight_mask=mask, **kw), n)
        base = per_doc(r.retrieve(c["qs"], **kw), n)
        if not np.array_equal(mask, keep) or mask.dtype != keep.dtype:
            return "the mask was modified"
        tol = 3e-6 if c["p"]["dtype"] == "float32" else 1e-12
        for i, q in enumerate(c["qs"]):
            want, mag = ref_scores(c["docs"], q, c["p"])
            rows = [("retrieve", res[i])]
            try:
                rows.append(("get_scores", r.get_scores(list(q), weight_mask=mask)))
            except Exception:
                pass
            for nm, row in rows:
                for d in range(n):
                    e = base[i][d] * float(mask[d])
                    if not abs(row[d] - e) <= tol * max(1.0, abs(e)):
                        return f"{nm}, query {q}: document {d} scores {row[d]!r} with weight {mask[d]}, {base[i][d]!r} without a mask"
                    if float(mask[d]) == 0 and row[d] != 0:
                        return f"{nm}: document {d} masked with 0 has score {row[d]!r}"
                    w = want[d] * float(mask[d])
                    if abs(row[d] - w) > 1e-4 * max(mag[d] * abs(float(mask[d])), 1e-2):
                        return f"{nm}: document {d} scores {row[d]!r}, expected {w!r}"


@check("C11", n=(60, 500))
class mask_rejected:
    def gen(rng, i):
        docs = gen_corpus(rng)
        return dict(docs=docs, bad=rng.choice(["list", "2d", "2dcol", "short", "long", "empty", "scalar", "tuple"]), backend=["numpy", "numba"][i % 2], q=gen_query(rng, docs, False), m=rng.choice(METHODS))

    def run(c):
        import numpy as np, bm25s
        n = len(c["docs"])
        bad = {"list": [1.0] * n, "2d": np.ones((1, n)), "2dcol": np.ones((n, 1)), "short": np.ones(n - 1), "long": np.ones(n + 1), "empty": np.ones(0), "scalar": np.array(1.0),
               "tuple": (1.0,) * n}[c["bad"]]
        r = bm25s.BM25(method=c["m"], backend=c["backend"])
        r.index(c["docs"], show_progress=False)
        if not raises(lambda: r.retrieve([c["q"]], k=1, weight_mask=bad, show_progress=False)):
            return f"a mask that is {c['bad']} was accepted for {n} documents"


@check("C12", n=(250, 3000))
class unknown_ignored:
    def gen(rng, i):
        docs = gen_corpus(rng)
        q = gen_query(rng, docs, False)
        mixed = list(q)
        for _ in range(rng.randint(0, 3)):
            mixed.insert(rng.randint(0, len(mixed)), rng.choice(["unseen", "zzz", "Ω", " "]))
        return dict(docs=docs, p=gen_params(rng), q=q, mixed=mixed, empty=rng.random() < 0.6, backend="numba" if i % 4 == 3 else "numpy", form=rng.choice(["tokens", "tuple"]),
                    extra=rng.choice([0, 2]))

    def run(c):
        import numpy as np
        n = len(c["docs"])
        r = index_form(bm25(c["p"], backend=c["backend"]), c["docs"], c["form"], extra=c["extra"], create_empty_token=c["empty"])
        tol = 1e-6
        a, b = r.get_scores(list(c["q"])), r.get_scores(list(c["mixed"]))
        if not np.allclose(a, b, rtol=1e-5, atol=tol):
            return f"unknown tokens change the scores: {a.tolist()} for {c['q']}, {b.tolist()} for {c['mixed']}"
        kw = dict(k=n, show_progress=False)
        for q in ([], ["unseen"], ["unseen", "zzz", "unseen"]):
            s = r.get_scores(list(q))
            if s.shape != (n,) or np.any(s != 0):
                return f"get_scores({q}) is {s.tolist()}"
            res = r.retrieve([list(q), list(c["mixed"])], **kw)
            if np.any(np.asarray(res.scores[0]) != 0) or len(set(int(x) for x in res.documents[0])) != n:
                return f"retrieve({q}) gives scores {res.scores[0].tolist()}"
            res = r.retrieve([list(q)], **kw)
            if np.any(np.asarray(res.scores[0]) != 0):
                return f"retrieve([{q}]) gives scores {res.scores[0].tolist()}"
        res = per_doc(r.retrieve([c["mixed"], c["q"]], **kw), n)
        if not np.allclose(res[0], res[1], rtol=1e-5, atol=tol):
            return f"unknown tokens change the retrieved scores: {res.tolist()}"
        if c["extra"]:
            s = r.get_scores(["extra0"])
            if np.any(s != 0):
                return f"a vocabulary token that occurs in no document scores {s.tolist()}"


@check("C12", n=(200, 2500))
class ids_outside:
    def gen(rng, i):
        docs = gen_corpus(rng)
        return dict(docs=docs, m=rng.choice(METHODS), backend="numba" if i % 4 == 3 else "numpy", empty=rng.random() < 0.5, bad=rng.choice([-1, -2, "n", "n+1", "big", "n-vocab"]),
                    pos=rng.random(), q=gen_query(rng, docs, False), jit=i % 10 == 1, allunknown=rng.random() < 0.3)

    def run(c):
        import numpy as np, bm25s
        n = len(c["docs"])
        r = bm25s.BM25(method=c["m"], backend=c["backend"])
        r.index(c["docs"], show_progress=False, create_empty_token=c["empty"])
        if c["jit"]:
            r.activate_numba_scorer()
        slots = len(r.scores["indptr"]) - 1
        bad = {"n": slots, "n+1": slots + 1, "big": 2 ** 31 - 1, "n-vocab": slots + 17}.get(c["bad"], c["bad"])
        good = [r.vocab_dict[t] for t in c["q"]]
        base = r.get_scores(list(good)) if good else np.zeros(n)
        if c["allunknown"]:
            good = []
        q = list(good)
        q.insert(int(c["pos"] * (len(q) + 1)), bad)
        try:
            s = r.get_scores(list(q))
        except (ValueError, IndexError):
            pass
        else:
            if not np.allclose(s, base if good else np.zeros(n), rtol=1e-5, atol=1e-6):
                return f"get_scores({q}) with an id outside the index gives {s.tolist()}"
        if hasattr(r, "get_scores_from_ids"):
            try:
                s = r.get_scores_from_ids(list(q))
            except (ValueError, IndexError):
                pass
            else:
                if not np.allclose(s, base if good else np.zeros(n), rtol=1e-5, atol=1e-6):
                    return f"get_scores_from_ids({q}) with an id outside the index gives {s.tolist()}"
        for qs in ([q], [q, good] if good else [q]):
            try:
                res = r.retrieve([list(x) for x in qs], k=n, show_progress=False)
            except (ValueError, IndexError):
                if not good and "" in r.vocab_dict:
                    return f"an all-unknown integer query was rejected although the vocabulary has an empty token"
                if good:
                    return f"retrieve rejects a query {qs} whose unknown ids are to be dropped"
                continue
            if not good and "" not in r.vocab_dict:
                return f"an all-unknown integer query {q} was accepted without an empty token in the vocabulary"
            got = per_doc(res, n)[0]
            if not np.allclose(got, base if good else np.zeros(n), rtol=1e-5, atol=1e-6):
                return f"retrieve({qs}) with an id outside the index gives {got.tolist()}, expected {base.tolist()}"
