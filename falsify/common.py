"""Contract-directed search for failing inputs on the real code.

Every check generates JSON-able cases and evaluates the property's contract, read as an
executable statement, on the code of the repository.  It is bounded: it is used to turn a failed proof
obligation into a concrete failing input (replay), and as the labelled stand-in for
functions the deductive verifier does not reach.  It never counts as proof.
"""
import copy, json, math, os, random, sys, tempfile, time, traceback

REG = {}


def check(prop, n=(60, 600), slow=False):
    """Register a check class with gen(rng, i) -> case and run(case) -> None or message."""
    def deco(cls):
        REG.setdefault(prop, []).append((cls.__name__, cls, n, slow))
        return cls
    return deco


class Skip(Exception):
    """The case lies outside the property's scope."""


WORDS = ["apple", "pear", "fig", "kiwi", "plum", "lime", "date", "été", "straße", "日本", "a1", "x_y", "é", "007", "-", "don't"]


def gen_words(rng, n=None):
    n = n or rng.randint(1, 9)
    ws = list(WORDS)
    rng.shuffle(ws)
    return ws[:n]


def gen_corpus(rng, max_docs=9, max_len=12, allow_empty_docs=True):
    ws = gen_words(rng)
    style = rng.randint(0, 5)
    nd = rng.choice([1, 2, 3, rng.randint(1, max_docs), max_docs])
    docs = []
    for _ in range(nd):
        n = rng.randint(0 if allow_empty_docs else 1, max_len)
        if style == 0:
            n = rng.choice([0 if allow_empty_docs else 1, 1, max_len])
        docs.append([rng.choice(ws) for _ in range(n)])
    if style == 1:
        docs = [list(docs[0]) for _ in docs]              # identical documents
    if style == 2:
        docs = [[ws[0]] * rng.randint(1, 4) + d for d in docs]  # a token in every document
    if style == 3 and len(docs) > 1:
        docs[rng.randrange(len(docs))] = [ws[0]] * rng.randint(20, 60)
    if rng.random() < 0.12:
        docs = [[t if rng.random() < 0.7 else "" for t in d] for d in docs]
    if max_docs >= 9 and rng.random() < 0.02:
        docs = docs + [[rng.choice(ws) for _ in range(rng.randint(0, 3))] for _ in range(rng.choice([130, 260, 400]))]
    if not any(docs):
        docs[rng.randrange(len(docs))] = [rng.choice(ws)]
    return docs


def gen_query(rng, docs, unknown=True, max_len=6):
    pool = sorted({t for d in docs for t in d})
    q = [rng.choice(pool) for _ in range(rng.randint(0, max_len))]
    if q and rng.random() < 0.4:
        q.append(q[0])
    if unknown and rng.random() < 0.4:
        q.insert(rng.randint(0, len(q)), rng.choice(["zzz", "unseen", "", "APPLE", "nöt"]))
    return q


METHODS = ["robertson", "lucene", "atire", "bm25l", "bm25+"]


def gen_params(rng):
    return dict(method=rng.choice(METHODS), idf_method=rng.choice([None, None] + METHODS),
                k1=rng.choice([1.5, 1.2, 0.1, 2.0, round(rng.uniform(0.05, 5), 3), 10.0]),
                b=rng.choice([0.75, 0.0, 1.0, round(rng.uniform(0, 1), 3)]),
                delta=rng.choice([0.5, 0.0, 1.0, round(rng.uniform(0, 3), 3)]),
                dtype=rng.choice(["float32", "float32", "float64"]), int_dtype=rng.choice(["int32", "int32", "int64"]))


# ---------------------------------------------------------------- published formulas
def idf_ref(m, df, N):
    if m == "robertson":
        return math.log(max(1.0, (N - df + 0.5) / (df + 0.5)))
    if m == "lucene":
        return math.log(1 + (N - df + 0.5) / (df + 0.5))
    if m == "atire":
        return math.log(N / df)
    if m == "bm25l":
        return math.log((N + 1) / (df + 0.5))
    if m == "bm25+":
        return math.log((N + 1) / df)
    raise KeyError(m)


def tfc_ref(m, tf, ld, la, k1, b, delta):
    norm = 1 - b + b * ld / la
    if m in ("robertson", "lucene"):
        return tf / (k1 * norm + tf) if tf else 0.0
    if m == "atire":
        return tf * (k1 + 1) / (tf + k1 * norm) if tf else 0.0
    if m == "bm25l":
        c = tf / norm if tf else 0.0
        return (k1 + 1) * (c + delta) / (k1 + c + delta)
    if m == "bm25+":
        return ((k1 + 1) * tf / (k1 * norm + tf) if tf else 0.0) + delta
    raise KeyError(m)


def ref_scores(docs, query, p):
    """Scores of every document, and for each the sum of absolute contributions (tolerance)."""
    m, im = p["method"], p["idf_method"] or p["method"]
    N = len(docs)
    la = sum(map(len, docs)) / N
    df = {}
    for d in docs:
        for t in set(d):
            df[t] = df.get(t, 0) + 1
    out, mag = [], []
    for d in docs:
        s = a = 0.0
        for t in query:
            if df.get(t, 0) == 0:
                continue
            w = idf_ref(im, df[t], N) * tfc_ref(m, d.count(t), len(d), la, p["k1"], p["b"], p["delta"])
            s += w
            a += abs(w) + abs(idf_ref(im, df[t], N) * (p["delta"] + 1)) * (m in ("bm25l", "bm25+"))
        out.append(s)
        mag.append(a)
    return out, mag


def close_scores(got, want, mag, dtype):
    import numpy as np
    eps = 3e-5 if str(dtype) == "float32" else 1e-10
    got = np.asarray(got, dtype=float)
    if got.shape != (len(want),):
        return f"shape {got.shape}, expected ({len(want)},)"
    for d, (g, w, a) in enumerate(zip(got, want, mag)):
        if not abs(g - w) <= eps * max(a, 1e-3) + eps * 1e-2:
            return f"document {d}: score {g!r}, expected {w!r}"
    return None


JIT = os.environ.get("NUMBA_DISABLE_JIT") != "1"
_numba_cases = [0]


def few_types(p, backend):
    """Every type combination costs a compilation: use few of them with the real compiler."""
    if JIT and backend == "numba":
        _numba_cases[0] += 1
        if _numba_cases[0] % 5 != 4:
            return dict(p, dtype="float32", int_dtype="int32")
        return dict(p, dtype="float64", int_dtype="int64")
    return p


def bm25(p, **kw):
    import bm25s
    return bm25s.BM25(k1=p["k1"], b=p["b"], delta=p["delta"], method=p["method"], idf_method=p["idf_method"],
                      dtype=p["dtype"], int_dtype=p["int_dtype"], **kw)


def ids_vocab(docs, rng=None, extra=0, perm=None):
    toks = sorted({t for d in docs for t in d}) + [f"extra{i}" for i in range(extra)]
    if perm is not None:
        random.Random(perm).shuffle(toks)
    v = {t: i for i, t in enumerate(toks)}
    return [[v[t] for t in d] for d in docs], v


class Obj:
    def __init__(self, ids, vocab):
        self.ids, self.vocab = ids, vocab


def index_form(r, docs, form, perm=None, extra=0, **kw):
    """Index `docs` in one of the accepted forms."""
    kw.setdefault("show_progress", False)
    if form == "tokens":
        r.index(docs, **kw)
    else:
        ids, v = ids_vocab(docs, perm=perm, extra=extra)
        if form == "tuple":
            r.index((ids, v), **kw)
        elif form == "object":
            r.index(Obj(ids, v), **kw)
        elif form == "tokenized":
            import bm25s
            r.index(bm25s.tokenization.Tokenized(ids=ids, vocab=v), **kw)
        else:
            raise KeyError(form)
    return r


FORMS = ["tokens", "tuple", "object", "tokenized"]


def raises(fn, *exc):
    try:
        fn()
    except (exc or (Exception,)):
        return True
    return False


def scratch():
    return tempfile.mkdtemp(dir=os.environ["FALSIFY_SCRATCH"])


def run_property(prop, seed, tier, budget):
    t0 = time.time()
    out = {"evaluations": 0, "skipped": 0, "violations": [], "checks": {}, "complete": True, "samples": []}
    cur = os.environ.get("FALSIFY_CURRENT")      # the case in progress, should the process die in it
    seen = set()
    checks = REG.get(prop, [])
    for ci, (name, cls, n, slow) in enumerate(checks):
        total = n[0] if tier == "quick" else n[1]
        rng = random.Random(f"{seed}:{prop}:{name}" + ("" if JIT else ":nojit"))
        done = 0
        # every check gets its share of what is left
        share = t0 + budget - time.time()
        tend = time.time() + share / (len(checks) - ci)
        for i in range(total):
            if time.time() > tend and done >= 1:
                out["complete"] = False
                break
            case = cls.gen(rng, i)
            if "p" in case:
                case["p"] = few_types(case["p"], case.get("backend"))
            if cur:
                with open(cur, "w") as f:
                    json.dump({"property": prop, "check": name, "case": case, "nojit": not JIT}, f)
            msg = eval_case(cls, case)
            if msg is SKIP:
                out["skipped"] += 1
                continue
            done += 1
            text = json.dumps(case, sort_keys=True)
            seen.add(hash((name, text)))
            if len(out["samples"]) < 6 and len(text) < 600 and done % 7 == 1:
                out["samples"].append({"check": name, "case": case})
            if msg:
                out["violations"].append({"check": name, "case": case, "message": msg, "nojit": not JIT})
                break
        out["checks"][name] = done
        out["evaluations"] += done
    out["wall_s"] = time.time() - t0
    out["distinct"] = len(seen)
    return out


SKIP = object()


def eval_case(cls, case):
    case = json.loads(json.dumps(case))
    try:
        return cls.run(case)
    except Skip:
        return SKIP
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if "/falsify/" not in f.filename]
        at = f" at {os.path.basename(last[-1].filename)}:{last[-1].lineno}" if last else ""
        return f"unexpected {type(e).__name__}: {e}{at}"
