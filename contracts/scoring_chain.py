"""bm25s/scoring.py: document frequencies, idf / non-occurrence arrays, counts and postings (C01, C02)."""
from .spec import *
from .scoring_formulas import tfc_fn, idf_fn

MOD = "bm25s.scoring:"


def is_dict(v):
    return isinstance(v, DictV)


@contract
class CalculateDocFreqs(Contract):
    """doc_freqs[t] is the number of documents that contain t, for every token of the vocabulary."""
    target = MOD + "_calculate_doc_freqs"
    props = ("C01", "C02")
    required = False
    needs_params = ("corpus_tokens", "unique_tokens")
    cases = ("list", "set")

    def args(self, c, case):
        u = c.alloc("list", c.fresh(KSeq(KInt, "list"), "unique")) if case == "list" else c.alloc("set", c.fresh(KSet(KInt), "unique"))
        return dict(corpus_tokens=c.alloc("list", c.fresh(KIDS, "corpus")), unique_tokens=u,
                    show_progress=c.fresh(KBool, "sp"), leave_progress=c.fresh(KBool, "lp"))

    def view(self, c, a):
        a = dict(a)
        a["corpus_tokens"] = named(c, a["corpus_tokens"], KIDS, "corpus")
        return a

    def spec(self, c, a):
        s = c.content(a["corpus_tokens"]) if isinstance(a["corpus_tokens"], Ref) else a["corpus_tokens"]
        u = c.content(a["unique_tokens"]) if isinstance(a["unique_tokens"], Ref) else a["unique_tokens"]
        U = u.mem if isinstance(u, SetV) else L.members(c, u)
        return Corpus(c, s), U

    def result(self, c, a):
        return c.alloc("dict", c.fresh(KDict(KInt, KInt), "df"))

    def ensures(self, c, a, r, old):
        cp, U = self.spec(c, a)
        d = c.content(r)
        if isinstance(d, RecV):
            d = I_empty(c)
        return [("one entry per vocabulary token", All([Int], lambda t: d.dom(t) == U(t), trig=lambda t: d.dom(t))),
                ("each entry is the number of documents with the token",
                 All([Int], lambda t: z3.Implies(U(t), d.val(t) == cp.df(t)), trig=lambda t: d.val(t)))]

    @staticmethod
    def inv_outer(c, k, env):
        self = CONTRACTS[MOD + "_calculate_doc_freqs"]
        cp, U = self.spec(c, c.a)
        d = env.find(is_dict, ("doc_frequencies",))
        return [("vocabulary is fixed", All([Int], lambda t: d.dom(t) == U(t))),
                ("counts of the documents seen", All([Int], lambda t: z3.Implies(U(t), d.val(t) == cp.ND(k, t))))]

    @staticmethod
    def inv_inner(c, k, env):
        self = CONTRACTS[MOD + "_calculate_doc_freqs"]
        cp, U = self.spec(c, c.a)
        d = env.find(is_dict, ("doc_frequencies",))
        d0 = [env.entry_heap[v.id] for v in env.entry_locals.values() if isinstance(v, Ref) and isinstance(env.entry_heap.get(v.id), DictV)][0]
        pos, mem = env.seq.meta["pos"], env.seq.meta["set_enum"].mem
        return [("vocabulary is fixed", All([Int], lambda t: d.dom(t) == U(t))),
                ("counts of the tokens seen", All([Int], lambda t: z3.Implies(U(t), d.val(t) == d0.val(t) + z3.If(z3.And(mem(t), pos(t) < k), 1, 0))))]

    loops = ()


def I_empty(c):
    from pydv.interp import empty_dict
    d = empty_dict(c)
    d.ksort = Int
    d.val = lambda t: z3.IntVal(0)
    return d


CalculateDocFreqs.loops = CONTRACTS[MOD + "_calculate_doc_freqs"].loops = (
    LoopSpec(CalculateDocFreqs.inv_outer, name="documents"), LoopSpec(CalculateDocFreqs.inv_inner, name="shared tokens"))


class DictArray(Contract):
    """Shared by the idf and the non-occurrence array: entry t is f(t) when df[t] > 0 and 0 otherwise."""
    required = False
    props = ("C01", "C02")

    def dict_of(self, c, a):
        d = c.content(a["doc_frequencies"]) if isinstance(a["doc_frequencies"], Ref) else a["doc_frequencies"]
        if isinstance(d, RecV):
            d = I_empty(c)
        return d

    def requires(self, c, a):
        d = self.dict_of(c, a)
        V = d.size
        return [("the vocabulary is 0..V-1", All([Int], lambda t: d.dom(t) == rng(t, V), trig=lambda t: d.dom(t))),
                ("document frequencies are between 0 and the number of documents",
                 All([Int], lambda t: z3.Implies(d.dom(t), z3.And(0 <= d.val(t), d.val(t) <= num(a["n_docs"]))), trig=lambda t: d.val(t)))]

    def common(self, c):
        d = c.fresh(KDict(KInt, KInt), "df")
        return dict(doc_frequencies=c.alloc("dict", d), n_docs=c.fint("n_docs"), dtype=DType("float"))

    def result(self, c, a):
        c.prove(z3.BoolVal(L.role_of(c, a.get("dtype")) == "float"), "no lossy store of a real number into an integer array")
        return c.alloc("arr", c.fresh(KSeq(KReal, "arr"), self.target.split(":")[1]))

    def ensures(self, c, a, r, old):
        d = self.dict_of(c, a)
        arr = c.content(r)
        f = self.entry(c, a, d)
        return [("one entry per vocabulary token", num(arr.n) == d.size),
                ("each entry is the specified one", All([Int], lambda t: z3.Implies(rng(t, d.size), arr.at(t) == f(t)), trig=lambda t: arr.at(t)))]

    @staticmethod
    def inv(c, k, env):
        self = c.con
        d = self.dict_of(c, c.a)
        arr = env.find(lambda v: isinstance(v, Seq) and v.kind == "arr", ("idf_array", "nonoccurrence_array"))
        f = self.entry(c, c.a, d)
        return [("array length", num(arr.n) == d.size),
                ("entries seen are the specified ones, the others 0",
                 All([Int], lambda t: z3.Implies(rng(t, d.size), arr.at(t) == z3.If(d.pos(t) < k, f(t), z3.RealVal(0)))))]

    loops = ()


DictArray.loops = (LoopSpec(DictArray.inv, name="vocabulary"),)


def idf_of(c, fn):
    """IDF term computed by a function value: (df, N) -> term."""
    if isinstance(fn, AbsFn) and fn.name.startswith("idf:"):
        m = fn.attrs.get("m", fn.name[4:])
        return lambda df, N: IDF(m, df, N)
    raise Unsupported("idf function without a contract")


def tfc_of(c, fn):
    if isinstance(fn, AbsFn) and fn.name.startswith("tfc:"):
        m = fn.attrs.get("m", fn.name[4:])
        return lambda *x: TFC(m, *x)
    raise Unsupported("tfc function without a contract")


@contract
class BuildIdf(DictArray):
    target = MOD + "_build_idf_array"
    needs_params = ("doc_frequencies", "n_docs", "compute_idf_fn")

    def args(self, c, case):
        return dict(self.common(c), compute_idf_fn=idf_fn("any"))

    def entry(self, c, a, d):
        idf = idf_of(c, a["compute_idf_fn"])
        return lambda t: z3.If(d.val(t) > 0, idf(d.val(t), a["n_docs"]), z3.RealVal(0))


@contract
class BuildNonocc(DictArray):
    target = MOD + "_build_nonoccurrence_array"
    needs_params = ("doc_frequencies", "n_docs", "compute_idf_fn", "calculate_tfc_fn", "l_d", "l_avg", "k1", "b", "delta")

    def args(self, c, case):
        return dict(self.common(c), compute_idf_fn=idf_fn("any"), calculate_tfc_fn=tfc_fn("any"), l_d=c.fresh(KReal, "l_d"),
                    l_avg=c.fresh(KReal, "l_avg"), k1=c.fresh(KReal, "k1"), b=c.fresh(KReal, "b"), delta=c.fresh(KReal, "delta"))

    def requires(self, c, a):
        return DictArray.requires(self, c, a) + [("parameters in range", params_ok(a["k1"], a["b"], a["delta"])),
                                                 ("lengths are positive", z3.And(real(a["l_d"]) > 0, real(a["l_avg"]) > 0))]

    def entry(self, c, a, d):
        idf, tfc = idf_of(c, a["compute_idf_fn"]), tfc_of(c, a["calculate_tfc_fn"])
        w = tfc(0, a["l_d"], a["l_avg"], a["k1"], a["b"], a["delta"])
        return lambda t: z3.If(d.val(t) > 0, idf(d.val(t), a["n_docs"]) * w, z3.RealVal(0))


@contract
class GetCounts(Contract):
    """The distinct ids of a document and how often each occurs."""
    target = MOD + "_get_counts_from_token_ids"
    props = ("C01", "C02")
    required = False
    needs_params = ("token_ids",)

    def args(self, c, case):
        return dict(token_ids=c.alloc("list", c.fresh(KSeq(KInt, "list"), "doc")), dtype=DType("float"), int_dtype=DType("int"))

    def doc(self, c, a):
        v = a["token_ids"]
        return c.content(v) if isinstance(v, (Ref, View)) else v

    def result(self, c, a):
        c.prove(z3.BoolVal(L.role_of(c, a["int_dtype"]) == "int"), "ids are stored as integers")
        s = self.doc(c, a)
        n, at, pos = L.distinct(c, s)
        CN = L.count_of(c, s)
        fl = L.role_of(c, a["dtype"]) == "float"
        tf = (lambda j: z3.ToReal(CN(s.n, at(num(j))))) if fl else (lambda j: CN(s.n, at(num(j))))
        return (c.alloc("arr", Seq(n, lambda j: at(num(j)), "arr", KInt)), c.alloc("arr", Seq(n, tf, "arr", KReal if fl else KInt)))

    def ensures(self, c, a, r, old):
        s = self.doc(c, a)
        n, at, pos = L.distinct(c, s)
        CN = L.count_of(c, s)
        v, t = c.content(r[0]), c.content(r[1])
        return [("one entry per distinct token", z3.And(num(v.n) == n, num(t.n) == n)),
                ("entries are the distinct tokens with their counts",
                 All([Int], lambda j: z3.Implies(rng(j, n), z3.And(v.at(j) == at(j), real(t.at(j)) == z3.ToReal(CN(s.n, at(j)))))))]


@contract
class BuildScores(Contract):
    """One posting per (document, distinct token), with its score."""
    target = MOD + "_build_scores_and_indices_for_matrix"
    props = ("C01", "C02")
    required = False
    needs_params = ("corpus_token_ids", "idf_array", "avg_doc_len", "doc_frequencies", "k1", "b", "delta", "nonoccurrence_array", "method", "dtype", "int_dtype")
    cases = VARIANTS

    def args(self, c, case):
        d = c.fresh(KDict(KInt, KInt), "df")
        return dict(corpus_token_ids=c.alloc("list", c.fresh(KIDS, "corpus")), idf_array=c.alloc("arr", c.fresh(KSeq(KReal, "arr"), "idf")),
                    avg_doc_len=c.fresh(KReal, "l_avg"), doc_frequencies=c.alloc("dict", d),
                    k1=c.fresh(KReal, "k1"), b=c.fresh(KReal, "b"), delta=c.fresh(KReal, "delta"),
                    nonoccurrence_array=c.alloc("arr", c.fresh(KSeq(KReal, "arr"), "nonocc")) if case in ("bm25l", "bm25+") else None,
                    method=case, dtype=DType("float"), int_dtype=DType("int"), show_progress=c.fresh(KBool, "sp"), leave_progress=c.fresh(KBool, "lp"))

    def view(self, c, a):
        a = dict(a)
        a["corpus_token_ids"] = named(c, a["corpus_token_ids"], KIDS, "corpus")
        return a

    def get(self, c, a, n):
        v = a[n]
        return c.content(v) if isinstance(v, (Ref, View)) else v

    def corpus(self, c, a):
        return Corpus(c, self.get(c, a, "corpus_token_ids"))

    def requires(self, c, a):
        cp = self.corpus(c, a)
        idf = self.get(c, a, "idf_array")
        no = self.get(c, a, "nonoccurrence_array")
        d = self.get(c, a, "doc_frequencies")
        V = num(idf.n)
        r = [("parameters in range", params_ok(a["k1"], a["b"], a["delta"])),
             ("average length is positive", real(a["avg_doc_len"]) > 0),
             ("ids are in the vocabulary", All([Int, Int], lambda d, j: z3.Implies(z3.And(rng(d, cp.N), rng(j, cp.dl(d))), rng(cp.doc(d).at(j), V)),
              trig=lambda d, j: cp.doc(d).at(j))),
             ("known method", z3.BoolVal(a["method"] in VARIANTS)),
             ("document frequencies add up to the number of postings", dict_sum(c, d) == cp.PTR(cp.N))]
        if no is not None:
            r.append(("one non-occurrence score per vocabulary token", num(no.n) == V))
        return r

    def score(self, c, a, cp):
        idf = self.get(c, a, "idf_array")
        no = self.get(c, a, "nonoccurrence_array")
        m = a["method"]

        def sc(d, t):
            w = idf.at(t) * TFC(m, cp.tf(d, t), cp.dl(d), a["avg_doc_len"], a["k1"], a["b"], a["delta"])
            return w - no.at(t) if m in ("bm25l", "bm25+") else w
        return sc

    def result(self, c, a):
        c.prove(z3.BoolVal(L.role_of(c, a["dtype"]) == "float"), "no lossy store of a real number into an integer array")
        c.prove(z3.BoolVal(L.role_of(c, a["int_dtype"]) == "int"), "ids are stored as integers")
        return (c.alloc("arr", c.fresh(KSeq(KReal, "arr"), "scores")), c.alloc("arr", c.fresh(KSeq(KInt, "arr"), "doc_idx")),
                c.alloc("arr", c.fresh(KSeq(KInt, "arr"), "voc_idx")))

    def posts(self, c, a, cp, S, D, V, upto):
        sc = self.score(c, a, cp)

        def body(d, j):
            p = cp.PTR(d) + j
            t = cp.dat(d, j)
            return z3.Implies(z3.And(rng(d, upto), rng(j, cp.nd(d))), z3.And(D.at(p) == d, V.at(p) == t, S.at(p) == sc(d, t)))
        return All([Int, Int], body, trig=lambda d, j: (cp.PTR(d), cp.dat(d, j)))

    def ensures(self, c, a, r, old):
        cp = self.corpus(c, a)
        S, D, V = (c.content(x) for x in r)
        P = cp.PTR(cp.N)
        return [("one slot per posting", z3.And(num(S.n) == P, num(D.n) == P, num(V.n) == P)),
                ("each posting of each document with its score", self.posts(c, a, cp, S, D, V, cp.N))]

    @staticmethod
    def inv(c, k, env):
        self = c.con
        cp = self.corpus(c, c.a)
        S = env.find(lambda v: False, ("scores",)) if False else env["scores"]
        D, V = env["doc_indices"], env["voc_indices"]
        i = env["i"]
        P = cp.PTR(cp.N)
        return [("write position", num(i) == cp.PTR(k)),
                ("array sizes", z3.And(num(S.n) == P, num(D.n) == P, num(V.n) == P)),
                ("postings of the documents seen", self.posts(c, c.a, cp, S, D, V, k))]

    @staticmethod
    def hints(c, k, env):
        cp = c.con.corpus(c, c.a)
        c.hint(k, cp.PTR(k), cp.PTR(k + 1))
        c.assume(cp.PTR(k + 1) == cp.PTR(k) + cp.nd(k)) if False else None
        c.assume(z3.And(cp.PTR(k + 1) <= cp.PTR(cp.N))) if False else None


def dict_sum(c, d):
    P = L.fold_term(c, lambda p: num(d.val(d.key_at(p))), [], Int, num(d.size))
    return P(num(d.size))


CONTRACTS[MOD + "_build_scores_and_indices_for_matrix"].__class__.loops = (LoopSpec(BuildScores.inv, name="documents", hints=BuildScores.hints),)
