"""bm25s/scoring.py: term-frequency and idf formulas and their selectors (C01, C04)."""
from .spec import *

MOD = "bm25s.scoring:"
FN = {"robertson": "robertson", "lucene": "lucene", "atire": "atire", "bm25l": "bm25l", "bm25+": "bm25plus"}


class Tfc(Contract):
    props = ("C01", "C04")
    cases = ("array", "scalar")
    required = False
    use_at_calls = False
    variant = None

    def args(self, c, case):
        n = c.fint("n")
        if case == "array":
            tf = c.alloc("arr", c.fresh(KSeq(KReal, "arr"), "tf"))
        else:
            tf = c.fresh(KInt, "tf")
        return dict(tf_array=tf, l_d=c.fint("l_d"), l_avg=c.fresh(KReal, "l_avg"), k1=c.fresh(KReal, "k1"),
                    b=c.fresh(KReal, "b"), delta=c.fresh(KReal, "delta"))

    def requires(self, c, a):
        r = [("parameters in range", params_ok(a["k1"], a["b"], a["delta"])),
             ("average length is positive", z3.And(a["l_d"] >= 0, a["l_avg"] > 0))]
        tf = c.content(a["tf_array"]) if isinstance(a["tf_array"], Ref) else a["tf_array"]
        if isinstance(tf, Seq):
            r.append(("frequencies are positive", All([Int], lambda j: z3.Implies(rng(j, tf.n), tf.at(j) >= 1))))
            r.append(("a document with words has a length", z3.Implies(num(tf.n) > 0, a["l_d"] > 0)))
        else:
            r.append(("frequency is not negative", z3.And(tf >= 0, a["l_d"] > 0)))
        return r

    def ensures(self, c, a, r, old):
        m = self.variant
        tf = old(a["tf_array"])
        f = lambda x: tfc_spec(m, x, a["l_d"], a["l_avg"], a["k1"], a["b"], a["delta"])
        if isinstance(tf, Seq):
            rc = c.content(r)
            return [("one weight per token", num(rc.n) == num(tf.n)),
                    ("each weight is the published one", All([Int], lambda j: z3.Implies(rng(j, tf.n), rc.at(j) == f(tf.at(j)))))]
        return [("the weight is the published one", real(r) == f(tf))]


class Idf(Contract):
    props = ("C01", "C04")
    required = False
    use_at_calls = False
    variant = None

    def args(self, c, case):
        return dict(df=c.fint("df"), N=c.fint("N"))

    def requires(self, c, a):
        return [("1 <= df <= N", z3.And(1 <= a["df"], a["df"] <= a["N"]))]

    def ensures(self, c, a, r, old):
        m = self.variant
        return [("the idf is the published one", real(r) == idf_spec(m, a["df"], a["N"])),
                ("the idf is not negative", real(r) >= 0)]


for m in VARIANTS:
    for base, pre in ((Tfc, "_score_tfc_"), (Idf, "_score_idf_")):
        contract(type(f"{base.__name__}_{FN[m]}", (base,), {"target": MOD + pre + FN[m], "variant": m}))


# ---------------------------------------------------------------- selectors: the functions the index really uses
def rcall(c, f, **kw):
    return real(c.call(f, [], kw))


class Selector(Contract):
    cases = VARIANTS + ("unknown",)

    def args(self, c, case):
        if case == "unknown":
            t = c.fresh(KTok, "method")
            for v in VARIANTS:
                c.assume(t != tok_lit(v))
            return dict(method=t)
        return dict(method=case)

    def raises(self, c, a):
        m = a["method"]
        return [("ValueError", z3.BoolVal(m not in VARIANTS) if isinstance(m, str) else
                 z3.And(*[m != tok_lit(v) for v in VARIANTS]))]

    def result(self, c, a):
        if self.exact(c):
            return None
        m = a["method"]
        return (tfc_fn if "tfc" in self.target else idf_fn)(m)

    def exact(self, c):
        return False


@contract
class SelectTfc(Selector):
    """The selected function, called as the index calls it, is the published weight (C01) and is
    non-negative and monotone (C04)."""
    target = MOD + "_select_tfc_scorer"
    props = ("C01", "C04")

    def ensures(self, c, a, r, old):
        m = a["method"]
        if isinstance(r, AbsFn):
            return []
        k1, b, d, la = (c.fresh(KReal, x) for x in ("k1", "b", "delta", "l_avg"))
        ld, ld2, tf, tf2 = (c.fresh(KReal, x) for x in ("l_d", "l_d2", "tf", "tf2"))
        c.assume(params_ok(k1, b, d))
        c.assume(z3.And(la > 0, ld >= 1, ld2 >= ld, tf >= 0, tf2 >= tf))
        w = lambda t, l: rcall(c, r, tf_array=t, l_d=l, l_avg=la, k1=k1, b=b, delta=d)
        w0, w1, w2 = w(tf, ld), w(tf2, ld), w(tf, ld2)
        z = rcall(c, r, tf_array=0, l_d=ld, l_avg=la, k1=k1, b=b, delta=d)
        return [("published weight", w0 == tfc_spec(m, tf, ld, la, k1, b, d)),
                ("published weight at frequency zero", z == tfc_spec(m, 0, ld, la, k1, b, d)),
                ("published weights of an array of frequencies", self.on_array(c, r, m)),
                ("weight is not negative", mono(c, w0, 0)),
                ("weight does not decrease with the term frequency", mono(c, w1, w0)),
                ("weight does not increase with the document length", mono(c, w0, w2))]


def on_array(self, c, r, m):
    k1, b, d, la = (c.fresh(KReal, x) for x in ("k1", "b", "delta", "l_avg"))
    ld = c.fint("l_d")
    tf = c.fresh(KSeq(KReal, "arr"), "tf")
    c.assume(params_ok(k1, b, d))
    c.assume(z3.And(la > 0, ld >= 0, z3.Implies(tf.n > 0, ld > 0)))
    c.assume(All([Int], lambda j: z3.Implies(rng(j, tf.n), tf.at(j) >= 1)))
    ref = c.alloc("arr", tf)
    before = c.heap[ref.id]
    w = c.content(c.call(r, [], dict(tf_array=ref, l_d=ld, l_avg=la, k1=k1, b=b, delta=d)))
    c.prove(z3.BoolVal(c.heap[ref.id] is before), "the frequencies are not modified")
    return [num(w.n) == num(tf.n),
            All([Int], lambda j: z3.Implies(rng(j, tf.n), w.at(j) == tfc_spec(m, tf.at(j), ld, la, k1, b, d)))]


SelectTfc.on_array = on_array


def tfc_fn(m):
    """Contract of the function the tfc selector returns (proved by SelectTfc for each variant)."""
    def fn(c, args, kw):
        names = ["tf_array", "l_d", "l_avg", "k1", "b", "delta"]
        kw = {**dict(zip(names, args)), **kw}
        tf, ld, la, k1, b, d = (kw.get(n) for n in names)
        tfv = c.content(tf) if isinstance(tf, (Ref, View)) else tf
        c.prove(params_ok(k1, b, d), "precondition of the term-frequency weight: parameters in range")
        c.prove(real(la) > 0, "precondition of the term-frequency weight: average length is positive")
        if isinstance(tfv, Seq):
            c.prove(z3.And(real(ld) >= 0, z3.Implies(num(tfv.n) > 0, real(ld) > 0)), "precondition of the term-frequency weight: document length")
            c.prove(All([Int], lambda j: z3.Implies(rng(j, tfv.n), real(tfv.at(j)) >= 1)), "precondition of the term-frequency weight: frequencies are positive")
            return c.alloc("arr", Seq(tfv.n, lambda j: TFC(m, tfv.at(j), ld, la, k1, b, d), "arr", KReal))
        c.prove(z3.And(real(ld) > 0, real(tfv) >= 0), "precondition of the term-frequency weight: document length")
        return TFC(m, tfv, ld, la, k1, b, d)
    return AbsFn(f"tfc:{m}", fn)


def idf_fn(m):
    """Contract of the function the idf selector returns (proved by SelectIdf for each variant)."""
    def fn(c, args, kw):
        kw = {**dict(zip(["df", "N"], args)), **kw}
        df, N = num(kw["df"]), num(kw["N"])
        c.prove(z3.And(1 <= df, df <= N), "precondition of the idf: 1 <= df <= N")
        return IDF(m, df, N)
    return AbsFn(f"idf:{m}", fn)


def mono(c, x, y):
    return real(x) >= real(y)


@contract
class SelectIdf(Selector):
    target = MOD + "_select_idf_scorer"
    props = ("C01", "C04")

    def ensures(self, c, a, r, old):
        m = a["method"]
        if isinstance(r, AbsFn):
            return []
        df, df2, N = c.fint("df"), c.fint("df2"), c.fint("N")
        c.assume(z3.And(1 <= df, df <= df2, df2 <= N))
        call = lambda d: real(c.call(r, [d], {"N": N}))
        i1, i2 = call(df), call(df2)
        log_axioms(c)
        return [("published idf", i1 == idf_spec(m, df, N)),
                ("idf is not negative", i1 >= 0),
                ("idf does not increase with the document frequency", i1 >= i2)]
