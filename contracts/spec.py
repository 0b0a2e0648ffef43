"""Specification functions shared by the contracts (mathematical definitions of the published formulas)."""
import z3
from fractions import Fraction
from pydv.vals import *
from pydv.engine import *
from pydv.lib import real, rng, LOG, log_axioms
from pydv import lib as L

VARIANTS = ("robertson", "lucene", "atire", "bm25l", "bm25+")
HALF = z3.RealVal("1/2")


def B_(b, l_d, l_avg):
    return 1 - b + b * l_d / l_avg


def tfc_spec(m, tf, l_d, l_avg, k1, b, d):
    """Published term-frequency weight of variant m (Kamphuis et al. 2020, table 1)."""
    tf, l_d, l_avg, k1, b = map(real, (tf, l_d, l_avg, k1, b))
    Bn = B_(b, l_d, l_avg)
    if m in ("robertson", "lucene"):
        return tf / (k1 * Bn + tf)
    if m == "atire":
        return (k1 + 1) * tf / (k1 * Bn + tf)
    d = real(d)
    if m == "bm25l":
        c = tf / Bn
        return (k1 + 1) * (c + d) / (k1 + c + d)
    if m == "bm25+":
        return (k1 + 1) * tf / (k1 * Bn + tf) + d
    raise KeyError(m)


def idf_arg(m, df, N):
    df, N = real(df), real(N)
    if m == "robertson":
        x = (N - df + HALF) / (df + HALF)
        return z3.If(x < 1, z3.RealVal(1), x)
    if m == "lucene":
        return 1 + (N - df + HALF) / (df + HALF)
    if m == "atire":
        return N / df
    if m == "bm25l":
        return (N + 1) / (df + HALF)
    if m == "bm25+":
        return (N + 1) / df
    raise KeyError(m)


def idf_spec(m, df, N):
    return LOG()(idf_arg(m, df, N))


def params_ok(k1, b, d):
    r = [real(k1) > 0, real(b) >= 0, real(b) <= 1]
    if d is not None:
        r.append(real(d) >= 0)
    return z3.And(*r)


# The callers are verified against *named* weights: TFC and IDF abbreviate the published formulas (the
# selectors' contracts prove that the code computes exactly these), so nothing above them unfolds them.
def mt(m):
    return tok_lit(m) if isinstance(m, str) else m


def TFC(m, tf, ld, la, k1, b, d):
    F = z3.Function("TFC", Tok, *[Real] * 6, Real)
    return F(mt(m), *map(real, (tf, ld, la, k1, b)), real(d if d is not None else 0))


def IDF(m, df, N):
    return z3.Function("IDF", Tok, Int, Int, Real)(mt(m), num(df), num(N))


# ------------------------------------------------------------------ corpora
def named(c, v, kind, name):
    """The sequence v under a fresh family name (definitional: pointwise equal to v)."""
    s = c.content(v) if isinstance(v, (Ref, View)) else v
    if not isinstance(s, Seq):
        s = c.iter_seq(v)
    if s.meta.get("fam") and same_shape(s, kind):
        return s
    cache = c.ghost.setdefault("named", {})
    key = id(s.at)
    if key in cache:
        return cache[key][1]
    f = c.family(kind, name, [])()
    n = num(s.n)
    c.assume(num(f.n) == n)
    if isinstance(kind.elem, KSeq):
        c.assume(All([Int], lambda i: z3.Implies(rng(i, n), num(f.at(i).n) == num(c.frozen(s.at(i)).n))))
        c.assume(All([Int, Int], lambda i, j: z3.Implies(z3.And(rng(i, n), rng(j, f.at(i).n)), f.at(i).at(j) == c.frozen(s.at(i)).at(j)),
                     trig=lambda i, j: f.at(i).at(j)))
    else:
        c.assume(All([Int], lambda i: z3.Implies(rng(i, n), f.at(i) == num(s.at(i))), trig=lambda i: f.at(i)))
    cache[key] = (s, f)
    return f


def same_shape(s, kind):
    return isinstance(s.elem, type(kind.elem)) and repr(s.elem) == repr(kind.elem)


KIDS = KSeq(KSeq(KInt, "list"), "list")


class Corpus:
    """Ghost functions over a corpus of id lists (family sequence of family sequences)."""
    def __init__(self, c, s):
        self.c, self.s = c, s
        self.N = num(s.n)

    def doc(self, d):
        return self.s.at(num(d))

    def mem(self, d, t):
        return L.members(self.c, self.doc(d))(t)

    def tf(self, d, t):
        q = self.doc(d)
        return L.count_of(self.c, q)(q.n, t)

    def dl(self, d):
        return num(self.doc(d).n)

    def ND(self, k, t):
        """number of the first k documents that contain t"""
        c = self.c
        F = L.fold_term(c, lambda p, t: z3.If(self.mem(p, t), z3.IntVal(1), z3.IntVal(0)), [Int], Int, self.N)
        self.nd_bounds(F)
        return F(num(k), t)

    def nd_bounds(self, F):
        c = self.c
        if c.ghost.get(("ndb", id(F))):
            return
        c.ghost[("ndb", id(F))] = F
        c.induct("document counts are bounded", self.N, lambda k, t: z3.And(0 <= F(k, t), F(k, t) <= k), [Int], trig=lambda k, t: F(k, t))
        c.induct("a token of a document is counted", self.N, lambda k, d, t: z3.Implies(z3.And(0 <= d, d < k, self.mem(d, t)), F(k, t) >= 1), [Int, Int],
                 trig=lambda k, d, t: (F(k, t), self.mem(d, t)))

    def df(self, t):
        return self.ND(self.N, t)

    def nd(self, d):
        return L.distinct(self.c, self.doc(d))[0]

    def dat(self, d, j):
        return L.distinct(self.c, self.doc(d))[1](num(j))

    def dpos(self, d, t):
        return L.distinct(self.c, self.doc(d))[2](t)

    def PTR(self, k):
        """total number of distinct tokens of the first k documents"""
        c = self.c
        F = L.fold_term(c, lambda p: self.nd(p), [], Int, self.N)
        if not c.ghost.get(("ptr", id(F))):
            c.ghost[("ptr", id(F))] = F
            c.induct("posting offsets do not decrease", self.N, lambda j, i: z3.Implies(z3.And(0 <= i, i <= j), z3.And(F(i) <= F(j), F(i) >= 0)), [Int],
                     trig=lambda j, i: (F(i), F(j)))
        return F(num(k))

    def LEN(self, k):
        return L.fold_term(self.c, lambda p: num(self.s.at(p).n), [], Int, self.N)(num(k))
