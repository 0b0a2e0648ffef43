"""Contracts of library functions (builtins, numpy, scipy, collections, ...).

These are the assumed contracts of the dependencies: every one that a proof used is listed in the
evidence.  Numbers are mathematical (ints unbounded, floats real); arrays carry a role (float/int).
"""
from __future__ import annotations
from fractions import Fraction
import z3
from .vals import *
from .engine import (All, Imp, KS, KSeq, KDict, KSet, KRec, KTuple, KHeap, KConst, KBot, KInt, KReal, KBool, KTok, KVal,
                     Poison, tok_lit, flat_formula)
from . import interp as I
from . import engine as E
from .interp import lib, method, LIB, METHODS, kind_of, mk_list, set_of_seq, dict_of_pairs, lit_set, StarSeq


def ct(c, v):
    return c.content(v) if isinstance(v, (Ref, View)) else v


def seq(c, v):
    s = c.iter_seq(v)
    return s


def rng(j, n):
    return z3.And(0 <= j, j < num(n))


def real(t):
    t = num(t)
    return z3.ToReal(t) if t.sort() == Int else t


def fn_param(c, x):
    return x


# =================================================================== spec functions over sequences
def ident(s):
    """(name, index terms) identifying a family sequence, else None."""
    f = s.meta.get("fam")
    return (f, tuple(s.meta["ix"])) if f is not None else None


def fold(c, s, tag, g, psorts=(), sort=Int):
    """F(p, params) = sum over positions < p of g(element at position, params); shared between
    sequences with the same identity or the same content."""
    ident_ = ident(s)
    cache = c.ghost.setdefault("folds", {})
    if ident_ is not None:
        nm, ix = ident_
        key = ("fam", nm, tag)
        if key not in cache:
            srts = [t.sort() for t in ix]
            F = z3.Function(f"sum:{tag}:{nm}", *srts, Int, *psorts, sort)
            cache[key] = F
            zero = num(0) if sort == Int else z3.RealVal(0)
            bs = c.binders
            k = len(srts)
            mk = s.meta["mk"]
            c.assume(All(srts + list(psorts), lambda *x: F(*x[:k], z3.IntVal(0), *x[k:]) == zero, univ=True))
            c.assume(All(srts + [Int] + list(psorts), lambda *x: z3.Implies(z3.And(0 <= x[k], x[k] < num(mk(*x[:k]).n)),
                         F(*x[:k], x[k] + 1, *x[k + 1:]) == F(*x) + g(mk(*x[:k]).at(x[k]), *x[k + 1:])), univ=True, noquant=True))
        F = cache[key]
        return lambda p, *ps: F(*ix, num(p), *ps)
    probe = z3.Int("fold!p")
    pps = [z3.Const(f"fold!{i}", q) for i, q in enumerate(psorts)]
    el = s.at(probe)
    body = z3.simplify(g(el, *pps))
    return fold_term(c, lambda p, *ps: g(s.at(p), *ps), psorts, sort, num(s.n))


def fold_term(c, f, psorts=(), sort=Int, n=None):
    """Prefix sums of f(0), f(1), ...  (same function for the same summand)."""
    cache = c.ghost.setdefault("folds", {})
    probe = z3.Int("fold!p")
    pps = [z3.Const(f"fold!{i}", q) for i, q in enumerate(psorts)]
    body = z3.simplify(f(probe, *pps))
    key = ("txt", body.sexpr(), str(sort))
    if key in cache:
        return cache[key]
    for kk, (b0, n0, F0, ps0) in list(c.ghost.setdefault("foldlist", {}).items()):
        if ps0 == [q.name() for q in psorts] and b0.sort() == body.sort() and n is not None and n0 is not None:
            if c.entails(z3.Implies(z3.And(0 <= probe, probe < n, probe < n0), b0 == body), 1500, extra=[probe] + pps):
                cache[key] = F0
                return F0
    bs = [b for b in c.binders if E.mentions(body, b)]
    F0 = z3.Function(c.uniq("psum"), *[b.sort() for b in bs], Int, *psorts, sort)
    F = lambda *a: F0(*bs, *[num(x) for x in a])
    univ = not bs
    zero = num(0) if sort == Int else z3.RealVal(0)
    c.assume(All(list(psorts), lambda *x: F(z3.IntVal(0), *x) == zero, univ=univ))
    lim = (lambda p: z3.And(0 <= p, p < n)) if n is not None and not any(E.mentions(n, b) for b in c.binders if b not in bs) else (lambda p: 0 <= p)
    c.assume(All([Int] + list(psorts), lambda *x: z3.Implies(lim(x[0]), F(x[0] + 1, *x[1:]) == F(*x) + f(*x)), noquant=True, univ=univ))
    cache[key] = F
    c.ghost["foldlist"][key] = (body, n, F, [q.name() for q in psorts])
    return F


def count_of(c, s):
    """CNT(p, t): occurrences of t among the first p elements."""
    e = elem_sort(c, s)
    CN = fold(c, s, "count", lambda x, t: z3.If(x == t, z3.IntVal(1), z3.IntVal(0)), [e])
    return CN


def elem_sort(c, s):
    k = kind_of(c, s)
    e = k.elem
    if isinstance(e, KS):
        return e.sort
    if isinstance(e, KBot):
        return None
    raise Unsupported("sequence of non-scalars")


def fam_fn(c, s, tag, sorts, out, axioms):
    """Uninterpreted function attached to the identity of a sequence; axioms(F, mkseq, ixsorts) are
    assumed once for every index of the family."""
    id_ = ident(s)
    cache = c.ghost.setdefault("famfn", {})
    if id_ is not None:
        nm, ix = id_
        key = (tag, nm)
        if key not in cache:
            srts = [t.sort() for t in ix]
            F = z3.Function(f"{tag}:{nm}", *srts, *sorts, out)
            cache[key] = F
        F = cache[key]
        return lambda *a: F(*ix, *[num(x) for x in a])
    probe = z3.Int("ff!p")
    el = s.at(probe)
    key = (tag, z3.simplify(num(s.n)).sexpr(), z3.simplify(el).sexpr())
    if key not in cache:
        cache[key] = c.func(tag, *sorts, out)
    return cache[key]


def generic(c, s, tag, emit):
    """Emit axioms about a sequence once: for families quantified over the family index."""
    done = c.ghost.setdefault("generic", set())
    id_ = ident(s)
    if id_ is not None:
        key = (tag, id_[0])
        if key in done:
            return
        done.add(key)
        srts = [t.sort() for t in id_[1]]
        mk = s.meta["mk"]
        emit(srts, lambda ix: mk(*ix), True)
        return
    probe = z3.Int("ff!p")
    key = (tag, z3.simplify(num(s.n)).sexpr(), z3.simplify(s.at(probe)).sexpr())
    if key in done:
        return
    done.add(key)
    emit([], lambda ix: s, False)


def members(c, s):
    """mem(t): t occurs in s (with witness position)."""
    if "mem" in s.meta:
        return s.meta["mem"]
    e = elem_sort(c, s)
    if e is None:
        return lambda t: z3.BoolVal(False)
    mem = fam_fn(c, s, "mem", [e], Bool, None)
    wit = fam_fn(c, s, "wit", [e], Int, None)

    def emit(srts, mk, univ):
        k = len(srts)

        def M(ix):
            q = mk(ix)
            return fam_fn(c, q, "mem", [e], Bool, None), fam_fn(c, q, "wit", [e], Int, None), q
        c.assume(All(srts + [Int], lambda *x: (lambda m, w, q: z3.Implies(rng(x[k], q.n), m(q.at(x[k]))))(*M(x[:k])), univ=univ,
                     trig=lambda *x: M(x[:k])[2].at(x[k])))
        c.assume(All(srts + [e], lambda *x: (lambda m, w, q: z3.Implies(m(x[k]), z3.And(rng(w(x[k]), q.n), q.at(w(x[k])) == x[k])))(*M(x[:k])),
                     univ=univ, trig=lambda *x: M(x[:k])[0](x[k])))
    generic(c, s, "mem", emit)
    ws = c.ghost.setdefault("memwit", set())
    id_ = ident(s)
    kk = (id_[0], tuple(t.get_id() for t in id_[1])) if id_ else id(s)
    if kk not in ws:
        ws.add(kk)
        c.cand_fns.append((e, lambda t: wit(t)))
    s.meta["mem"] = mem
    s.meta["wit"] = wit
    return mem


def distinct(c, s):
    """(n, at, pos): the distinct elements of s in order of first occurrence."""
    e = elem_sort(c, s)
    mem = members(c, s)
    nd0 = fam_fn(c, s, "ndist", [], Int, None)
    at = fam_fn(c, s, "dat", [Int], e, None)
    pos = fam_fn(c, s, "dpos", [e], Int, None)

    def emit(srts, mk, univ):
        k = len(srts)

        def M(ix):
            q = mk(ix)
            members(c, q)
            return (q, fam_fn(c, q, "ndist", [], Int, None)(), fam_fn(c, q, "dat", [Int], e, None),
                    fam_fn(c, q, "dpos", [e], Int, None), fam_fn(c, q, "mem", [e], Bool, None), count_of(c, q))

        def ax1(*x):
            q, n, a, p, m, cn = M(x[:k])
            return z3.And(0 <= n, n <= num(q.n), z3.Implies(num(q.n) > 0, n > 0))
        c.assume(All(srts, ax1, univ=univ) if srts else ax1())

        def ax2(*x):
            q, n, a, p, m, cn = M(x[:k])
            return z3.Implies(rng(x[k], n), z3.And(m(a(x[k])), p(a(x[k])) == x[k]))
        c.assume(All(srts + [Int], ax2, univ=univ, trig=lambda *x: M(x[:k])[2](x[k])))

        def ax3(*x):
            q, n, a, p, m, cn = M(x[:k])
            t = x[k]
            return z3.And(z3.Implies(m(t), z3.And(rng(p(t), n), a(p(t)) == t, cn(q.n, t) >= 1)),
                          z3.Implies(z3.Not(m(t)), cn(q.n, t) == 0), cn(q.n, t) <= num(q.n))
        c.assume(All(srts + [e], ax3, univ=univ, trig=lambda *x: M(x[:k])[4](x[k])))
    generic(c, s, "distinct", emit)
    ws = c.ghost.setdefault("dstwit", set())
    id_ = ident(s)
    kk = (id_[0], tuple(t.get_id() for t in id_[1])) if id_ else id(s)
    if kk not in ws:
        ws.add(kk)
        c.cand_fns.append((e, lambda t: pos(t)))
        c.cand_fns.append((Int, lambda t: at(t)))
    return nd0(), at, pos


I.Interp.members = lambda self, s: members(self, s)


# =================================================================== dtypes
def role_of(c, d, dflt="float"):
    if d is None:
        return dflt
    if isinstance(d, DType):
        return d.role
    if isinstance(d, str):
        if d.startswith(("float", "f")):
            return "float"
        if d.startswith(("int", "uint", "i")):
            return "int"
        if d.startswith("bool"):
            return "bool"
    if isinstance(d, LibV):
        n = d.path.split(".")[-1]
        return role_of(c, n)
    raise Unsupported(f"dtype {d!r}")


def coerce(c, v, role):
    """Scalar stored with a role (lossy conversions are obligations)."""
    if isinstance(v, (Seq, tuple)):
        return v
    t = num(v)
    if role == "float":
        if t.sort() == Bool:
            return z3.If(t, z3.RealVal(1), z3.RealVal(0))
        return real(t)
    if role == "int":
        if t.sort() == Real:
            c.prove(z3.BoolVal(False), "no lossy conversion of a real number to an integer")
            return z3.ToInt(t)
        if t.sort() == Bool:
            return z3.If(t, z3.IntVal(1), z3.IntVal(0))
        return t
    return t


KROLE = {"float": KReal, "int": KInt, "bool": KBool}


def arr(c, n, at, elem=None, **meta):
    return c.alloc("arr", Seq(n, at, "arr", elem, meta))


@lib("numpy.dtype")
def np_dtype(c, a, k):
    return DType(role_of(c, a[0]))


def alloc_filled(c, a, k, val):
    shape = a[0] if a else k["shape"]
    role = role_of(c, a[1] if len(a) > 1 else k.get("dtype"))
    zero = {"float": z3.RealVal(val), "int": z3.IntVal(val), "bool": z3.BoolVal(bool(val))}[role]
    if isinstance(shape, tuple) and len(shape) == 1:
        shape = shape[0]
    if isinstance(shape, tuple):
        r, q = shape
        c.require(z3.And(num(r) >= 0, num(q) >= 0), "ValueError", "array shape is non-negative")
        return arr(c, r, lambda i: Seq(q, lambda j: zero, "arr", KROLE[role]), KSeq(KROLE[role], "arr"), shape=(r, q))
    c.require(num(shape) >= 0, "ValueError", "array length is non-negative")
    return arr(c, shape, lambda i: zero, KROLE[role])


@lib("numpy.zeros")
def np_zeros(c, a, k):
    return alloc_filled(c, a, k, 0)


@lib("numpy.ones")
def np_ones(c, a, k):
    return alloc_filled(c, a, k, 1)


@lib("numpy.empty")
def np_empty(c, a, k):
    shape = a[0] if a else k["shape"]
    if isinstance(shape, tuple):
        raise Unsupported("np.empty of several dimensions")
    role = role_of(c, a[1] if len(a) > 1 else k.get("dtype"))
    c.require(num(shape) >= 0, "ValueError", "array length is non-negative")
    f = c.family(KSeq(KROLE[role], "arr"), "empty", [])()
    return arr(c, shape, lambda i: f.at(i), KROLE[role])


def to_array(c, v, dtype, copy):
    s = ct(c, v)
    if isinstance(s, (tuple, NT)):
        s = mk_list(c, list(s.vals) if isinstance(s, NT) else list(s))
    if not isinstance(s, Seq):
        raise Unsupported(f"array of {s!r}")
    k = kind_of(c, s)
    if isinstance(k.elem, KBot):
        role = role_of(c, dtype)
        return arr(c, 0, lambda i: c_undefined(), KROLE[role])
    if isinstance(k.elem, KSeq):
        n0 = num(s.at(0).n) if int_const(s.n) != 0 else z3.IntVal(0)
        c.require(All([Int], lambda i: z3.Implies(rng(i, s.n), num(s.at(i).n) == n0)), "ValueError", "rows of the array have equal lengths")
        w = s.at(0).n
        inner = k.elem.elem
        if isinstance(inner, KS) and inner.sort == Int and dtype is not None and role_of(c, dtype) == "float":
            return arr(c, s.n, lambda i: Seq(w, lambda j: real(s.at(i).at(j)), "arr", KReal), None, shape=(s.n, w))
        return arr(c, s.n, lambda i: Seq(w, lambda j: s.at(i).at(j), "arr", inner), None, shape=(s.n, w))
    if isinstance(k.elem, (KConst, KRec, KTuple, KDict)):
        return arr(c, s.n, s.at, k.elem)
    if isinstance(k.elem, KS) and k.elem.sort in (Tok, Val):
        return arr(c, s.n, s.at, k.elem)
    if dtype is None:
        role = {Int: "int", Real: "float", Bool: "bool"}[k.elem.sort] if isinstance(k.elem, KS) else "float"
    else:
        role = role_of(c, dtype)
    if isinstance(k.elem, KS):
        src = {Int: "int", Real: "float", Bool: "bool"}.get(k.elem.sort)
        if src == role:
            if not copy and isinstance(v, Ref) and s.kind == "arr":
                return v
            return arr(c, s.n, s.at, KROLE[role], **{x: y for x, y in s.meta.items() if x in ("fam", "ix", "mk", "items", "concat", "map_len")})
        if src == "float" and role == "int":
            c.prove(z3.BoolVal(False), "no lossy conversion of a real number to an integer")
    return arr(c, s.n, lambda i: coerce(c, s.at(i), role), KROLE[role])


def c_undefined():
    raise Unsupported("element of an empty sequence")


@lib("numpy.array")
def np_array(c, a, k):
    return to_array(c, a[0], a[1] if len(a) > 1 else k.get("dtype"), True)


@lib("numpy.asarray", "numpy.ascontiguousarray")
def np_asarray(c, a, k):
    return to_array(c, a[0], a[1] if len(a) > 1 else k.get("dtype"), False)


@method("arr", "astype")
def arr_astype(c, o, a, k):
    return to_array(c, o, a[0] if a else k["dtype"], True)


@method("arr", "copy")
def arr_copy(c, o, a, k):
    s = ct(c, o)
    return arr(c, s.n, s.at, s.elem, **s.meta)


@method("arr", "tolist")
def arr_tolist(c, o, a, k):
    s = ct(c, o)
    return c.alloc("list", Seq(s.n, s.at, "list", s.elem, dict(s.meta)))


def arr_sum_term(c, s):
    e = elem_sort(c, s)
    if e is None:
        return z3.RealVal(0)
    if "slice_of" in s.meta:
        base, st = s.meta["slice_of"]
        P = fold(c, base, "id", lambda x: x, [], e)
        return P(num(st) + num(s.n)) - P(st)
    P = fold(c, s, "id", lambda x: x, [], e)
    return P(s.n)


@method("arr", "sum")
def arr_sum(c, o, a, k):
    return arr_sum_term(c, ct(c, o))


@lib("numpy.sum")
def np_sum(c, a, k):
    return arr_sum_term(c, ct(c, a[0]))


@method("arr", "mean")
def arr_mean(c, o, a, k):
    s = ct(c, o)
    c.require(num(s.n) > 0, "ZeroDivisionError", "mean of a non-empty array")
    return real(arr_sum_term(c, s)) / real(s.n)


@lib("numpy.mean")
def np_mean(c, a, k):
    return arr_mean(c, to_array(c, a[0], None, False), [], {})


def extremum(c, s, ismax, initial=None, exc="ValueError"):
    items = s.meta.get("items")
    n = num(s.n)
    if initial is None:
        c.require(n > 0, exc, "maximum/minimum of a non-empty sequence")
    k = kind_of(c, s)
    if isinstance(k.elem, KBot):
        return initial
    so = elem_sort(c, s)
    init = None
    if initial is not None:
        init = num(initial)
        if so == Real:
            init = real(init)
        if so == Int and init.sort() == Real:
            raise Unsupported("initial value of another type")
    cache = c.ghost.setdefault("extrema", {})
    probe = z3.Int("ext!p")
    key = (z3.simplify(s.at(probe)).sexpr(), z3.simplify(n).sexpr(), ismax, str(init))
    if key in cache:
        return cache[key]
    m = c.fresh(KS(so), "max" if ismax else "min")
    w = c.fint("argm")
    le = (lambda a, b: a <= b) if ismax else (lambda a, b: a >= b)
    c.assume(All([Int], lambda j: z3.Implies(rng(j, n), le(num(s.at(j)), m)), trig=None))
    has = z3.And(rng(w, n), m == num(s.at(w)))
    if init is None:
        c.assume(has)
    else:
        c.assume(le(init, m))
        c.assume(z3.Or(m == init, has))
    c.hint(w)
    c.ghost.setdefault("argext", {})[key] = w
    cache[key] = m
    return m


@method("arr", "max")
def arr_max(c, o, a, k):
    return extremum(c, ct(c, o), True, k.get("initial"))


@method("arr", "min")
def arr_min(c, o, a, k):
    return extremum(c, ct(c, o), False, k.get("initial"))


@lib("numpy.max", "numpy.amax")
def np_max(c, a, k):
    return extremum(c, ct(c, a[0]), True, k.get("initial"))


@lib("numpy.min", "numpy.amin")
def np_min(c, a, k):
    return extremum(c, ct(c, a[0]), False, k.get("initial"))


@method("arr", "argmin")
def arr_argmin(c, o, a, k):
    s = ct(c, o)
    n = num(s.n)
    c.require(n > 0, "ValueError", "argmin of a non-empty array")
    w = c.fint("argmin")
    c.assume(rng(w, n))
    c.assume(All([Int], lambda j: z3.Implies(rng(j, n), num(s.at(j)) >= num(s.at(w)))))
    c.hint(w)
    return w


def minmax(c, a, k, ismax):
    if len(a) > 1:
        r = num(a[0])
        for x in a[1:]:
            y = num(x)
            if r.sort() != y.sort():
                r, y = real(r), real(y)
            r = z3.If(r >= y, r, y) if ismax else z3.If(r <= y, r, y)
        if all(isinstance(x, (int, Fraction)) for x in a):
            return max(a) if ismax else min(a)
        return z3.simplify(r)
    s = seq(c, a[0])
    dflt = k.get("default")
    items = s.meta.get("items")
    if items is not None and len(items) == 0:
        if "default" in k:
            return dflt
        c.require(z3.BoolVal(False), "ValueError", "max() of a non-empty sequence")
    n = num(s.n)
    so = elem_sort(c, s)
    if "default" not in k:
        return extremum(c, s, ismax)
    # default only for the empty sequence
    m = c.fresh(KS(so), "max" if ismax else "min")
    w = c.fint("argm")
    le = (lambda x, y: x <= y) if ismax else (lambda x, y: x >= y)
    c.assume(All([Int], lambda j: z3.Implies(rng(j, n), le(num(s.at(j)), m))))
    c.assume(z3.Implies(n > 0, z3.And(rng(w, n), m == num(s.at(w)))))
    c.assume(z3.Implies(n <= 0, m == num(dflt)))
    c.hint(w)
    return m


@lib("max")
def b_max(c, a, k):
    return minmax(c, a, k, True)


@lib("min")
def b_min(c, a, k):
    return minmax(c, a, k, False)


def flatten(c, s):
    """Concatenation of a sequence of sequences; rows at offsets OFF."""
    items = s.meta.get("items")
    if items is not None:
        r = None
        for x in items:
            x = ct(c, x)
            r = x if r is None else c.concat(Seq(r.n, r.at, "list", r.elem, r.meta), Seq(x.n, x.at, "list", x.elem, x.meta))
        if r is None:
            return None
        return Seq(r.n, r.at, "arr", r.elem)
    N = num(s.n)
    OFF = fold_term(c, lambda i: num(s.at(i).n), [], Int, N)
    row, col = c.func("flrow", Int, Int), c.func("flcol", Int, Int)
    tot = OFF(N)
    c.assume(All([Int], lambda i: z3.Implies(rng(i, N), z3.And(OFF(i) >= 0, OFF(i + 1) == OFF(i) + num(s.at(i).n), OFF(i + 1) <= tot))))
    c.assume(All([Int, Int], lambda i, j: z3.Implies(z3.And(0 <= i, i <= j, j <= N), OFF(i) <= OFF(j))))
    c.assume(All([Int, Int], lambda i, j: z3.Implies(z3.And(rng(i, N), rng(j, s.at(i).n)),
                 z3.And(row(OFF(i) + j) == i, col(OFF(i) + j) == j, OFF(i) + j < tot)), trig=lambda i, j: OFF(i) + j))
    c.assume(All([Int], lambda p: z3.Implies(rng(p, tot), z3.And(rng(row(p), N), rng(col(p), s.at(row(p)).n), p == OFF(row(p)) + col(p))), trig=lambda p: row(p)))
    c.assume(tot >= 0)
    c.cand_fns.append((Int, lambda t: row(t)))
    c.cand_fns.append((Int, lambda t: col(t)))
    k = kind_of(c, s)
    return Seq(tot, lambda p: s.at(row(num(p))).at(col(num(p))), "arr", k.elem.elem if isinstance(k.elem, KSeq) else None,
               {"flat": (s, OFF, row, col)})


@lib("numpy.concatenate")
def np_concatenate(c, a, k):
    s = ct(c, a[0])
    if isinstance(s, tuple):
        s = mk_list(c, list(s))
    c.require(num(s.n) > 0, "ValueError", "concatenate needs at least one array")
    items = s.meta.get("items")
    kk = kind_of(c, s)
    fl = flatten(c, s)
    el = fl.elem
    if isinstance(el, KBot) or el is None and isinstance(kk.elem, KSeq) and isinstance(kk.elem.elem, KBot):
        el = KReal
    return arr(c, fl.n, fl.at, el, **fl.meta)


@lib("numpy.append")
def np_append(c, a, k):
    x, y = ct(c, to_array(c, a[0], None, False)), a[1]
    y = ct(c, y)
    if not isinstance(y, Seq):
        y = mk_list(c, [y])
    kx, ky = kind_of(c, x).elem, kind_of(c, y).elem
    if isinstance(kx, KS) and isinstance(ky, KS) and kx.sort != ky.sort:
        if ky.sort == Int and kx.sort == Real:
            y = Seq(y.n, (lambda y0: lambda i: real(y0.at(i)))(y), "arr", KReal)
        else:
            raise Unsupported("append of another type")
    s = c.concat(Seq(x.n, x.at, "list", x.elem, {}), Seq(y.n, y.at, "list", y.elem, {}))
    return arr(c, s.n, s.at, kx)


@lib("numpy.cumsum")
def np_cumsum(c, a, k):
    s = ct(c, a[0])
    conc = s.meta.get("concat")
    role = role_of(c, k.get("dtype"), "int")
    if conc is not None:
        x, y = conc
        it = x.meta.get("items")
        if it is not None and len(it) == 1 and it[0] == 0:
            P = fold_term(c, lambda i: num(y.at(i)), [], Int, num(y.n))
            return arr(c, z3.simplify(num(y.n) + 1), lambda i: P(i), KInt)
    P = fold_term(c, lambda i: num(s.at(i)), [], elem_sort(c, s), num(s.n))
    return arr(c, s.n, lambda i: P(num(i) + 1), KROLE[role])


@lib("numpy.add.at")
def np_add_at(c, a, k):
    tgt, idx, vals = a
    T, X, V = ct(c, tgt), ct(c, idx), ct(c, vals)
    n = num(X.n)
    if not isinstance(V, Seq):
        raise Unsupported("add.at of a scalar")
    c.require(num(V.n) == n, "ValueError", "add.at index and values have equal lengths")
    c.require(All([Int], lambda j: z3.Implies(rng(j, n), z3.And(num(X.at(j)) < num(T.n), num(X.at(j)) >= 0))), "IndexError", "add.at indexes in range")
    F = grouped_sum(c, X, V)
    e = kind_of(c, T).elem
    if isinstance(e, KS) and e.sort == Int and elem_sort(c, V) == Real:
        c.prove(z3.BoolVal(False), "no lossy store of a real number into an integer array")
    new = Seq(T.n, lambda d: T.at(d) + F(d), "arr", T.elem)
    if isinstance(tgt, (Ref, View)):
        c.write_seq(tgt, new)
    else:
        I.raise_frame(c, "np.add.at into a borrowed array")
    return None


def grouped_sum(c, X, V):
    """d -> sum of V[p] over the positions p with X[p] == d."""
    if "slice_of" in X.meta and "slice_of" in V.meta:
        (bx, sx), (bv, sv) = X.meta["slice_of"], V.meta["slice_of"]
        if z3.eq(z3.simplify(num(sx)), z3.simplify(num(sv))) or c.entails(num(sx) == num(sv), 1000):
            FS = pair_fold(c, bx, bv)
            s0 = num(sx)
            n = num(X.n)
            return lambda d: FS(z3.simplify(s0 + n), num(d)) - FS(s0, num(d))
    if "flat" in X.meta and "flat" in V.meta:
        s1, O1, r1, c1 = X.meta["flat"]
        s2, O2, r2, c2 = V.meta["flat"]
        N = num(s1.n)
        i, d = z3.Int("gs!i"), z3.Int("gs!d")
        g = c.elementwise(Int, lambda i: rng(i, N), lambda i: GS(grouped_sum(c, s1.at(i), s2.at(i)), c.binders[-1]))
        P = fold_term(c, lambda i, d: g(i).ap(d), [Int], Real, N)
        c.require(z3.And(N == num(s2.n)), "ValueError", "grouped sums over the same rows")
        return lambda d: P(N, num(d))
    P = fold_term(c, lambda p, d: z3.If(num(X.at(p)) == d, V.at(p), z3.RealVal(0) if elem_sort(c, V) == Real else z3.IntVal(0)),
                  [Int], elem_sort(c, V), num(X.n))
    n = num(X.n)
    return lambda d: P(n, num(d))


class GS:
    """Function value usable as an element-wise result."""
    def __init__(self, f, b, x=None):
        self.f, self.b, self.x = f, b, x

    def ap(self, d):
        t = self.f(d)
        return t if self.x is None else z3.substitute(t, (self.b, self.x))


_subst0 = I.Interp.subst


def _subst(self, v, b, x):
    if isinstance(v, GS):
        x = num(x)
        f = v.f
        return GS(lambda d: z3.substitute(f(d), (b, x)), b, None)
    return _subst0(self, v, b, x)


I.Interp.subst = _subst


def pair_fold(c, X, V):
    """FS(p, d): sum of V[q] over q < p with X[q] == d, for the arrays X (documents) and V (values)."""
    z = z3.RealVal(0) if elem_sort(c, V) == Real else z3.IntVal(0)
    return fold_term(c, lambda p, d: z3.If(num(X.at(p)) == d, V.at(p), z), [Int], elem_sort(c, V), None)


# =================================================================== selection primitives
def permutation(c, n, name="perm"):
    """Bijection of 0..n-1 with inverse."""
    p, q = c.func(name, Int, Int), c.func(name + "inv", Int, Int)
    n = num(n)
    c.assume(All([Int], lambda i: z3.Implies(rng(i, n), z3.And(rng(p(i), n), q(p(i)) == i)), trig=lambda i: p(i)))
    c.assume(All([Int], lambda i: z3.Implies(rng(i, n), z3.And(rng(q(i), n), p(q(i)) == i)), trig=lambda i: q(i)))
    c.cand_fns.append((Int, lambda t: p(t)))
    c.cand_fns.append((Int, lambda t: q(t)))
    return p, q


@lib("numpy.argsort")
def np_argsort(c, a, k):
    s = ct(c, a[0])
    p, q = permutation(c, s.n, "argsort")
    c.assume(All([Int, Int], lambda i, j: z3.Implies(z3.And(0 <= i, i <= j, j < num(s.n)), s.at(p(i)) <= s.at(p(j))), trig=lambda i, j: (p(i), p(j))))
    return arr(c, s.n, lambda i: p(i), KInt, nonneg=True)


@lib("numpy.argpartition")
def np_argpartition(c, a, k):
    s = ct(c, a[0])
    kth = num(a[1] if len(a) > 1 else k["kth"])
    n = num(s.n)
    c.require(z3.And(kth < n, kth >= -n), "ValueError", "argpartition kth in range")
    kk = z3.simplify(z3.If(kth < 0, kth + n, kth))
    p, q = permutation(c, s.n, "argpart")
    c.assume(All([Int, Int], lambda i, j: z3.Implies(z3.And(0 <= i, i <= kk, kk <= j, j < n), s.at(p(i)) <= s.at(p(j))), trig=lambda i, j: (p(i), p(j))))
    return arr(c, s.n, lambda i: p(i), KInt, nonneg=True)


@lib("numpy.flip")
def np_flip(c, a, k):
    s = ct(c, a[0])
    n = num(s.n)
    return arr(c, s.n, lambda i: s.at(n - 1 - num(i)), s.elem, nonneg=s.meta.get("nonneg"))


def take(c, s, idx):
    ix = ct(c, idx)
    if not isinstance(ix, Seq):
        ix = seq(c, idx)
    return c.gather(s, ix)


@method("arr", "take")
def arr_take(c, o, a, k):
    return take(c, ct(c, o), a[0] if a else k["indices"])


@lib("numpy.take")
def np_take(c, a, k):
    return take(c, ct(c, a[0]), a[1] if len(a) > 1 else k["indices"])


@lib("jax.lax.top_k")
def jax_topk(c, a, k):
    s = ct(c, a[0])
    kk = num(a[1] if len(a) > 1 else k["k"])
    n = num(s.n)
    if not getattr(c, "x64_scope", 0):
        # without 64-bit mode the scores are rounded before comparison: positions of the k best
        # *rounded* scores and rounded score values
        raise Unsupported("jax.lax.top_k outside enable_x64 rounds float64 scores")
    c.require(z3.And(0 <= kk, kk <= n), "ValueError", "top_k k in range")
    p, q = permutation(c, s.n, "topk")
    c.assume(All([Int, Int], lambda i, j: z3.Implies(z3.And(0 <= i, i <= j, j < n), s.at(p(i)) >= s.at(p(j))), trig=lambda i, j: (p(i), p(j))))
    return (arr(c, kk, lambda i: s.at(p(i)), s.elem), arr(c, kk, lambda i: p(i), KInt, nonneg=True))


@lib("jax.enable_x64", "jax.experimental.enable_x64")
def jax_x64(c, a, k):
    return Opaque("x64", on=a[0] if a else True)


@method("x64", "__enter__")
def x64_enter(c, o, a, k):
    if o.f["on"] is True:
        c.x64_scope = getattr(c, "x64_scope", 0) + 1
    return None


@method("x64", "__exit__")
def x64_exit(c, o, a, k):
    if o.f["on"] is True:
        c.x64_scope -= 1
    return None


# =================================================================== reshaping
@method("arr", "flatten")
def arr_flatten(c, o, a, k):
    s = ct(c, o)
    sh = c.shape_of(s)
    if len(sh) == 1:
        return arr(c, s.n, s.at, s.elem)
    R, K = num(sh[0]), num(sh[1])
    # p = i*K + j
    row = lambda p: num(p) / K
    col = lambda p: num(p) % K
    r, q = c.func("grow", Int, Int), c.func("gcol", Int, Int)
    tot = c.fint("gtotal")
    c.assume(tot == R * K)
    pos = c.func("gpos", Int, Int, Int)
    c.assume(All([Int, Int], lambda i, j: z3.Implies(z3.And(rng(i, R), rng(j, K)), z3.And(rng(pos(i, j), tot), r(pos(i, j)) == i, q(pos(i, j)) == j)), trig=lambda i, j: pos(i, j)))
    c.assume(All([Int], lambda p: z3.Implies(rng(p, tot), z3.And(rng(r(p), R), rng(q(p), K), pos(r(p), q(p)) == p)), trig=lambda p: r(p)))
    return arr(c, tot, lambda p: s.at(r(num(p))).at(q(num(p))), elem_of2(c, s), grid2=(R, K, r, q, pos))


def elem_of2(c, s):
    k = kind_of(c, s)
    return k.elem.elem if isinstance(k.elem, KSeq) else None


@method("arr", "reshape")
def arr_reshape(c, o, a, k):
    s = ct(c, o)
    shp = a[0] if len(a) == 1 else tuple(a)
    if isinstance(shp, tuple) and len(shp) == 2:
        g = find_grid(s)
        R, K = num(shp[0]), num(shp[1])
        if g is not None:
            R0, K0, r, q, pos = g
            if c.entails(z3.And(R0 == R, K0 == K), 1000):
                return arr(c, R, lambda i: Seq(K, lambda j: s.at(pos(num(i), num(j))), "arr", None), None, shape=(shp[0], shp[1]))
    if isinstance(shp, tuple) and len(shp) == 1:
        c.require(num(shp[0]) == num(s.n), "ValueError", "reshape keeps the number of elements")
        return o
    raise Unsupported("reshape")


def find_grid(s):
    if "grid2" in s.meta:
        return s.meta["grid2"]
    if "map" in s.meta:
        return find_grid(s.meta["map"][0])
    return None


# =================================================================== scipy
@lib("scipy.sparse.csc_matrix")
def csc_matrix(c, a, k):
    vals, pos = a[0]
    rows, cols = pos
    V, R, Cc = ct(c, vals), ct(c, rows), ct(c, cols)
    n, m = k["shape"] if "shape" in k else a[1]
    n, m = num(n), num(m)
    L = num(V.n)
    c.require(z3.And(num(R.n) == L, num(Cc.n) == L), "ValueError", "coordinate arrays have equal lengths")
    c.require(z3.And(n >= 0, m >= 0), "ValueError", "matrix shape is non-negative")
    c.require(All([Int], lambda p: z3.Implies(rng(p, L), z3.And(rng(R.at(p), n), rng(Cc.at(p), m)))), "ValueError", "coordinates in range")
    d = All([Int, Int], lambda p, q: z3.Implies(z3.And(0 <= p, p < q, q < L), z3.Or(R.at(p) != R.at(q), Cc.at(p) != Cc.at(q))))
    c.prove(d, "coordinates are distinct (no postings are summed)")
    if "dtype" in k and role_of(c, k["dtype"]) != "float":
        c.prove(z3.BoolVal(False), "no lossy conversion of a real number to an integer")
    # postings are permuted into column order
    dat = c.family(KSeq(KReal, "arr"), "csc.data", [])()
    ind = c.family(KSeq(KInt, "arr"), "csc.indices", [])()
    ptr = c.family(KSeq(KInt, "arr"), "csc.indptr", [])()
    c.assume(z3.And(num(dat.n) == L, num(ind.n) == L, num(ptr.n) == m + 1))
    p, q = permutation(c, L, "csc")            # p: csc position -> coordinate position
    c.assume(All([Int], lambda i: z3.Implies(rng(i, L), z3.And(dat.at(i) == V.at(p(i)), ind.at(i) == R.at(p(i)),
                 ptr.at(Cc.at(p(i))) <= i, i < ptr.at(Cc.at(p(i)) + 1))), trig=lambda i: p(i)))
    c.assume(z3.And(ptr.at(0) == 0, ptr.at(m) == L))
    c.assume(All([Int, Int], lambda i, j: z3.Implies(z3.And(0 <= i, i <= j, j <= m), ptr.at(i) <= ptr.at(j)), trig=lambda i, j: (ptr.at(i), ptr.at(j))))
    c.assume(All([Int, Int], lambda v, i: z3.Implies(z3.And(rng(v, m), ptr.at(v) <= i, i < ptr.at(v + 1)), Cc.at(p(i)) == v), trig=lambda v, i: (ptr.at(v), p(i))))
    o = Opaque("csc", data=c.alloc("arr", dat), indices=c.alloc("arr", ind), indptr=c.alloc("arr", ptr), shape=(n, m))
    o.f["perm"] = (p, q)
    c.ghost["csc"] = (p, q, dat, ind, ptr, V, R, Cc, n, m, L)
    # column sums: the entry of (d, v) is the value of its coordinate, 0 if there is none
    FS = pair_fold(c, ind, dat)
    COL = lambda v, d: FS(ptr.at(v + 1), d) - FS(ptr.at(v), d)
    c.assume(All([Int], lambda x: z3.Implies(rng(x, L), COL(Cc.at(x), R.at(x)) == V.at(x))))
    has = c.func("cschas", Int, Int, Bool)
    wit = c.func("cscwit", Int, Int, Int)
    c.assume(All([Int, Int], lambda v, d: z3.Implies(z3.And(rng(v, m), has(v, d)), z3.And(rng(wit(v, d), L), Cc.at(wit(v, d)) == v, R.at(wit(v, d)) == d)), trig=lambda v, d: has(v, d)))
    c.assume(All([Int, Int], lambda v, d: z3.Implies(z3.And(rng(v, m), z3.Not(has(v, d))), COL(v, d) == 0), trig=lambda v, d: has(v, d)))
    c.assume(All([Int], lambda x: z3.Implies(rng(x, L), has(Cc.at(x), R.at(x)))))
    c.ghost["csc_has"] = (has, wit, COL)
    return o


@lib("collections.Counter")
def counter(c, a, k):
    s = seq(c, a[0])
    e = elem_sort(c, s)
    if e is None:
        return c.alloc("dict", I.empty_dict(c))
    n, at, pos = distinct(c, s)
    mem = members(c, s)
    CN = count_of(c, s)
    return c.alloc("dict", DictV(mem, lambda t: CN(s.n, t), n, lambda j: at(j), lambda t: pos(t), e))


# =================================================================== math
def LOG():
    return z3.Function("log", Real, Real)


def log_axioms(c):
    if c.ghost.get("log"):
        return
    c.ghost["log"] = True
    L = LOG()
    c.assume(L(z3.RealVal(1)) == 0)
    c.assume(All([Real, Real], lambda x, y: z3.Implies(z3.And(0 < x, x <= y), L(x) <= L(y)), trig=lambda x, y: (L(x), L(y))))
    c.cands.append(z3.RealVal(1))


@lib("math.log", "numpy.log")
def math_log(c, a, k):
    if len(a) > 1:
        raise Unsupported("logarithm with a base")
    x = real(a[0])
    c.require(x > 0, "ValueError", "argument of log is positive")
    log_axioms(c)
    c.hint(x)
    return LOG()(x)


# =================================================================== builtins
@lib("len")
def b_len(c, a, k):
    v = a[0]
    s = ct(c, v)
    if isinstance(s, Seq):
        return s.n
    if isinstance(s, (DictV, SetV)):
        if isinstance(s, SetV) and s.size is None:
            c.set_enum(s)
        return s.size
    if isinstance(s, RecV):
        return len(s.items)
    if isinstance(s, (tuple, str)):
        return len(s)
    if isinstance(s, NT):
        m = c.find_method(s.cls, "__len__")
        return c.call(BoundV(m, v), [], {}) if m is not None else len(s.vals)
    if isinstance(s, ObjC):
        m = c.find_method(s.cls, "__len__") if isinstance(s.cls, ClassV) else None
        if m is not None:
            return c.call(BoundV(m, v), [], {})
        h = METHODS.get(("obj:" + str(s.cls), "__len__"))
        if h:
            return h(c, v, [], {})
    if is_z3(s) and s.sort() == Tok:
        f = z3.Function("str.len", Tok, Int)
        c.assume(f(s) >= 0)
        c.assume((f(s) == 0) == (s == tok_lit("")))
        return f(s)
    if isinstance(s, Opaque):
        return c.call_method(s, "__len__", [], {})
    raise Unsupported(f"len of {s!r}")


@lib("range", "numba.prange")
def b_range(c, a, k):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
        if int_const(st) is None:
            raise Unsupported("symbolic range step")
    l, h = int_const(lo), int_const(hi)
    stc = int_const(st)
    if l is not None and h is not None:
        r = range(l, h, stc)
        if len(r) <= 60:
            return mk_list(c, list(r), "range")
    if stc == 1:
        lo, hi = num(lo), num(hi)
        d = z3.simplify(hi - lo)
        n = d if c.entails(d >= 0, 800) else z3.If(hi > lo, hi - lo, z3.IntVal(0))
        return Seq(z3.simplify(n), lambda i: z3.simplify(lo + num(i)), "range", KInt, {"range": (lo, hi)})
    if stc == -1:
        lo, hi = num(lo), num(hi)
        n = z3.If(lo > hi, lo - hi, z3.IntVal(0))
        return Seq(z3.simplify(n), lambda i: z3.simplify(lo - num(i)), "range", KInt)
    raise Unsupported("range step")


def _iter_of(c, v):
    s = seq(c, v)
    return s


@lib("enumerate")
def b_enumerate(c, a, k):
    s = _iter_of(c, a[0])
    st = a[1] if len(a) > 1 else k.get("start", 0)
    items = s.meta.get("items")
    if items is not None:
        return mk_list(c, [(st + i, x) for i, x in enumerate(items)], "iter")
    return Seq(s.n, lambda i: (z3.simplify(num(i) + num(st)), s.at(i)), "iter", None, {k2: s.meta[k2] for k2 in ("live",) if k2 in s.meta} | {"enum": s})


@lib("zip")
def b_zip(c, a, k):
    if len(a) == 1 and isinstance(a[0], StarSeq):
        s = a[0].seq
        # zip(*pairs): two parallel tuples (needs at least one pair)
        c.require(num(s.n) > 0, "ValueError", "zip(*rows) of at least one row")
        w = s.at(0)
        if not isinstance(w, tuple):
            raise Unsupported("zip of rows of unknown width")
        return mk_list(c, [Seq(s.n, (lambda q: lambda i: s.at(i)[q])(q), "tuple") for q in range(len(w))], "iter")
    ss = [_iter_of(c, x) for x in a]
    if all(s.meta.get("items") is not None for s in ss):
        return mk_list(c, list(zip(*[s.meta["items"] for s in ss])), "iter")
    n = num(ss[0].n)
    for s in ss[1:]:
        m = num(s.n)
        if not z3.eq(z3.simplify(n), z3.simplify(m)):
            if c.entails(n <= m, 800):
                continue
            if c.entails(m <= n, 800):
                n = m
                continue
            n = z3.If(n <= m, n, m)
    return Seq(n, lambda i: tuple(s.at(i) for s in ss), "iter", None, {"zip": ss})


@lib("map")
def b_map(c, a, k):
    f = a[0]
    s = _iter_of(c, a[1])
    items = s.meta.get("items")
    if items is not None:
        return mk_list(c, [c.call(f, [x], {}) for x in items], "iter")
    val = c.elementwise(Int, lambda j: rng(j, s.n), lambda j: c.call(f, [s.at(j)], {}))
    return Seq(s.n, lambda i: val(num(i)), "iter", None, {"map": (s, val)})


@lib("list")
def b_list(c, a, k):
    if not a:
        return c.alloc("list", mk_list(c, []))
    s = _iter_of(c, a[0])
    return c.alloc("list", Seq(s.n, s.at, "list", s.elem, {x: y for x, y in s.meta.items() if x not in ("live",)}))


@lib("iter")
def b_iter(c, a, k):
    s = _iter_of(c, a[0])
    return Seq(s.n, s.at, "iter", s.elem, s.meta)


@lib("reversed")
def b_reversed(c, a, k):
    s = _iter_of(c, a[0])
    it = s.meta.get("items")
    if it is not None:
        return mk_list(c, list(reversed(it)), "iter")
    n = num(s.n)
    return Seq(s.n, lambda i: s.at(n - 1 - num(i)), "iter", s.elem)


@lib("tuple")
def b_tuple(c, a, k):
    if not a:
        return ()
    s = _iter_of(c, a[0])
    if s.meta.get("items") is not None:
        return tuple(s.meta["items"])
    return Seq(s.n, s.at, "tuple", s.elem, s.meta)


@lib("set", "frozenset")
def b_set(c, a, k):
    if not a:
        return c.alloc("set", lit_set(c, []))
    v = ct(c, a[0])
    if isinstance(v, SetV):
        return c.alloc("set", v)
    return c.alloc("set", set_of_seq(c, _iter_of(c, a[0])))


@lib("dict")
def b_dict(c, a, k):
    if not a:
        return c.alloc("dict", RecV(k))
    v = ct(c, a[0])
    if isinstance(v, (DictV, RecV)):
        if k:
            raise Unsupported("dict(mapping, **kw)")
        return c.alloc("dict", v)
    return c.alloc("dict", dict_of_pairs(c, _iter_of(c, a[0])))


@lib("int")
def b_int(c, a, k):
    v = a[0]
    if isinstance(v, (int, Fraction)):
        return int(v)
    if is_z3(v):
        if v.sort() == Int:
            return v
        if v.sort() == Real:
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if v.sort() == Bool:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if v.sort() == Tok:
            return z3.Function("int.parse", Tok, Int)(v)
    raise Unsupported("int()")


@lib("float", "numpy.float32", "numpy.float64")
def b_float(c, a, k):
    v = a[0]
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    if is_z3(v) and v.sort() in (Int, Real):
        return real(v)
    raise Unsupported("float()")


@lib("bool")
def b_bool(c, a, k):
    return c.truth(a[0])


@lib("str")
def b_str(c, a, k):
    v = a[0]
    if isinstance(v, (str,)):
        return v
    if isinstance(v, int) and not isinstance(v, bool):
        return str(v)
    if is_z3(v) and v.sort() == Tok:
        return v
    if isinstance(v, Opaque) and "tok" in v.f:
        return v.f["tok"]
    if is_z3(v):
        return z3.Function(f"str.of{v.sort()}", v.sort(), Tok)(v)
    raise Unsupported("str()")


@lib("abs")
def b_abs(c, a, k):
    x = num(a[0])
    return z3.If(x >= 0, x, -x)


@lib("sum")
def b_sum(c, a, k):
    s = _iter_of(c, a[0])
    items = s.meta.get("items")
    if items is not None:
        r = a[1] if len(a) > 1 else 0
        for x in items:
            r = c.binop("Add", r, x)
        return r
    if len(a) > 1:
        raise Unsupported("sum with a start value")
    e = elem_sort(c, s)
    if e == Bool:
        P = fold(c, s, "ind", lambda x: z3.If(x, z3.IntVal(1), z3.IntVal(0)), [], Int)
        return P(s.n)
    if "dict_values" in s.meta:
        d = s.meta["dict_values"]
        P = fold_term(c, lambda p: num(d.val(d.key_at(p))), [], e, num(s.n))
        c.ghost.setdefault("dictsums", []).append((d, P))
        return P(s.n)
    P = fold(c, s, "id", lambda x: x, [], e)
    return P(s.n)


def quant(c, s, forall):
    items = s.meta.get("items")
    if items is not None:
        r = None
        for x in items:
            t = c.truth(x)
            t = z3.BoolVal(t) if isinstance(t, bool) else t
            r = t if r is None else (z3.And(r, t) if forall else z3.Or(r, t))
        if r is None:
            return forall
        b = as_bool_const(r)
        return r if b is None else b
    n = num(s.n)
    p = lambda j: (lambda t: z3.BoolVal(t) if isinstance(t, bool) else t)(c.truth(s.at(j)))
    probe = z3.Int("qp!j")
    t0 = as_bool_const(z3.simplify(p(probe)))
    if t0 is not None:
        if t0 == forall:
            return forall
        return z3.simplify(n == 0) if forall else z3.simplify(n > 0)
    r = c.fresh(KBool, "all" if forall else "any")
    w = c.fint("qw")
    if forall:
        c.assume(All([Int], lambda j: z3.Implies(z3.And(r, rng(j, n)), p(j))))
        c.assume(z3.Implies(z3.Not(r), z3.And(rng(w, n), z3.Not(p(w)))))
    else:
        c.assume(All([Int], lambda j: z3.Implies(z3.And(z3.Not(r), rng(j, n)), z3.Not(p(j)))))
        c.assume(z3.Implies(r, z3.And(rng(w, n), p(w))))
    c.hint(w)
    return r


@lib("all", "numpy.all")
def b_all(c, a, k):
    return quant(c, _iter_of(c, a[0]), True)


@lib("any", "numpy.any")
def b_any(c, a, k):
    return quant(c, _iter_of(c, a[0]), False)


def type_test(c, v, t):
    """isinstance(v, t) for one type."""
    if isinstance(t, ClassV):
        if isinstance(v, NT):
            return isinstance(v.cls, ClassV) and v.cls.name == t.name
        if isinstance(v, Ref) and isinstance(c.heap[v.id], ObjC):
            cl = c.heap[v.id].cls
            if isinstance(cl, ClassV):
                return c.is_subclass(cl, t.name)
            return str(cl) == t.name
        if is_z3(v) and v.sort() == Val:
            return z3.Function(f"is:{t.name}", Val, Bool)(v)
        return False
    if not isinstance(t, LibV):
        raise Unsupported("isinstance type")
    n = t.path.split(".")[-1]
    s = ct(c, v)
    if is_z3(s) and s.sort() == Val:
        return z3.Function(f"is:{n}", Val, Bool)(s)
    if n == "Iterable":
        if isinstance(s, ObjC):
            if isinstance(s.cls, ClassV):
                return c.find_method(s.cls, "__iter__") is not None
            return ("obj:" + str(s.cls), "__iter__") in METHODS
        return isinstance(s, (Seq, tuple, NT, DictV, RecV, SetV, str)) or (is_z3(s) and s.sort() == Tok)
    if isinstance(s, bool) or is_z3(s) and s.sort() == Bool:
        return n in ("bool", "int")
    if isinstance(s, int) or is_z3(s) and s.sort() == Int:
        return n in ("int", "Integral", "Number")
    if isinstance(s, (Fraction, float)) or is_z3(s) and s.sort() == Real:
        return n in ("float", "Number", "Real")
    if isinstance(s, str) or is_z3(s) and s.sort() == Tok:
        return n == "str"
    if isinstance(s, Seq):
        return {"list": s.kind == "list", "tuple": s.kind == "tuple", "ndarray": s.kind == "arr", "range": s.kind == "range"}.get(n, False)
    if isinstance(s, tuple):
        return n == "tuple"
    if isinstance(s, NT):
        return n == "tuple"
    if isinstance(s, (DictV, RecV)):
        return n in ("dict", "Mapping")
    if isinstance(s, SetV):
        return n == "set"
    if isinstance(s, SliceV):
        return n == "slice"
    if isinstance(s, (type(None), ObjC, Opaque, FuncV, AbsFn, PartialV, BoundV, LibV)):
        if isinstance(s, Opaque):
            return s.f.get("pytype") == n
        return False
    raise Unsupported(f"isinstance of {s!r}")


@lib("isinstance")
def b_isinstance(c, a, k):
    v, t = a
    ts = list(t) if isinstance(t, tuple) else [t]
    r = False
    for x in ts:
        y = type_test(c, v, x)
        if y is True:
            return True
        if y is False:
            continue
        r = y if r is False else z3.Or(r, y)
    return r


@lib("hasattr")
def b_hasattr(c, a, k):
    v, n = a
    if isinstance(v, Ref) and isinstance(c.heap[v.id], ObjC):
        o = c.heap[v.id]
        if n in o.fields:
            return True
        return isinstance(o.cls, ClassV) and c.find_method(o.cls, n) is not None
    if isinstance(v, NT):
        return n in v.names
    if isinstance(v, Opaque):
        return n in v.f or n in v.f.get("attrs", ())
    if isinstance(v, AbsFn):
        return n in v.attrs
    return False


@lib("callable")
def b_callable(c, a, k):
    v = a[0]
    if isinstance(v, (FuncV, BoundV, PartialV, AbsFn, ClassV, LibV)) or isinstance(v, I.BuiltinMethod):
        return True
    if isinstance(v, Opaque):
        return bool(v.f.get("callable"))
    return False


@lib("print")
def b_print(c, a, k):
    return None


@lib("round")
def b_round(c, a, k):
    x = num(a[0])
    f = z3.Function("round", Real, Int, Real)
    if len(a) > 1:
        return f(real(x), num(a[1]))
    raise Unsupported("round to int")


@lib("type")
def b_type(c, a, k):
    v = a[0]
    if isinstance(v, Ref) and isinstance(c.heap[v.id], ObjC):
        return c.heap[v.id].cls
    raise Unsupported("type()")


@lib("functools.partial")
def b_partial(c, a, k):
    return PartialV(a[0], a[1:], k)


@lib("tqdm.auto.tqdm", "tqdm.tqdm")
def b_tqdm(c, a, k):
    if a:
        return a[0]
    if "iterable" in k:
        return k["iterable"]
    return Opaque("pbar")


@method("pbar", "update")
def pbar_update(c, o, a, k):
    return None


@method("pbar", "close")
def pbar_close(c, o, a, k):
    return None


@lib("numba.njit", "numba.jit")
def njit(c, a, k):
    if a and isinstance(a[0], (FuncV, BoundV)):
        return a[0]
    return AbsFn("njit", lambda c2, a2, k2: a2[0])


@lib("logging.getLogger")
def get_logger(c, a, k):
    return Opaque("logger")


for _n in ("debug", "info", "warning", "error", "setLevel"):
    METHODS[("logger", _n)] = lambda c, o, a, k: None
    LIB["logging." + _n] = lambda c, a, k: None


# =================================================================== list / dict / set methods
@method("list", "append")
def list_append(c, o, a, k):
    if not isinstance(o, Ref):
        I.raise_frame(c, "append to a borrowed list")
    s = c.heap[o.id]
    v = a[0]
    items = s.meta.get("items")
    if items is not None and len(items) < 60 and s.meta.get("fam") is None:
        c.put(o, mk_list(c, list(items) + [v], "list"))
        return None
    fv = c.frozen(v)
    n = num(s.n)
    at0 = s.at
    e0 = s.elem
    if e0 is not None and not isinstance(e0, KBot):
        kv = I.strip(kind_of(c, fv))
        j = I.join(e0, kv)
        e1 = None if isinstance(j, I.KPoison) else j
    else:
        e1 = None
    c.put(o, Seq(z3.simplify(n + 1), lambda i: c.ite(num(i) == n, fv, at0(i)) if not isinstance(e0, KBot) else fv, "list", e1, {"append": (s, fv)}))
    return None


@method("list", "extend")
def list_extend(c, o, a, k):
    if not isinstance(o, Ref):
        I.raise_frame(c, "extend of a borrowed list")
    s = c.heap[o.id]
    x = _iter_of(c, a[0])
    c.put(o, c.concat(s, Seq(x.n, x.at, "list", x.elem, x.meta)))
    return None


@method("list", "copy")
def list_copy(c, o, a, k):
    s = ct(c, o)
    return c.alloc("list", s)


@method("dict", "items")
def dict_items(c, o, a, k):
    d = ct(c, o)
    if isinstance(d, RecV):
        return mk_list(c, [(x, y) for x, y in d.items.items()], "iter")
    if d.ksort is None:
        return mk_list(c, [], "iter")
    return Seq(d.size, lambda j: (d.key_at(j), d.val(d.key_at(j))), "iter", None, {"dict_items": d})


@method("dict", "keys")
def dict_keys(c, o, a, k):
    d = ct(c, o)
    return c.iter_seq(d)


@method("dict", "values")
def dict_values(c, o, a, k):
    d = ct(c, o)
    if isinstance(d, RecV):
        return mk_list(c, list(d.items.values()), "iter")
    if d.ksort is None:
        return mk_list(c, [], "iter")
    return Seq(d.size, lambda j: d.val(d.key_at(j)), "iter", None, {"dict_values": d})


@method("dict", "get")
def dict_get(c, o, a, k):
    d = ct(c, o)
    dflt = a[1] if len(a) > 1 else k.get("default")
    if isinstance(d, RecV) and isinstance(a[0], str):
        return d.items.get(a[0], dflt)
    if isinstance(d, DictV):
        if d.ksort is None:
            return dflt
        kk = c.key(a[0], d)
        if kk is None:
            return dflt
        if c.binders:
            return c.ite(d.dom(kk), d.val(kk), dflt)
        if c.branch(d.dom(kk)):
            return d.val(kk)
        return dflt
    raise Unsupported("dict.get")


@method("dict", "setdefault")
def dict_setdefault(c, o, a, k):
    if not isinstance(o, Ref):
        I.raise_frame(c, "setdefault on a borrowed dictionary")
    d = ct(c, o)
    key, dflt = a[0], (a[1] if len(a) > 1 else None)
    if isinstance(d, RecV) and isinstance(key, str):
        if key not in d.items:
            it = dict(d.items)
            it[key] = dflt
            c.put(o, RecV(it))
            return dflt
        return d.items[key]
    if isinstance(d, RecV) and not d.items or isinstance(d, DictV) and d.ksort is None:
        c.setitem(o, key, dflt)
        return Elem(o, key) if isinstance(ct(c, dflt), (DictV, RecV, Seq)) and isinstance(dflt, Ref) else dflt
    kk = c.key(key, d)
    if c.branch(d.dom(kk)):
        v = d.val(kk)
    else:
        c.setitem(o, key, dflt)
        v = dflt
    if isinstance(ct(c, v), (DictV, RecV, Seq)):
        return Elem(o, kk)
    return v


class Elem:
    """Reference to a mutable value stored inside a dictionary (d[key] as an lvalue)."""
    def __init__(self, owner, key):
        self.owner, self.key = owner, key


_setitem0, _getitem0 = I.Interp.setitem, I.Interp.getitem


def _setitem(self, base, idx, v):
    if isinstance(base, Elem):
        cur = self.getitem(base.owner, base.key)
        tmp = self.alloc("dict", self.content(cur) if isinstance(cur, (Ref, View)) else cur)
        _setitem0(self, tmp, idx, v)
        _setitem0(self, base.owner, base.key, self.heap[tmp.id])
        return
    return _setitem0(self, base, idx, v)


I.Interp.setitem = _setitem


@method("dict", "pop")
def dict_pop(c, o, a, k):
    d = ct(c, o)
    if not isinstance(o, Ref):
        I.raise_frame(c, "pop from a borrowed dictionary")
    if isinstance(d, RecV) and isinstance(a[0], str):
        if a[0] in d.items:
            it = dict(d.items)
            v = it.pop(a[0])
            c.put(o, RecV(it))
            return v
        if len(a) > 1:
            return a[1]
        if c.catching("KeyError"):
            raise PyRaise(ExcV("KeyError"))
        c.prove(z3.BoolVal(False), f"key {a[0]!r} present")
        raise PathEnd()
    raise Unsupported("dict.pop")


@method("dict", "copy")
def dict_copy(c, o, a, k):
    return c.alloc("dict", ct(c, o))


@method("dict", "update")
def dict_update(c, o, a, k):
    s = ct(c, a[0]) if a else RecV(k)
    if isinstance(s, RecV):
        for x, y in s.items.items():
            c.setitem(o, x, y)
        return None
    raise Unsupported("dict.update")


def as_set(c, v):
    s = ct(c, v)
    if isinstance(s, SetV):
        return s
    return set_of_seq(c, _iter_of(c, v))


@method("set", "update")
def set_update(c, o, a, k):
    if not isinstance(o, Ref):
        I.raise_frame(c, "update of a borrowed set")
    s, t = ct(c, o), as_set(c, a[0])
    c.put(o, set_union(c, s, t))
    return None


def set_union(c, s, t):
    if s.lit is not None and t.lit is not None:
        return lit_set(c, list(s.lit) + list(t.lit))
    if s.ksort is None:
        return SetV(t.mem, t.size, t.ksort, t.meta)
    if t.ksort is None:
        return s
    return SetV(lambda x: z3.Or(s.mem(x), t.mem(x)), None, s.ksort)


@method("set", "union")
def m_union(c, o, a, k):
    return c.alloc("set", set_union(c, ct(c, o), as_set(c, a[0])))


@method("set", "add")
def set_add(c, o, a, k):
    if not isinstance(o, Ref):
        I.raise_frame(c, "add to a borrowed set")
    s = ct(c, o)
    v = a[0]
    t = tok_lit(v) if isinstance(v, str) else num(v)
    c.put(o, set_union(c, s, SetV(lambda x: x == t, z3.IntVal(1), t.sort())))
    return None


@method("set", "intersection")
def set_inter(c, o, a, k):
    s, t = ct(c, o), as_set(c, a[0])
    if s.ksort is None or t.ksort is None:
        return c.alloc("set", lit_set(c, []))
    return c.alloc("set", SetV(lambda x: z3.And(s.mem(x), t.mem(x)), None, s.ksort))


@method("set", "difference")
def set_diff(c, o, a, k):
    s, t = ct(c, o), as_set(c, a[0])
    if s.ksort is None or t.ksort is None:
        return c.alloc("set", s)
    return c.alloc("set", SetV(lambda x: z3.And(s.mem(x), z3.Not(t.mem(x))), None, s.ksort))


# =================================================================== strings
@method("str", "lower")
def str_lower(c, o, a, k):
    return o.lower() if isinstance(o, str) else z3.Function("str.lower", Tok, Tok)(o)


@method("str", "strip")
def str_strip(c, o, a, k):
    return o.strip() if isinstance(o, str) else z3.Function("str.strip", Tok, Tok)(o)


@method("str", "startswith")
def str_starts(c, o, a, k):
    if isinstance(o, str) and isinstance(a[0], str):
        return o.startswith(a[0])
    return z3.Function("str.startswith", Tok, Tok, Bool)(c.tok(o), c.tok(a[0]))


@method("str", "join")
def str_join(c, o, a, k):
    s = _iter_of(c, a[0])
    it = s.meta.get("items")
    if it is not None and all(isinstance(x, str) for x in it) and isinstance(o, str):
        return o.join(it)
    raise Unsupported("str.join")


@method("str", "format")
def str_format(c, o, a, k):
    if isinstance(o, str):
        vals = list(a) + [k[x] for x in sorted(k)]
        try:
            return c.fmt("format:" + o[:60] + ":" + ",".join(sorted(k)), [v for v in vals])
        except Unsupported:
            return c.fresh(KTok, "fmt")
    raise Unsupported("str.format")
