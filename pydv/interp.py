"""Statement and expression semantics (mixed into Path)."""
from __future__ import annotations
import ast, builtins
from fractions import Fraction
import z3
from .vals import *
from . import engine as E
from .engine import (Path, Frame, All, Imp, KS, KSeq, KDict, KSet, KRec, KTuple, KHeap, KConst, KBot, KObj,
                     KPoison, KInt, KReal, KBool, KTok, KVal, Poison, CONTRACTS, Oblig, RestartEx, Deadline,
                     tok_lit, flat_formula, short, LoopSpec)

LIB = {}
METHODS = {}
GLOBAL_OVERRIDES = {}


def lib(*names):
    def deco(f):
        for n in names:
            LIB[n] = f
        return f
    return deco


def method(tag, name):
    def deco(f):
        METHODS[(tag, name)] = f
        return f
    return deco


# ---------------------------------------------------------------- kinds of values
def kind_of(c, v):
    if isinstance(v, bool):
        return KBool
    if isinstance(v, int):
        return KInt
    if isinstance(v, (float, Fraction)):
        return KReal
    if isinstance(v, str):
        return KTok
    if v is None:
        return KConst(None)
    if is_z3(v):
        return KS(v.sort())
    if isinstance(v, Ref):
        ct = c.heap[v.id]
        if isinstance(ct, ObjC):
            return KConst(v)
        return KHeap(v.tag, kind_of(c, ct))
    if isinstance(v, View):
        return kind_of(c, c.content(v))
    if isinstance(v, Seq):
        if v.elem is not None and not isinstance(v.elem, KBot):
            return KSeq(v.elem, v.kind)
        items = v.meta.get("items")
        if items is not None:
            k = KBot()
            for x in items:
                k = join(k, kind_of(c, x))
            return KSeq(strip(k), v.kind)
        n = int_const(v.n)
        if n == 0:
            return KSeq(KBot(), v.kind)
        return KSeq(strip(kind_of(c, v.at(z3.Int("kind!i")))), v.kind)
    if isinstance(v, tuple):
        return KTuple([strip(kind_of(c, x)) for x in v])
    if isinstance(v, RecV):
        return KRec({k: kind_of(c, x) for k, x in v.items.items()})
    if isinstance(v, DictV):
        k = v.meta.get("kind")
        if k is not None:
            return k
        if v.ksort is None:
            return KDict(KBot(), KBot())
        t = z3.Const("kind!k", v.ksort)
        return KDict(KS(v.ksort), strip(kind_of(c, v.val(t))))
    if isinstance(v, SetV):
        return KSet(KS(v.ksort) if v.ksort is not None else KBot())
    return KConst(v)


def strip(k):
    """Kind of a value once stored inside a container (heap objects become borrowed values)."""
    if isinstance(k, KHeap):
        return k.content
    return k


def same_kind(a, b):
    return repr_kind(a) == repr_kind(b)


def repr_kind(k):
    if isinstance(k, KS):
        return f"S:{k.sort}"
    if isinstance(k, KSeq):
        return f"Seq({repr_kind(k.elem)},{k.kind})"
    if isinstance(k, KDict):
        return f"Dict({repr_kind(k.key)},{repr_kind(k.val)})"
    if isinstance(k, KSet):
        return f"Set({repr_kind(k.key)})"
    if isinstance(k, KRec):
        return "Rec(" + ",".join(f"{a}:{repr_kind(b)}" for a, b in sorted(k.items.items())) + ")"
    if isinstance(k, KTuple):
        return "T(" + ",".join(repr_kind(x) for x in k.items) + ")"
    if isinstance(k, KHeap):
        return f"H({k.tag},{repr_kind(k.content)})"
    if isinstance(k, KConst):
        return f"C({id(k.v)})" if not isinstance(k.v, Ref) else f"C(Ref{k.v.id})"
    return type(k).__name__


def join(a, b):
    if isinstance(a, KBot):
        return b
    if isinstance(b, KBot):
        return a
    if same_kind(a, b):
        return a
    if isinstance(a, KPoison) or isinstance(b, KPoison):
        return KPoison()
    if isinstance(a, KS) and isinstance(b, KS):
        if {a.sort, b.sort} <= {Int, Real}:
            return KReal
        return KPoison()
    if isinstance(a, KSeq) and isinstance(b, KSeq):
        e = join(a.elem, b.elem)
        return KPoison() if isinstance(e, KPoison) else KSeq(e, a.kind if a.kind == b.kind else "list")
    if isinstance(a, KDict) and isinstance(b, KDict):
        k, v = join(a.key, b.key), join(a.val, b.val)
        return KPoison() if isinstance(k, KPoison) or isinstance(v, KPoison) else KDict(k, v)
    if isinstance(a, KSet) and isinstance(b, KSet):
        k = join(a.key, b.key)
        return KPoison() if isinstance(k, KPoison) else KSet(k)
    if isinstance(a, KHeap) and isinstance(b, KHeap) and a.tag == b.tag:
        e = join(a.content, b.content)
        return KPoison() if isinstance(e, KPoison) else KHeap(a.tag, e)
    if isinstance(a, KHeap) and not isinstance(b, KHeap):
        return join(a, KHeap(a.tag, b))
    if isinstance(b, KHeap) and not isinstance(a, KHeap):
        return join(b, KHeap(b.tag, a))
    if isinstance(a, KTuple) and isinstance(b, KTuple) and len(a.items) == len(b.items):
        it = [join(x, y) for x, y in zip(a.items, b.items)]
        return KPoison() if any(isinstance(x, KPoison) for x in it) else KTuple(it)
    if isinstance(a, KRec) and isinstance(b, KRec) and set(a.items) == set(b.items):
        it = {k: join(a.items[k], b.items[k]) for k in a.items}
        return KPoison() if any(isinstance(x, KPoison) for x in it.values()) else KRec(it)
    if isinstance(a, KRec) and isinstance(b, KDict):
        return b if not a.items else KPoison()
    if isinstance(b, KRec) and isinstance(a, KDict):
        return a if not b.items else KPoison()
    return KPoison()


class LoopEnv:
    """What a loop invariant can talk about."""
    def __init__(self, c, fr, k, seq, entry_locals, entry_heap):
        self.c, self.fr, self.k, self.seq = c, fr, k, seq
        self.entry_locals, self.entry_heap = entry_locals, entry_heap

    def has(self, name):
        try:
            self.raw(name)
            return True
        except KeyError:
            return False

    def raw(self, name):
        f = self.fr
        while f is not None:
            if name in f.locals:
                return f.locals[name]
            f = f.parent
        raise KeyError(name)

    def __getitem__(self, name):
        v = self.raw(name)
        return self.c.content(v) if isinstance(v, (Ref, View)) and not isinstance(self.c.content(v), ObjC) else v

    def entry(self, name):
        v = self.entry_locals[name]
        if isinstance(v, Ref):
            ct = self.entry_heap[v.id]
            return ct if not isinstance(ct, ObjC) else v
        return v

    def entry_of(self, ref):
        return self.entry_heap[ref.id]

    def find(self, pred, names=()):
        """Role-based lookup: a preferred name, else the unique local whose content satisfies pred."""
        for n in names:
            if self.has(n):
                v = self[n]
                try:
                    if pred(v):
                        return v
                except Exception:
                    pass
        hits = []
        f = self.fr
        while f is not None:
            for n in f.locals:
                try:
                    v = self[n]
                    if pred(v) and not any(h is v for h in hits):
                        hits.append(v)
                except Exception:
                    pass
            f = f.parent
        if len(hits) >= 1:
            return hits[0]
        raise KeyError(f"no local matching role {names}")


class Interp(Path):
    # ------------------------------------------------------------ running a contract
    def run_contract(self, con, m, cls, node, case):
        a = con.args(self, case)
        self.a, self.case = a, case
        con.setup(self, a, case)
        for lab, f in con.requires(self, a):
            self.assume(f)
        self.old_heap = dict(self.heap)
        nref0 = self.nref
        self.write_log = set()
        fv = FuncV(node, m, con.target.split(":")[1], None, ClassV(cls, m, cls.name) if cls is not None else None)
        rs = list(con.raises(self, a))
        self.may_raise = set(x[0] for x in rs) | set(getattr(con, "may_raise", ()))
        self.root_fn = con.target
        args, kwargs = con_call_args(con, a, node)
        try:
            r = self.inline(fv, args, kwargs, root=True)
        except PyRaise as e:
            t = e.exc.type
            conds = [f for x, f in rs if x == t or x in E_parents(t)]
            if t in getattr(con, "may_raise", ()):
                self.prove(True, "ok")
                return True
            if not conds:
                self.prove(z3.BoolVal(False), f"no {t} is raised")
                return False
            self.prove(z3.Or(*[flat_formula(f) for f in conds]), f"{t} only when specified")
            return True
        for x, f in rs:
            self.prove(z3.Not(flat_formula(f)), f"{x} raised when specified")
        self.result = r
        old = OldState(self, self.old_heap)
        for lab, f in con.ensures(self, a, r, old):
            self.prove(f, lab)
        # frame
        allowed = set(x.id for x in con.modifies(self, a))
        for rid in sorted(self.write_log):
            if rid < nref0 and rid not in allowed:
                if self.heap.get(rid) is not self.old_heap.get(rid):
                    self.prove(z3.BoolVal(False), f"frame: argument object #{rid} ({self.ref_name(rid)}) is not modified")
        self.vc.report.obligs.append(Oblig(self.label, "frame", "proved", "engine"))
        return True

    def ref_name(self, rid):
        for n, v in self.a.items():
            if isinstance(v, Ref) and v.id == rid:
                return n
            if isinstance(v, Ref) and isinstance(self.old_heap.get(v.id), ObjC):
                for fn, fv in self.old_heap[v.id].fields.items():
                    if isinstance(fv, Ref) and fv.id == rid:
                        return f"{n}.{fn}"
        return "reachable object"

    # ------------------------------------------------------------ safety conditions
    def catching(self, exc):
        if exc in self.may_raise or any(p in self.may_raise for p in E_parents(exc)):
            return True
        for hs in getattr(self, "try_stack", []):
            for h in hs:
                if h == exc or h in E_parents(exc) or h == "*":
                    return True
        return False

    may_raise = frozenset()

    def require(self, cond, exc, label):
        if cond is True:
            return
        if isinstance(cond, (All, Imp, list, tuple)):
            self.prove(cond, label)
            self.assume(cond)
            return
        b = as_bool_const(cond)
        if b is True:
            return
        if self.catching(exc) and not self.binders:
            if not self.branch(cond):
                raise PyRaise(ExcV(exc))
            return
        self.prove(cond, label)
        self.assume(cond)

    # ------------------------------------------------------------ name resolution
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if isinstance(v, Poison):
                    raise Unsupported(f"variable {name} has no determined value here")
                return v
            f = f.parent
        return self.resolve_global(fr_module(fr), name)

    def resolve_global(self, module, name):
        key = (module.name, name)
        g = getattr(self.con, "globals", {}) or {}
        if key in g:
            v = g[key]
            return v(self) if callable(v) and not isinstance(v, (FuncV, AbsFn)) else v
        if key in GLOBAL_OVERRIDES:
            v = GLOBAL_OVERRIDES[key]
            return v(self) if callable(v) else v
        if key in self.module_cache:
            return self.module_cache[key]
        b = module.bind.get(name)
        if not b:
            if name in ("__name__",):
                return module.name
            if name in LIB or ("builtins." + name) in LIB or hasattr(builtins, name):
                return LibV("builtins." + name)
            # submodule of a package imported elsewhere
            if self.vc.repo.has_module(module.name + "." + name):
                return ModV(self.vc.repo.module(module.name + "." + name))
            raise Unsupported(f"unknown name {name} in {module.name}")
        # a binding that refers to its own name means the previous binding
        depth = self.resolving.get(key, 0)
        if depth >= len(b):
            raise Unsupported(f"circular module binding {name}")
        self.resolving[key] = depth + 1
        try:
            v = self.resolve_binding(module, name, b[-1 - depth])
        finally:
            self.resolving[key] = depth
        if depth == 0:
            self.module_cache[key] = v
        return v

    def resolve_binding(self, module, name, x):
        if isinstance(x, ast.FunctionDef):
            return FuncV(x, module, x.name)
        if isinstance(x, ast.ClassDef):
            return ClassV(x, module, x.name)
        if isinstance(x, tuple):
            st, al = x
            return self.resolve_import(module, st, al)
        # assignment
        val = x.value
        if isinstance(val, (ast.Tuple, ast.List)) and len(val.elts) > 40:
            return self.family(KSeq(KTok, "tuple"), f"const:{module.name}.{name}", [], raw=True)()
        fr = Frame(FuncV(None, module, "<module>"), {})
        fr.module = module
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            return self.ev(val, fr)
        if isinstance(x, ast.AnnAssign):
            return self.ev(val, fr)
        raise Unsupported(f"module binding of {name}")

    def resolve_import(self, module, st, al):
        repo = self.vc.repo
        if isinstance(st, ast.Import):
            top = al.name if al.asname else al.name.split(".")[0]
            if repo.has_module(top):
                return ModV(repo.module(top))
            return LibV(top)
        base = st.module or ""
        if st.level:
            pk = module.name.split(".")
            if not repo.is_pkg(module.name):
                pk = pk[:-1]
            pk = pk[: len(pk) - (st.level - 1)]
            full = ".".join(pk + ([base] if base else []))
        else:
            full = base
        if repo.has_module(full):
            if repo.has_module(full + "." + al.name) and al.name not in repo.module(full).bind:
                return ModV(repo.module(full + "." + al.name))
            tm = repo.module(full)
            if al.name not in tm.bind and repo.has_module(full + "." + al.name):
                return ModV(repo.module(full + "." + al.name))
            if tm is module:
                if repo.has_module(full + "." + al.name):
                    return ModV(repo.module(full + "." + al.name))
            return self.resolve_global(tm, al.name)
        return LibV(full + "." + al.name)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs, node=None):
        if isinstance(f, FuncV):
            return self.call_repo(f, args, kwargs)
        if isinstance(f, BoundV):
            return self.call(f.fn, [f.self_v] + list(args), kwargs, node)
        if isinstance(f, PartialV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.fn, f.args + list(args), kw, node)
        if isinstance(f, AbsFn):
            return f.fn(self, list(args), dict(kwargs))
        if isinstance(f, LibV):
            h = LIB.get(f.path) or (LIB.get(f.path[9:]) if f.path.startswith("builtins.") else None)
            if h is None:
                if f.path.startswith("builtins.") and f.path[9:] in EXC_PARENTS or f.path == "builtins.Exception":
                    return ExcV(f.path[9:], args)
                raise Unsupported(f"library function {f.path} has no contract")
            self.vc.report.assumptions.add(f"library contract: {f.path}")
            return h(self, list(args), dict(kwargs))
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, BuiltinMethod):
            return self.call_method(f.obj, f.name, args, kwargs)
        raise Unsupported(f"call of {f!r}")

    def class_bases(self, cv):
        out = []
        for b in cv.node.bases:
            if isinstance(b, ast.Name):
                out.append(self.resolve_global(cv.module, b.id))
            else:
                out.append(None)
        return out

    def find_method(self, cv, name):
        for st in cv.node.body:
            if isinstance(st, ast.FunctionDef) and st.name == name:
                deco = [d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else "") for d in st.decorator_list]
                return FuncV(st, cv.module, f"{cv.name}.{name}", None, cv, deco)
        for b in self.class_bases(cv):
            if isinstance(b, ClassV):
                r = self.find_method(b, name)
                if r is not None:
                    return r
        return None

    def is_namedtuple(self, cv):
        return any(isinstance(b, LibV) and b.path.endswith("NamedTuple") for b in self.class_bases(cv))

    def nt_fields(self, cv):
        return [st.target.id for st in cv.node.body if isinstance(st, ast.AnnAssign)]

    def instantiate(self, cv, args, kwargs):
        if self.is_namedtuple(cv):
            names = self.nt_fields(cv)
            vals = list(args)
            for n in names[len(vals):]:
                if n not in kwargs:
                    raise Unsupported(f"missing field {n} of {cv.name}")
                vals.append(kwargs[n])
            return NT(cv, names, vals)
        r = self.alloc("obj", ObjC(cv, {}))
        init = self.find_method(cv, "__init__")
        if init is not None:
            self.call_repo(FuncV(init.node, init.module, init.qualname, None, init.cls), [r] + list(args), kwargs)
        return r

    def is_subclass(self, cv, name):
        if cv.name == name:
            return True
        return any(isinstance(b, ClassV) and self.is_subclass(b, name) for b in self.class_bases(cv))

    def call_repo(self, fv, args, kwargs):
        target = f"{fv.module.name}:{fv.qualname}" if fv.module is not None else None
        con = CONTRACTS.get(target)
        if con is not None and con.use_at_calls and target not in self.con.inline and fv.node is not None and not isinstance(fv.node, ast.Lambda):
            names = [x.arg for x in fv.node.args.args + fv.node.args.kwonlyargs]
            if all(p in names for p in con.needs_params):
                r = con.applies(self, fv, args, kwargs) if hasattr(con, "applies") else True
                if r:
                    return self.call_contract(con, fv, args, kwargs)
        self.vc.report.inlined.add(target or "<lambda>")
        return self.inline(fv, args, kwargs)

    def bind(self, fv, args, kwargs):
        a = fv.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        kwargs = dict(kwargs)
        for i, p in enumerate(params):
            if i < len(args):
                loc[p] = args[i]
                if p in kwargs:
                    raise Unsupported(f"duplicate argument {p} (TypeError)")
            elif p in kwargs:
                loc[p] = kwargs.pop(p)
            else:
                di = i - (len(params) - len(a.defaults))
                if di < 0:
                    raise PyRaise(ExcV("TypeError", [f"missing argument {p} of {fv.qualname}"]))
                loc[p] = self.ev(a.defaults[di], module_frame(fv))
        extra = args[len(params):]
        if a.vararg is not None:
            loc[a.vararg.arg] = tuple(extra)
        elif extra:
            raise PyRaise(ExcV("TypeError", [f"too many arguments for {fv.qualname}"]))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg in kwargs:
                loc[p.arg] = kwargs.pop(p.arg)
            elif d is not None:
                loc[p.arg] = self.ev(d, module_frame(fv))
            else:
                raise PyRaise(ExcV("TypeError", [f"missing argument {p.arg}"]))
        if a.kwarg is not None:
            loc[a.kwarg.arg] = self.alloc("dict", RecV(kwargs))
        elif kwargs:
            raise PyRaise(ExcV("TypeError", [f"unexpected argument {list(kwargs)} of {fv.qualname}"]))
        return loc

    def inline(self, fv, args, kwargs, root=False):
        if self.depth > 40:
            raise Unsupported("inlining too deep")
        if isinstance(fv.node, ast.Lambda):
            loc = self.bind(fv, args, kwargs)
            fr = Frame(fv, loc, fv.env)
            return self.ev(fv.node.body, fr)
        loc = self.bind(fv, args, kwargs)
        fr = Frame(fv, loc, fv.env)
        gen = has_yield(fv.node)
        if gen:
            fr.yields = self.alloc("list", mk_list(self, []))
        self.depth += 1
        saved = getattr(self, "try_stack", [])
        if root:
            self.root_frame = fr
        try:
            self.exec_block(fv.node.body, fr)
            r = None
        except ReturnEx as e:
            r = e.v
        finally:
            self.depth -= 1
            self.try_stack = saved
        if gen:
            return fr.yields
        return r

    def call_contract(self, con, fv, args, kwargs):
        a = self.bind(fv, args, kwargs)
        a = con.view(self, a) if hasattr(con, "view") else a
        name = con.target.split(":")[1]
        self.vc.report.used.add(con.target)
        if con.target.split("#")[0] != self.con.target:
            self.vc.report.inlined.discard(con.target)
        for lab, f in con.requires(self, a):
            self.prove(f, f"precondition of {name}: {lab}")
            self.assume(f)
        for x, f in con.raises(self, a):
            if as_bool_const(flat_formula(f)) is False:
                continue
            if self.binders or not self.catching(x):
                self.prove(z3.Not(flat_formula(f)), f"{x} of {name} does not occur")
                self.assume(z3.Not(flat_formula(f)))
            elif self.branch(flat_formula(f)):
                raise PyRaise(ExcV(x, []))
        old = OldState(self, dict(self.heap))
        for r in con.modifies(self, a):
            if isinstance(r, Ref):
                k = kind_of(self, self.heap[r.id])
                self.put(r, self.fresh(k, f"mod_{name}"))
        res = con.result(self, a)
        for lab, f in con.ensures(self, a, res, old):
            self.assume(f)
        if hasattr(con, "after"):
            con.after(self, a, res, old)
        return res

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, s, fr):
        self.line = getattr(s, "lineno", self.line)
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s, fr)

    def st_Pass(self, s, fr):
        pass

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            v = self.ev(s.value, fr)
            r = self.aug(cur, type(s.op).__name__, v)
            if r is not cur:
                self.set_local(fr, t.id, r)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr)
            idx = self.ev_index(t.slice, fr)
            cur = self.getitem(base, idx)
            v = self.ev(s.value, fr)
            if isinstance(cur, View):
                self.aug(cur, type(s.op).__name__, v)
            else:
                if isinstance(self.content(idx) if isinstance(idx, (Ref, View)) else idx, Seq):
                    raise Unsupported("augmented assignment through an index array (repeated indices)")
                self.setitem(base, idx, self.aug(cur, type(s.op).__name__, v))
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, fr)
            cur = self.getattr(base, t.attr)
            v = self.ev(s.value, fr)
            r = self.aug(cur, type(s.op).__name__, v)
            if r is not cur:
                self.setattr(base, t.attr, r)
        else:
            raise Unsupported("augmented assignment target")

    def aug(self, cur, op, v):
        if isinstance(cur, (Ref, View)) and not isinstance(self.content(cur), (ObjC,)):
            ct = self.content(cur)
            if isinstance(ct, Seq) and ct.kind == "arr":
                new = self.content(self.binop(op, ct, v, alloc=False))
                self.prove_role(ct, new)
                self.write_seq(cur, new)
                return cur
            if isinstance(ct, Seq) and op == "Add":
                new = self.content(self.binop("Add", ct, self.content(v)))
                self.put(cur, new)
                return cur
            if isinstance(ct, SetV) and op in ("BitOr", "BitAnd", "Sub"):
                self.put(cur, self.content(self.binop(op, ct, v)))
                return cur
        if isinstance(cur, Seq) and cur.kind in ("arr", "list"):
            raise_frame(self, "in-place update of a borrowed sequence")
        return self.binop(op, cur, v)

    def prove_role(self, old, new):
        ko, kn = kind_of(self, old), kind_of(self, new)
        eo, en = getattr(ko, "elem", None), getattr(kn, "elem", None)
        if isinstance(eo, KS) and isinstance(en, KS) and eo.sort == Int and en.sort == Real:
            self.prove(z3.BoolVal(False), "no lossy store of a real number into an integer array")

    def write_seq(self, target, new):
        if isinstance(target, View):
            base = self.heap[target.ref.id]
            st, n = num(target.start), num(target.n)

            def at(i, base=base, new=new):
                i = num(i)
                return self.ite(z3.And(st <= i, i < st + n), new.at(i - st), base.at(i))
            self.put(target.ref, Seq(base.n, at, base.kind, base.elem))
            self.notify(target.ref)
        else:
            self.put(target, Seq(new.n, new.at, "arr", new.elem, new.meta))

    def notify(self, ref):
        pass

    def st_Return(self, s, fr):
        raise ReturnEx(self.ev(s.value, fr) if s.value is not None else None)

    def st_Break(self, s, fr):
        raise BreakEx()

    def st_Continue(self, s, fr):
        raise ContinueEx()

    def st_If(self, s, fr):
        if self.branch(self.truth(self.ev(s.test, fr))):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def st_Assert(self, s, fr):
        cond = self.truth(self.ev(s.test, fr))
        if self.catching("AssertionError"):
            if not self.branch(cond):
                raise PyRaise(ExcV("AssertionError"))
        else:
            self.prove(cond if not isinstance(cond, bool) else z3.BoolVal(cond), "assertion holds")
            self.assume(cond)

    def st_Raise(self, s, fr):
        if s.exc is None:
            if getattr(self, "cur_exc", None) is not None:
                raise PyRaise(self.cur_exc)
            raise Unsupported("bare raise")
        e = s.exc
        # the message is not evaluated
        f = e.func if isinstance(e, ast.Call) else e
        if isinstance(f, ast.Name):
            v = None
            try:
                v = self.lookup(f.id, fr)
            except Unsupported:
                pass
            if isinstance(v, ExcV):
                raise PyRaise(v)
            raise PyRaise(ExcV(f.id))
        raise Unsupported("raise")

    def st_Try(self, s, fr):
        handlers = []
        for h in s.handlers:
            if h.type is None:
                handlers.append("*")
            elif isinstance(h.type, ast.Tuple):
                handlers += [x.id for x in h.type.elts]
            else:
                handlers.append(h.type.id if isinstance(h.type, ast.Name) else h.type.attr)
        saved = getattr(self, "try_stack", [])

        def final():
            if s.finalbody:
                self.exec_block(s.finalbody, fr)
        try:
            try:
                self.try_stack = saved + [handlers]
                try:
                    self.exec_block(s.body, fr)
                finally:
                    self.try_stack = saved
                self.exec_block(s.orelse, fr)
            except PyRaise as e:
                for h in s.handlers:
                    names = ["*"] if h.type is None else ([x.id for x in h.type.elts] if isinstance(h.type, ast.Tuple) else
                                                          [h.type.id if isinstance(h.type, ast.Name) else h.type.attr])
                    if "*" in names or e.exc.type in names or any(n in E_parents(e.exc.type) for n in names):
                        if h.name:
                            self.set_local(fr, h.name, e.exc)
                        prev = getattr(self, "cur_exc", None)
                        self.cur_exc = e.exc
                        self.exec_block(h.body, fr)
                        self.cur_exc = prev
                        break
                else:
                    raise
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            final()
            raise
        final()

    def st_With(self, s, fr):
        ctxs = []
        for it in s.items:
            cm = self.ev(it.context_expr, fr)
            v = self.call_method(cm, "__enter__", [], {})
            ctxs.append(cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        try:
            self.exec_block(s.body, fr)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            for cm in reversed(ctxs):
                self.call_method(cm, "__exit__", [], {})
            raise
        for cm in reversed(ctxs):
            self.call_method(cm, "__exit__", [], {})

    def st_FunctionDef(self, s, fr):
        self.set_local(fr, s.name, FuncV(s, fr_module(fr), f"{fr.fn.qualname}.<locals>.{s.name}", fr))

    def st_Import(self, s, fr):
        for al in s.names:
            self.set_local(fr, al.asname or al.name.split(".")[0], self.resolve_import(fr_module(fr), s, al))

    def st_ImportFrom(self, s, fr):
        for al in s.names:
            self.set_local(fr, al.asname or al.name, self.resolve_import(fr_module(fr), s, al))

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, fr)
                o = self.heap[base.id]
                f = dict(o.fields)
                f.pop(t.attr, None)
                self.put(base, ObjC(o.cls, f))
            else:
                raise Unsupported("del of a subscript")

    def st_Global(self, s, fr):
        raise Unsupported("global")

    def set_local(self, fr, name, v):
        fr.locals[name] = v

    # ---- assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.set_local(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr)
            idx = self.ev_index(t.slice, fr)
            self.setitem(base, idx, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyRaise(ExcV("ValueError", ["unpack"]))
            return list(v)
        if isinstance(v, NT):
            return list(v.vals)
        if isinstance(v, (Ref, Seq, View)):
            ct = self.content(v)
            if isinstance(ct, Seq):
                k = int_const(ct.n)
                if k is None:
                    self.require(num(ct.n) == n, "ValueError", f"unpacking exactly {n} values")
                elif k != n:
                    raise PyRaise(ExcV("ValueError", ["unpack"]))
                return [ct.at(i) for i in range(n)]
        raise Unsupported(f"unpacking {v!r}")

    def setattr(self, base, name, v):
        if isinstance(base, Ref) and isinstance(self.heap[base.id], ObjC):
            o = self.heap[base.id]
            f = dict(o.fields)
            f[name] = v
            self.put(base, ObjC(o.cls, f))
            return
        if isinstance(base, Opaque):
            base.f = dict(base.f)
            base.f[name] = v
            return
        raise Unsupported(f"attribute store on {base!r}")

    def getattr(self, base, name):
        if isinstance(base, ModV):
            return self.resolve_global(base.module, name)
        if isinstance(base, LibV):
            return LibV(base.path + "." + name)
        if isinstance(base, Ref):
            o = self.heap[base.id]
            if isinstance(o, ObjC):
                if name in o.fields:
                    return o.fields[name]
                if isinstance(o.cls, ClassV):
                    mth = self.find_method(o.cls, name)
                    if mth is not None:
                        if "staticmethod" in mth.deco:
                            return mth
                        if "classmethod" in mth.deco:
                            return BoundV(mth, o.cls)
                        return BoundV(mth, base)
                    if name == "__class__":
                        return o.cls
                if self.catching("AttributeError"):
                    raise PyRaise(ExcV("AttributeError"))
                if ("obj:" + str(o.cls), name) in METHODS:
                    return BuiltinMethod(base, name)
                raise Unsupported(f"attribute {name} of {o.cls}")
        if isinstance(base, NT):
            if name in base.names:
                return base.get(name)
            mth = self.find_method(base.cls, name) if isinstance(base.cls, ClassV) else None
            if mth is not None:
                return BoundV(mth, base)
        if isinstance(base, ClassV):
            mth = self.find_method(base, name)
            if mth is not None:
                if "classmethod" in mth.deco:
                    return BoundV(mth, base)
                return mth
            if name == "__name__":
                return base.name
        if isinstance(base, Opaque) and name in base.f:
            return base.f[name]
        if isinstance(base, AbsFn) and name in base.attrs:
            return base.attrs[name]
        ct = self.content(base) if isinstance(base, (Ref, View)) else base
        if isinstance(ct, Seq) and ct.kind == "arr":
            if name == "shape":
                return self.shape_of(ct)
            if name == "ndim":
                return len(self.shape_of(ct))
            if name == "dtype":
                k = kind_of(self, ct)
                e = k.elem
                while isinstance(e, KSeq):
                    e = e.elem
                return DType("int" if isinstance(e, KS) and e.sort == Int else "float")
            if name == "size":
                sh = self.shape_of(ct)
                r = sh[0]
                for x in sh[1:]:
                    r = num(r) * num(x)
                return r
        return BuiltinMethod(base, name)

    def shape_of(self, ct):
        sh = ct.meta.get("shape")
        if sh is not None:
            return sh
        k = kind_of(self, ct)
        if isinstance(k, KSeq) and isinstance(k.elem, KSeq) and k.elem.kind == "arr":
            inner = ct.at(0)
            return (ct.n, inner.n)
        return (ct.n,)

    # ---- items
    def norm_index(self, i, n, label="index in range"):
        ic = int_const(i)
        i = num(i)
        n = num(n)
        if ic is not None and ic < 0:
            self.require(n >= -ic, "IndexError", label)
            return z3.simplify(n + ic)
        self.require(z3.And(i < n, i >= -n), "IndexError", label)
        if ic is not None:
            return z3.IntVal(ic)
        if self.entails(i >= 0, 1000):
            return i
        return z3.If(i < 0, i + n, i)

    def getitem(self, base, idx):
        ct = self.content(base) if isinstance(base, (Ref, View)) else base
        if isinstance(ct, NT):
            ct = tuple(ct.vals)
        if isinstance(ct, tuple):
            k = int_const(idx)
            if k is not None:
                if not -len(ct) <= k < len(ct):
                    raise PyRaise(ExcV("IndexError"))
                return ct[k]
            if isinstance(idx, SliceV):
                lo, hi, st = int_const(idx.lo or 0), None if idx.hi is None else int_const(idx.hi), None if idx.step is None else int_const(idx.step)
                return ct[lo:hi:st]
            if is_z3(idx) and len(ct):
                i = self.norm_index(idx, len(ct))
                r = ct[-1]
                for j in range(len(ct) - 2, -1, -1):
                    r = self.ite(i == j, ct[j], r)
                return r
        if isinstance(ct, str):
            k = int_const(idx)
            if k is not None:
                return ct[k]
        if isinstance(ct, Seq):
            if isinstance(idx, SliceV):
                return self.slice_seq(base, ct, idx)
            ix = self.content(idx) if isinstance(idx, (Ref, View)) else idx
            if isinstance(ix, Seq):
                return self.gather(ct, ix)
            if is_z3(ix) and ix.sort() not in (Int,) or isinstance(ix, (str, tuple)):
                raise Unsupported("sequence index of this type")
            i = self.norm_index(ix, ct.n)
            return ct.at(i)
        if isinstance(ct, RecV):
            if isinstance(idx, str):
                if idx not in ct.items:
                    if self.catching("KeyError"):
                        raise PyRaise(ExcV("KeyError"))
                    self.prove(z3.BoolVal(False), f"key {idx!r} present")
                    raise PathEnd()
                return ct.items[idx]
            raise Unsupported("record indexed by a non-constant key")
        if isinstance(ct, DictV):
            k = self.key(idx, ct)
            if k is None:
                if self.catching("KeyError"):
                    raise PyRaise(ExcV("KeyError"))
                self.prove(z3.BoolVal(False), "dictionary key present (type mismatch)")
                raise PathEnd()
            self.require(ct.dom(k), "KeyError", "dictionary key present")
            return ct.val(k)
        if isinstance(ct, ObjC):
            if isinstance(ct.cls, ClassV):
                m = self.find_method(ct.cls, "__getitem__")
                if m is not None:
                    return self.call(BoundV(m, base), [idx], {})
        if isinstance(ct, Opaque):
            return self.call_method(ct, "__getitem__", [idx], {})
        if is_z3(ct) and ct.sort() == Val:
            f = z3.Function("val.item", Val, Tok, Val)
            return f(ct, self.tok(idx))
        raise Unsupported(f"subscript of {ct!r}")

    def key(self, idx, d):
        """Key term in the key sort of d (None if the sorts cannot match)."""
        ks = d.ksort
        if isinstance(idx, bool):
            idx = int(idx)
        if isinstance(idx, str):
            idx = tok_lit(idx)
        if isinstance(idx, int):
            idx = z3.IntVal(idx)
        if not is_z3(idx):
            raise Unsupported(f"dictionary key {idx!r}")
        if ks is None or idx.sort() == ks:
            return idx
        if ks == Int and idx.sort() == Real:
            return z3.ToInt(idx)
        return None

    def tok(self, v):
        if isinstance(v, str):
            return tok_lit(v)
        if is_z3(v) and v.sort() == Tok:
            return v
        if isinstance(v, int) or (is_z3(v) and v.sort() == Int):
            return z3.Function("tok.ofint", Int, Tok)(num(v))
        raise Unsupported(f"not a token: {v!r}")

    def slice_seq(self, base, ct, sl):
        if sl.step is not None and int_const(sl.step) not in (None, 1):
            if int_const(sl.step) == -1 and sl.lo is None and sl.hi is None:
                n = num(ct.n)
                return self.newseq(Seq(ct.n, lambda i: ct.at(n - 1 - num(i)), ct.kind, ct.elem, {"reversed": ct}))
            raise Unsupported("slice step")
        n = num(ct.n)

        def clip(x, dflt):
            if x is None:
                return dflt
            xc = int_const(x)
            x = num(x)
            if xc is not None:
                if xc >= 0:
                    if xc == 0 or self.entails(n >= xc, 500):
                        return z3.IntVal(xc)
                    return z3.If(n < xc, n, z3.IntVal(xc))
                if self.entails(n >= -xc, 500):
                    return n + xc
                return z3.If(n + xc < 0, z3.IntVal(0), n + xc)
            if self.entails(z3.And(0 <= x, x <= n), 1500):
                return x
            y = z3.If(x < 0, n + x, x)
            return z3.If(y < 0, z3.IntVal(0), z3.If(y > n, n, y))
        lo = clip(sl.lo, z3.IntVal(0))
        hi = clip(sl.hi, n)
        ln = z3.simplify(hi - lo)
        if not self.entails(hi >= lo, 1500):
            ln = z3.If(hi >= lo, hi - lo, z3.IntVal(0))
        if ct.kind == "arr":
            if isinstance(base, Ref):
                return View(base, lo, ln)
            if isinstance(base, View):
                return View(base.ref, z3.simplify(num(base.start) + lo), ln)
            return Seq(ln, lambda i: ct.at(lo + num(i)), "arr", ct.elem, {"slice_of": (ct, lo)})
        kc = int_const(ln)
        return self.newseq(Seq(ln if kc is None else kc, lambda i: ct.at(z3.simplify(lo + num(i))), ct.kind, ct.elem, {"slice_of": (ct, lo)}))

    def newseq(self, s):
        if s.kind in ("list", "arr"):
            return self.alloc(s.kind, s)
        return s

    def gather(self, ct, ix):
        n = num(ct.n)
        kx = kind_of(self, ix)
        if isinstance(kx.elem, KSeq):       # 2-d index array
            inner = ix.at(0)

            def row(i):
                r = ix.at(i)
                return Seq(r.n, lambda j: ct.at(r.at(j)), "arr", ct.elem)
            self.prove(All([Int, Int], lambda i, j: z3.Implies(z3.And(0 <= i, i < num(ix.n), 0 <= j, j < num(inner.n)),
                       z3.And(ix.at(i).at(j) < n, ix.at(i).at(j) >= -n))), "index array in range")
            return self.alloc("arr", Seq(ix.n, row, "arr", None, {"shape": (ix.n, inner.n)}))
        cond = All([Int], lambda j: z3.Implies(z3.And(0 <= j, j < num(ix.n)), z3.And(num(ix.at(j)) < n, num(ix.at(j)) >= -n)))
        self.prove(cond, "index array in range")
        if ix.meta.get("nonneg") or self.entails_all(All([Int], lambda j: z3.Implies(z3.And(0 <= j, j < num(ix.n)), num(ix.at(j)) >= 0))):
            at = lambda j: ct.at(ix.at(j))
        else:
            def at(j):
                i = num(ix.at(j))
                return ct.at(z3.If(i < 0, i + n, i))
        return self.alloc("arr", Seq(ix.n, at, "arr", ct.elem, {"gather": (ct, ix)}))

    def entails_all(self, f):
        vs = [z3.Const(self.uniq("ea"), s) for s in f.sorts]
        return self.entails(flat_formula(f.body(*vs)), 2000, extra=vs)

    def setitem(self, base, idx, v):
        if isinstance(base, View):
            ct = self.content(base)
            if isinstance(idx, SliceV):
                raise Unsupported("slice store through a view")
            i = self.norm_index(idx, ct.n)
            self.setitem(base.ref, z3.simplify(num(base.start) + i), v)
            return
        if not isinstance(base, Ref):
            ct = base
            if isinstance(ct, (Seq, DictV, SetV, RecV)):
                raise_frame(self, "store into a borrowed container")
            raise Unsupported(f"store into {base!r}")
        ct = self.heap[base.id]
        if isinstance(ct, ObjC):
            m = self.find_method(ct.cls, "__setitem__")
            self.call(BoundV(m, base), [idx, v], {})
            return
        if isinstance(ct, Seq):
            if isinstance(idx, SliceV):
                return self.slice_store(base, ct, idx, v)
            ixc = self.content(idx) if isinstance(idx, (Ref, View)) else idx
            if isinstance(ixc, Seq):
                raise Unsupported("store through an index array")
            i = self.norm_index(idx, ct.n, "store index in range")
            items = ct.meta.get("items")
            ic = int_const(i)
            if items is not None and ic is not None:
                it = list(items)
                it[ic] = v
                self.put(base, mk_list(self, it, ct.kind))
                return
            fv = self.frozen(v)
            if ct.kind == "arr":
                fv = self.coerce_elem(ct, fv)
            old = ct

            def at(j):
                return self.ite(num(j) == i, fv, old.at(j))
            meta = {}
            if "shape" in ct.meta:
                meta["shape"] = ct.meta["shape"]
            elem = ct.elem
            if elem is None or isinstance(elem, KBot):
                elem = None
            nd = Seq(ct.n, at, ct.kind, elem, meta)
            nd.meta["store"] = (old, i, fv)
            self.put(base, nd)
            for ob in self.store_observers:
                ob(self, base, i, fv, old)
            return
        if isinstance(ct, RecV):
            if isinstance(idx, str):
                it = dict(ct.items)
                it[idx] = v
                self.put(base, RecV(it))
                return
            if not ct.items:
                ct = empty_dict(self)
            else:
                raise Unsupported("mixed record/dictionary")
        if isinstance(ct, DictV):
            self.put(base, self.dict_store(ct, idx, v))
            return
        raise Unsupported(f"store into {ct!r}")

    def dict_store(self, d, idx, v):
        fv = self.frozen(v)
        k = idx
        if isinstance(k, str):
            k = tok_lit(k)
        elif isinstance(k, (int,)):
            k = z3.IntVal(k)
        if not is_z3(k):
            raise Unsupported(f"dictionary key {idx!r}")
        ks = d.ksort
        if ks is None:
            ks = k.sort()
        elif ks != k.sort():
            raise Unsupported("dictionary with keys of two types")
        if d.ksort is None:
            one = fv
            return DictV(lambda t: t == k, lambda t: one, z3.IntVal(1), lambda j: k, lambda t: z3.IntVal(0), ks)
        dk = d.dom(k)
        kn = as_bool_const(dk)
        if kn is None:
            if self.entails(dk, 800):
                kn = True
            elif self.entails(z3.Not(dk), 800):
                kn = False
        if kn is True:
            size, key_at, pos, dom = d.size, d.key_at, d.pos, d.dom
        else:
            new = z3.Not(dk) if kn is None else z3.BoolVal(True)
            size = d.size + (z3.If(dk, z3.IntVal(0), z3.IntVal(1)) if kn is None else 1)
            size = z3.simplify(size)
            ka, ps, sz = d.key_at, d.pos, d.size
            key_at = (lambda j: z3.If(z3.And(num(j) == sz, new), k, ka(j))) if ka else None
            pos = (lambda t: z3.If(z3.And(t == k, new), sz, ps(t))) if ps else None
            dom = lambda t: z3.Or(t == k, d.dom(t))
        val = lambda t: self.ite(t == k, fv, d.val(t))
        meta = {}
        nd = DictV(dom, val, size, key_at, pos, ks, meta)
        nd.meta["store"] = (d, k, fv)
        return nd

    def coerce_elem(self, ct, v):
        k = kind_of(self, ct).elem
        if isinstance(k, KS) and not isinstance(v, (Seq, tuple)):
            v = num(v)
            if k.sort == Real and v.sort() == Int:
                return z3.ToReal(v)
            if k.sort == Int and v.sort() == Real:
                self.prove(z3.BoolVal(False), "no lossy store of a real number into an integer array")
                return z3.ToInt(v)
            if k.sort == Int and v.sort() == Bool:
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def slice_store(self, base, ct, sl, v):
        if sl.step is not None:
            raise Unsupported("slice store with a step")
        n = num(ct.n)
        lo = num(sl.lo) if sl.lo is not None else z3.IntVal(0)
        hi = num(sl.hi) if sl.hi is not None else n
        src = self.content(v) if isinstance(v, (Ref, View)) else v
        if ct.kind != "arr":
            raise Unsupported("slice store into a list")
        self.require(z3.And(0 <= lo, lo <= hi, hi <= n), "ValueError", "slice store in range")
        if isinstance(src, Seq):
            self.require(num(src.n) == hi - lo, "ValueError", "slice store lengths agree")
            self.prove_role(ct, src)
            get = lambda i: self.coerce_like(ct, src.at(i - lo))
        else:
            one = self.coerce_elem(ct, src)
            get = lambda i: one
        old = ct

        def at(i):
            i = num(i)
            return self.ite(z3.And(lo <= i, i < hi), get(i), old.at(i))
        self.put(base, Seq(ct.n, at, ct.kind, ct.elem))

    def coerce_like(self, ct, v):
        k = kind_of(self, ct).elem
        if isinstance(k, KS) and not isinstance(v, (Seq, tuple)):
            v = num(v)
            if k.sort == Real and v.sort() == Int:
                return z3.ToReal(v)
        return v

    # ---- merging
    def ite(self, cond, a, b):
        if isinstance(cond, bool):
            return a if cond else b
        k = as_bool_const(cond)
        if k is not None:
            return a if k else b
        if a is b:
            return a
        if isinstance(a, (Ref, View)):
            a = self.frozen(a)
        if isinstance(b, (Ref, View)):
            b = self.frozen(b)
        sc = (int, float, Fraction, bool)
        if (is_z3(a) or isinstance(a, sc)) and (is_z3(b) or isinstance(b, sc)):
            x, y = num(a), num(b)
            if x.sort() != y.sort():
                if {x.sort(), y.sort()} == {Int, Real}:
                    x = z3.ToReal(x) if x.sort() == Int else x
                    y = z3.ToReal(y) if y.sort() == Int else y
                elif {x.sort(), y.sort()} == {Int, Bool}:
                    x = z3.If(x, z3.IntVal(1), z3.IntVal(0)) if x.sort() == Bool else x
                    y = z3.If(y, z3.IntVal(1), z3.IntVal(0)) if y.sort() == Bool else y
                else:
                    raise Unsupported("merge of different sorts")
            return z3.If(cond, x, y)
        if isinstance(a, str) or isinstance(b, str):
            return z3.If(cond, self.tok(a), self.tok(b))
        if isinstance(a, Seq) and isinstance(b, Seq):
            n = a.n if (a.n is b.n) else z3.If(cond, num(a.n), num(b.n))
            return Seq(n, lambda i: self.ite(cond, a.at(i), b.at(i)), a.kind, a.elem or b.elem)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite(cond, x, y) for x, y in zip(a, b))
        if isinstance(a, NT) and isinstance(b, NT) and a.names == b.names:
            return NT(a.cls, a.names, [self.ite(cond, x, y) for x, y in zip(a.vals, b.vals)])
        if isinstance(a, RecV) and isinstance(b, RecV) and list(a.items) == list(b.items):
            return RecV({k: self.ite(cond, a.items[k], b.items[k]) for k in a.items})
        if isinstance(a, DictV) and isinstance(b, DictV):
            ks = a.ksort or b.ksort
            return DictV(lambda t: z3.If(cond, a.dom(t), b.dom(t)), lambda t: self.ite(cond, a.val(t), b.val(t)),
                         z3.If(cond, num(a.size), num(b.size)),
                         (lambda j: z3.If(cond, a.key_at(j), b.key_at(j))) if a.key_at and b.key_at else None,
                         (lambda t: z3.If(cond, a.pos(t), b.pos(t))) if a.pos and b.pos else None, ks)
        if a is None and b is None:
            return None
        raise Unsupported(f"merge of {a!r} and {b!r}")

    # ------------------------------------------------------------ loops
    def iter_seq(self, v):
        """Sequence of elements produced by iterating v (reads the live object)."""
        if isinstance(v, tuple):
            return mk_list(self, list(v), "tuple")
        if isinstance(v, NT):
            return mk_list(self, list(v.vals), "tuple")
        if isinstance(v, str):
            return mk_list(self, list(v), "tuple")
        if isinstance(v, Ref):
            ct = self.heap[v.id]
            if isinstance(ct, Seq):
                if ct.meta.get("items") is not None:
                    return ct
                rid = v.id
                return Seq(ct.n, lambda i: self.heap[rid].at(i), ct.kind, ct.elem, {**ct.meta, "live": v})
            if isinstance(ct, ObjC):
                it = self.find_method(ct.cls, "__iter__") if isinstance(ct.cls, ClassV) else None
                h = METHODS.get(("obj:" + str(ct.cls), "__iter__"))
                if h:
                    return self.content(h(self, v, [], {}))
                if it is None and isinstance(ct.cls, ClassV) and self.find_method(ct.cls, "__getitem__"):
                    raise Unsupported("iteration through __getitem__")
                raise Unsupported("iteration over an object")
            v = ct
        if isinstance(v, View):
            v = self.content(v)
        if isinstance(v, Seq):
            return v
        if isinstance(v, DictV):
            if v.ksort is None:
                return mk_list(self, [])
            return Seq(v.size, v.key_at, "iter", KS(v.ksort), {"dict_iter": v})
        if isinstance(v, RecV):
            return mk_list(self, list(v.items.keys()))
        if isinstance(v, SetV):
            return self.set_enum(v)
        if isinstance(v, Opaque):
            return self.iter_seq(self.call_method(v, "__iter__", [], {}))
        raise Unsupported(f"iteration over {v!r}")

    def set_enum(self, s):
        """Arbitrary enumeration of a finite set."""
        if s.lit is not None:
            return mk_list(self, list(s.lit))
        if s.ksort is None:
            return mk_list(self, [])
        if s.enum is None:
            if s.size is None:
                s.size = self.fint("card")
                self.assume(s.size >= 0)
            at = self.func("enum", Int, s.ksort)
            pos = self.func("enumpos", s.ksort, Int)
            n = s.size
            self.assume(All([Int], lambda j: z3.Implies(z3.And(0 <= j, j < n), z3.And(s.mem(at(j)), pos(at(j)) == j)), trig=lambda j: at(j)))
            self.assume(All([s.ksort], lambda t: z3.Implies(s.mem(t), z3.And(0 <= pos(t), pos(t) < n, at(pos(t)) == t)), trig=lambda t: pos(t)))
            self.cand_fns.append((s.ksort, lambda t: pos(t)))
            self.cand_fns.append((Int, lambda t: at(t)))
            s.enum = (at, pos)
        at, pos = s.enum
        return Seq(s.size, at, "iter", KS(s.ksort), {"set_enum": s, "pos": pos})

    def st_For(self, s, fr):
        itv = self.ev(s.iter, fr)
        seq = self.iter_seq(itv)
        n = int_const(seq.n)
        spec = self.loop_spec(s, seq, fr)
        if spec is None:
            if n is not None and n <= 40:
                for i in range(n):
                    self.assign(s.target, seq.at(i), fr)
                    try:
                        self.exec_block(s.body, fr)
                    except ContinueEx:
                        continue
                    except BreakEx:
                        return
                self.exec_block(s.orelse, fr)
                return
            raise Unsupported("loop without a loop contract")
        self.run_loop(s, fr, seq, spec, None)

    def st_While(self, s, fr):
        spec = self.loop_spec(s, None, fr)
        if spec is None:
            for _ in range(25):
                if not self.branch(self.truth(self.ev(s.test, fr))):
                    self.exec_block(s.orelse, fr)
                    return
                try:
                    self.exec_block(s.body, fr)
                except ContinueEx:
                    continue
                except BreakEx:
                    return
            raise Unsupported("while loop without a loop contract")
        self.run_loop(s, fr, None, spec, s.test)

    def loop_spec(self, node, seq, fr):
        for sp in self.con.loops:
            if sp.match is None:
                if self.con.loops.index(sp) in [x[1] for x in self.loopstack]:
                    continue
                if (seq is None) == (sp.name == "while" or getattr(sp, "is_while", False)) or sp.name is None:
                    return sp
                continue
            try:
                if sp.match(self, seq, node, fr):
                    return sp
            except (KeyError, AttributeError, Unsupported, z3.Z3Exception, TypeError, IndexError):
                continue
        return None

    def run_loop(self, s, fr, seq, spec, test):
        if self.binders:
            raise Unsupported("loop inside an element-wise expression")
        lname = spec.name or f"loop@{s.lineno}"
        key = (self.label, tuple(x[0] for x in self.loopstack), id(s))
        mods = self.vc.mods.setdefault(key, {})
        entry_locals, entry_heap = dict(fr.locals), dict(self.heap)
        nref_entry = self.nref

        def env(k):
            return LoopEnv(self, fr, k, seq, entry_locals, entry_heap)

        def inv(k, mode):
            try:
                return list(spec.inv(self, k, env(k)))
            except KeyError as e:
                raise Unsupported(f"loop contract {lname} refers to a variable that is gone: {e}")
        for lab, f in inv(z3.IntVal(0), "entry"):
            self.prove(f, f"{lname}: invariant '{lab}' holds on entry")
        which = self.choose(2, "loop")
        # havoc
        havoc_vals = {}
        for loc, kind in mods.items():
            if loc[0] == "local":
                v = self.fresh(kind, loc[1]) if not isinstance(kind, KPoison) else Poison(f"{loc[1]} after loop")
                owner = fr
                owner.locals[loc[1]] = v
                havoc_vals[loc] = v
            else:
                rid = loc[1]
                if isinstance(kind, KPoison):
                    raise Unsupported(f"object modified in loop {lname} changes its kind")
                self.heap[rid] = self.fresh(kind, f"h{rid}")
                self.write_log.add(rid)
                havoc_vals[loc] = self.heap[rid]
        k = self.fint("k")
        self.assume(k >= 0)
        self.hint(k)
        if seq is not None:
            n = num(seq.n)
        if test is None:
            if which == 0:
                self.assume(k < n)
                self.hint(k + 1)
                for lab, f in inv(k, "assume"):
                    self.assume(f)
                if spec.hints:
                    spec.hints(self, k, env(k))
                if not self.prefix_done_feasible():
                    raise PathEnd()
                item = seq.at(k)
                self.assign(s.target, item, fr)
                self.loop_body(s, fr, key, mods, havoc_vals, entry_locals, nref_entry, spec, k, inv, lname, seq, env)
                return
            self.assume(k == n)
            for lab, f in inv(k, "assume"):
                self.assume(f)
            if spec.hints:
                spec.hints(self, k, env(k))
            self.exec_block(s.orelse, fr)
            return
        # while
        for lab, f in inv(k, "assume"):
            self.assume(f)
        if spec.hints:
            spec.hints(self, k, env(k))
        if which == 0:
            cond = self.truth(self.ev(test, fr))
            self.assume(cond if not isinstance(cond, bool) else z3.BoolVal(cond))
            if not self.prefix_done_feasible():
                raise PathEnd()
            self.loop_body(s, fr, key, mods, havoc_vals, entry_locals, nref_entry, spec, k, inv, lname, None, env)
            return
        cond = self.truth(self.ev(test, fr))
        self.assume(z3.Not(cond) if not isinstance(cond, bool) else z3.BoolVal(not cond))
        if not self.prefix_done_feasible():
            raise PathEnd()
        self.exec_block(s.orelse, fr)

    def prefix_done_feasible(self):
        if self.in_replay():
            return True
        return self.feasible(z3.BoolVal(True))

    def loop_body(self, s, fr, key, mods, havoc_vals, entry_locals, nref_entry, spec, k, inv, lname, seq, env):
        measure0 = None
        if spec.decreases is not None:
            measure0 = spec.decreases(self, env(k))
        self.loopstack.append((id(s), self.con.loops.index(spec) if spec in self.con.loops else -1))
        locals0 = dict(fr.locals)
        heap0 = dict(self.heap)
        broke = False
        try:
            try:
                self.exec_block(s.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                broke = True
        finally:
            self.loopstack.pop()
        # discover modifications
        changed = False
        for name, v in fr.locals.items():
            if name in locals0 and locals0[name] is v and (("local", name) not in mods):
                continue
            loc = ("local", name)
            if name not in entry_locals:
                continue             # loop-local temporary
            kv = safe_kind(self, v)
            k0 = mods.get(loc)
            if k0 is None:
                k0 = safe_kind(self, entry_locals[name])
                mods[loc] = join(k0, kv)
                changed = True
            else:
                j = join(k0, kv)
                if not same_kind(j, k0):
                    mods[loc] = j
                    changed = True
        for rid in list(self.heap):
            if rid >= nref_entry:
                continue
            loc = ("heap", rid)
            if heap0.get(rid) is self.heap[rid] and loc not in mods:
                continue
            kv = safe_kind(self, self.heap[rid])
            k0 = mods.get(loc)
            if k0 is None:
                k0 = safe_kind(self, heap0[rid])
                mods[loc] = join(k0, kv)
                changed = True
            else:
                j = join(k0, kv)
                if not same_kind(j, k0):
                    mods[loc] = j
                    changed = True
        if changed:
            raise RestartEx()
        if broke:
            return
        if measure0 is not None:
            m1 = spec.decreases(self, env(k + 1))
            self.prove(z3.And(m1 < measure0, measure0 >= 0), f"{lname}: terminates (measure decreases)")
        if seq is not None and seq.meta.get("live") is not None:
            self.prove(num(self.heap[seq.meta["live"].id].n) == num(seq.n), f"{lname}: iterated list keeps its length")
        for lab, f in inv(k + 1, "prove"):
            self.prove(f, f"{lname}: invariant '{lab}' is preserved")
        raise PathEnd()

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def ex_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v)) if v == v and v not in (float("inf"), float("-inf")) else v
        return v

    def ex_Name(self, e, fr):
        if e.id in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[e.id]
        return self.lookup(e.id, fr)

    def ex_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def ex_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def ex_List(self, e, fr):
        return self.alloc("list", mk_list(self, self.elts(e.elts, fr)))

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                s = self.iter_seq(self.ev(x.value, fr))
                n = int_const(s.n)
                if n is None:
                    raise Unsupported("star of a symbolic sequence")
                out += [s.at(i) for i in range(n)]
            else:
                out.append(self.ev(x, fr))
        return out

    def ex_Dict(self, e, fr):
        items = {}
        if all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in e.keys if k is not None) and None not in e.keys:
            for k, v in zip(e.keys, e.values):
                items[k.value] = self.ev(v, fr)
            return self.alloc("dict", RecV(items))
        r = self.alloc("dict", RecV({}))
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.content(self.ev(v, fr))
                if isinstance(src, RecV):
                    for kk, vv in src.items.items():
                        self.setitem(r, kk, vv)
                    continue
                raise Unsupported("dict unpacking")
            self.setitem(r, self.ev(k, fr), self.ev(v, fr))
        return r

    def ex_Set(self, e, fr):
        return self.alloc("set", lit_set(self, self.elts(e.elts, fr)))

    def ex_Lambda(self, e, fr):
        return FuncV(e, fr_module(fr), "<lambda>", fr)

    def ex_JoinedStr(self, e, fr):
        parts, vals = [], []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                spec = ""
                if v.format_spec is not None:
                    spec = ":" + "".join(str(y.value) for y in v.format_spec.values if isinstance(y, ast.Constant))
                parts.append(("{" + spec + "}", x))
        if all(isinstance(p, str) or (isinstance(p[1], (str, int)) and not isinstance(p[1], bool) and p[0] == "{}") for p in parts):
            return "".join(p if isinstance(p, str) else str(p[1]) for p in parts)
        tmpl = "".join(p if isinstance(p, str) else p[0] for p in parts)
        args = [p[1] for p in parts if not isinstance(p, str)]
        return self.fmt(tmpl, args)

    def fmt(self, tmpl, args):
        ts = []
        for a in args:
            if isinstance(a, str):
                ts.append(tok_lit(a))
            elif isinstance(a, (int, Fraction)) or is_z3(a):
                ts.append(num(a))
            elif isinstance(a, Opaque) and "tok" in a.f:
                ts.append(a.f["tok"])
            else:
                return self.fresh(KTok, "str")
        F = z3.Function("fmt:" + tmpl, *[t.sort() for t in ts], Tok)
        self.ghost.setdefault("fmts", {})[tmpl] = F
        return F(*ts)

    def ex_FormattedValue(self, e, fr):
        return self.ev(e.value, fr)

    def ex_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        vals = []
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            last = i == len(e.values) - 1
            if last:
                vals.append(v)
                break
            t = self.truth(v)
            tb = t if isinstance(t, bool) else as_bool_const(t)
            if tb is not None:
                if tb != is_and:
                    return v if not vals else self.bool_join(vals + [v], is_and)
                continue
            # symbolic: pure merge when both are booleans, else fork
            if self.binders or getattr(self, "merge_mode", False):
                npc = len(self.pc)
                self.pc.append(t if is_and else z3.Not(t))
                try:
                    rest = self.ex_BoolOp(ast.BoolOp(op=e.op, values=e.values[i + 1:]), fr) if i + 2 < len(e.values) else self.ev(e.values[i + 1], fr)
                finally:
                    del self.pc[npc]
                rt = self.truth(rest)
                rt = z3.BoolVal(rt) if isinstance(rt, bool) else rt
                return z3.And(t, rt) if is_and else z3.Or(t, rt)
            if self.branch(t) != is_and:
                return v if not is_z3(v) or v.sort() != Bool else (not is_and)
        return vals[-1]

    def bool_join(self, vals, is_and):
        ts = [z3.BoolVal(x) if isinstance(x, bool) else x for x in map(self.truth, vals)]
        return z3.And(*ts) if is_and else z3.Or(*ts)

    def ex_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        op = type(e.op).__name__
        if op == "Not":
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if op == "USub":
            if isinstance(v, (int, float, Fraction)):
                return -v
            if is_z3(v):
                return -v
            return self.binop("Sub", 0, v)
        if op == "UAdd":
            return v
        raise Unsupported("unary " + op)

    def ex_BinOp(self, e, fr):
        return self.binop(type(e.op).__name__, self.ev(e.left, fr), self.ev(e.right, fr))

    def ex_IfExp(self, e, fr):
        t = self.truth(self.ev(e.test, fr))
        tb = t if isinstance(t, bool) else as_bool_const(t)
        if tb is not None:
            return self.ev(e.body if tb else e.orelse, fr)
        if self.binders:
            n0 = len(self.pc)
            self.pc.append(t)
            a = self.ev(e.body, fr)
            fa = self.pc[n0 + 1:]
            del self.pc[n0:]
            self.pc.append(z3.Not(t))
            b = self.ev(e.orelse, fr)
            fb = self.pc[n0 + 1:]
            del self.pc[n0:]
            self.pc += [z3.Implies(t, f) for f in fa] + [z3.Implies(z3.Not(t), f) for f in fb]
            return self.ite(t, a, b)
        return self.ev(e.body, fr) if self.branch(t) else self.ev(e.orelse, fr)

    def ex_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            t = self.compare(type(op).__name__, left, right)
            res = t if res is None else self.and_(res, t)
            left = right
        return res

    def and_(self, a, b):
        if isinstance(a, bool):
            return b if a else False
        if isinstance(b, bool):
            return a if b else False
        return z3.And(a, b)

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.is_(a, b)
            return r if op == "Is" else (not r if isinstance(r, bool) else z3.Not(r))
        if op == "Eq":
            return self.eq(a, b)
        if op == "NotEq":
            r = self.eq(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else ((not r) if isinstance(r, bool) else z3.Not(r))
        conc = (int, float, Fraction)
        if isinstance(a, conc) and isinstance(b, conc):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        ca = self.content(a) if isinstance(a, (Ref, View)) else a
        cb = self.content(b) if isinstance(b, (Ref, View)) else b
        if isinstance(ca, Seq) or isinstance(cb, Seq):
            return self.arr_map2(lambda x, y: self.compare(op, x, y), ca, cb)
        x, y = num(ca), num(cb)
        if x.sort() not in (Int, Real) or y.sort() not in (Int, Real):
            raise Unsupported("ordering of non-numbers")
        return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op]

    def is_(self, a, b):
        if isinstance(b, (bool, type(None))) or isinstance(a, (bool, type(None))):
            if is_z3(a) and a.sort() == Bool and isinstance(b, bool):
                return a == b
            if is_z3(b) and b.sort() == Bool and isinstance(a, bool):
                return b == a
            if isinstance(a, Poison) or isinstance(b, Poison):
                raise Unsupported("undetermined value")
            if is_z3(a) and a.sort() == Val and b is None:
                return z3.Function("val.isnone", Val, Bool)(a)
            return a is b if not (isinstance(a, bool) and isinstance(b, bool)) else a == b
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        if isinstance(a, (DType, ClassV, FuncV, LibV)):
            return a is b or (isinstance(a, LibV) and isinstance(b, LibV) and a.path == b.path)
        raise Unsupported("identity test")

    def eq(self, a, b):
        if a is None or b is None:
            if is_z3(a) and a.sort() == Val or is_z3(b) and b.sort() == Val:
                return z3.Function("val.isnone", Val, Bool)(a if b is None else b)
            return a is b
        conc = (int, float, Fraction, str, bool)
        if isinstance(a, conc) and isinstance(b, conc):
            if isinstance(a, str) != isinstance(b, str):
                return False
            return a == b
        if isinstance(a, str) or isinstance(b, str):
            x, y = (a, b) if isinstance(b, str) else (b, a)
            if is_z3(x):
                if x.sort() == Tok:
                    return x == tok_lit(y)
                if x.sort() == Val:
                    return z3.Function("val.tok", Val, Tok)(x) == tok_lit(y)
                return False
            return False
        if isinstance(a, DType) or isinstance(b, DType):
            return a is b
        ca = self.content(a) if isinstance(a, (Ref, View)) else a
        cb = self.content(b) if isinstance(b, (Ref, View)) else b
        if isinstance(ca, tuple) and isinstance(cb, tuple):
            if len(ca) != len(cb):
                return False
            r = True
            for x, y in zip(ca, cb):
                r = self.and_(r, self.eq(x, y))
            return r
        if (is_z3(ca) or isinstance(ca, conc)) and (is_z3(cb) or isinstance(cb, conc)):
            x, y = num(ca), num(cb)
            if x.sort() == y.sort():
                return x == y
            if {x.sort(), y.sort()} == {Int, Real}:
                return (z3.ToReal(x) if x.sort() == Int else x) == (z3.ToReal(y) if y.sort() == Int else y)
            if {x.sort(), y.sort()} == {Int, Bool}:
                bx = x if x.sort() == Int else z3.If(x, z3.IntVal(1), z3.IntVal(0))
                by = y if y.sort() == Int else z3.If(y, z3.IntVal(1), z3.IntVal(0))
                return bx == by
            return False
        if isinstance(ca, Seq) and isinstance(cb, Seq) and ca.kind != "arr":
            na, nb = int_const(ca.n), int_const(cb.n)
            if na is not None and nb is not None:
                if na != nb:
                    return False
                r = True
                for i in range(na):
                    r = self.and_(r, self.eq(ca.at(i), cb.at(i)))
                return r
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return True
        if (isinstance(ca, (Seq, DictV, RecV, SetV, FuncV, AbsFn, Opaque, tuple, ObjC)) and (isinstance(cb, conc) or is_z3(cb))) or \
           (isinstance(cb, (Seq, DictV, RecV, SetV, FuncV, AbsFn, Opaque, tuple, ObjC)) and (isinstance(ca, conc) or is_z3(ca))):
            if isinstance(ca, Seq) and ca.kind == "arr" or isinstance(cb, Seq) and cb.kind == "arr":
                raise Unsupported("array equality")
            if is_z3(ca) and ca.sort() == Val or is_z3(cb) and cb.sort() == Val:
                raise Unsupported("equality with an opaque value")
            return False
        raise Unsupported(f"equality of {ca!r} and {cb!r}")

    def contains(self, cont, x):
        ct = self.content(cont) if isinstance(cont, (Ref, View)) else cont
        if isinstance(ct, (tuple,)):
            r = False
            for y in ct:
                t = self.eq(x, y)
                if t is True:
                    return True
                if t is False:
                    continue
                r = t if r is False else z3.Or(r, t)
            return r
        if isinstance(ct, Seq):
            items = ct.meta.get("items")
            if items is not None:
                return self.contains(tuple(items), x)
            mem = self.members(ct)
            k = tok_lit(x) if isinstance(x, str) else num(x) if not is_z3(x) else x
            return mem(k)
        if isinstance(ct, RecV):
            if isinstance(x, str):
                return x in ct.items
            if is_z3(x) and not ct.items:
                return False
        if isinstance(ct, DictV):
            if ct.ksort is None:
                return False
            k = self.key(x, ct)
            return False if k is None else ct.dom(k)
        if isinstance(ct, SetV):
            if ct.lit is not None:
                return self.contains(tuple(ct.lit), x)
            if ct.ksort is None:
                return False
            k = tok_lit(x) if isinstance(x, str) else num(x) if not is_z3(x) else x
            if k.sort() != ct.ksort:
                return False
            return ct.mem(k)
        if isinstance(ct, str) and isinstance(x, str):
            return x in ct
        if isinstance(ct, LibV) and ct.path == "os.environ":
            return False
        raise Unsupported(f"membership in {ct!r}")

    def members(self, s):
        """Membership predicate of a sequence, with a witness function."""
        if "mem" in s.meta:
            return s.meta["mem"]
        # sequences with identical content share their membership predicate
        probe = z3.Int("mem!probe")
        key = None
        try:
            el = s.at(probe)
            if is_z3(el):
                key = (z3.simplify(num(s.n)).sexpr(), z3.simplify(el).sexpr())
        except Unsupported:
            pass
        cache = self.ghost.setdefault("members", {})
        if key is not None and key in cache:
            s.meta["mem"] = cache[key]
            return cache[key]
        e = kind_of(self, s).elem
        if not isinstance(e, KS):
            raise Unsupported("membership in a sequence of containers")
        b = self.binders
        mem = self.func("mem", e.sort, Bool)
        wit = self.func("wit", e.sort, Int)
        n = num(s.n)
        self.assume(All([Int], lambda j: z3.Implies(z3.And(0 <= j, j < n), mem(s.at(j)))))
        self.assume(All([e.sort], lambda t: z3.Implies(mem(t), z3.And(0 <= wit(t), wit(t) < n, s.at(wit(t)) == t)), trig=lambda t: mem(t)))
        self.cand_fns.append((e.sort, lambda t: wit(t)))
        s.meta["mem"] = mem
        if key is not None:
            cache[key] = mem
        return mem

    # ---- arithmetic
    def arr_map2(self, f, a, b):
        sa, sb = isinstance(a, Seq), isinstance(b, Seq)
        if sa and sb:
            self.require(num(a.n) == num(b.n), "ValueError", "element-wise operation on equal lengths") if not z3.eq(num(a.n), num(b.n)) else None
            n = a.n
            at = lambda i: f(a.at(i), b.at(i))
        elif sa:
            n = a.n
            at = lambda i: f(a.at(i), b)
        else:
            n = b.n
            at = lambda i: f(a, b.at(i))
        shp = (a if sa else b).meta.get("shape")
        return self.alloc("arr", Seq(n, at, "arr", None, {"shape": shp} if shp else {}))

    def binop(self, op, a, b, alloc=True):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("undetermined value")
        conc = (int, float, Fraction)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, conc) and isinstance(b, conc):
            if op == "Div":
                if b == 0:
                    if self.catching("ZeroDivisionError"):
                        raise PyRaise(ExcV("ZeroDivisionError"))
                    self.prove(z3.BoolVal(False), "no division by zero")
                    raise PathEnd()
                return Fraction(a) / Fraction(b)
            return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "FloorDiv": lambda: a // b,
                    "Mod": lambda: a % b, "Pow": lambda: a ** b, "RShift": lambda: a >> b, "LShift": lambda: a << b}[op]()
        if isinstance(a, Opaque) and a.tag == "path" and op == "Div":
            return LIB["path.join"](self, [a, b], {})
        ca = self.content(a) if isinstance(a, (Ref, View)) else a
        cb = self.content(b) if isinstance(b, (Ref, View)) else b
        if isinstance(ca, str) and isinstance(cb, str) and op == "Add":
            return ca + cb
        if isinstance(ca, str) and isinstance(cb, int) and op == "Mult":
            return ca * cb
        istok = lambda v: isinstance(v, str) or (is_z3(v) and v.sort() == Tok)
        if op == "Add" and istok(ca) and istok(cb):
            return self.strcat(ca, cb)
        if isinstance(ca, tuple) and isinstance(cb, tuple) and op == "Add":
            return ca + cb
        if isinstance(ca, Seq) and ca.kind == "list" and isinstance(cb, (Seq,)) and op == "Add":
            return self.alloc("list", self.concat(ca, cb))
        if isinstance(ca, Seq) and ca.kind == "list" and op == "Mult":
            items = ca.meta.get("items")
            k = num(b)
            if items is not None and len(items) == 1:
                return self.alloc("list", Seq(z3.If(k > 0, k, z3.IntVal(0)), lambda i: items[0], "list"))
            raise Unsupported("list repetition")
        if isinstance(ca, Seq) or isinstance(cb, Seq):
            if isinstance(ca, Seq) and ca.kind != "arr" and not isinstance(cb, Seq):
                raise Unsupported("arithmetic on a list")
            if op == "Div":
                # numpy division by zero does not raise; the result would not be a real number
                den = cb
                if isinstance(den, Seq):
                    g = All([Int], lambda i: z3.Implies(z3.And(0 <= i, i < num(den.n)), num(den.at(i)) != 0))
                    self.prove(g, "no division by zero")
                    self.assume(g)
                else:
                    other = ca
                    self.prove(z3.Implies(num(other.n) > 0, num(den) != 0), "no division by zero")
            return self.arr_map2(lambda x, y: self.scalar_op(op, x, y, check=False), ca, cb)
        if isinstance(ca, SetV) or isinstance(cb, SetV):
            nm = {"BitAnd": "intersection", "BitOr": "union", "Sub": "difference"}[op]
            return self.call_method(a, nm, [b], {})
        return self.scalar_op(op, ca, cb)

    def strcat(self, a, b):
        F = z3.Function("str.cat", Tok, Tok, Tok)
        return F(self.tok(a), self.tok(b))

    def concat(self, a, b):
        ia, ib = a.meta.get("items"), b.meta.get("items")
        if ia is not None and ib is not None:
            return mk_list(self, list(ia) + list(ib))
        n = num(a.n)

        def at(i):
            ic = int_const(i)
            if ic is not None and int_const(a.n) is not None:
                return a.at(ic) if ic < int_const(a.n) else b.at(ic - int_const(a.n))
            i = num(i)
            return self.ite(i < n, a.at(i) if int_const(a.n) != 0 else b.at(i - n), b.at(i - n))
        ea, eb = a.elem, b.elem
        if ea is None and eb is not None and ia is None:
            eb = None
        return Seq(z3.simplify(n + num(b.n)), at, "list", (ea if not isinstance(ea, KBot) else None) or eb, {"concat": (a, b)})

    def scalar_op(self, op, a, b, check=True):
        x, y = num(a), num(b)
        if x.sort() == Bool:
            x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
        if y.sort() == Bool:
            y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
        if x.sort() not in (Int, Real) or y.sort() not in (Int, Real):
            raise Unsupported(f"arithmetic {op} on {x.sort()} and {y.sort()}")
        if op == "Div":
            x = z3.ToReal(x) if x.sort() == Int else x
            y = z3.ToReal(y) if y.sort() == Int else y
            if check:
                self.require(y != 0, "ZeroDivisionError", "no division by zero")
            return x / y
        if x.sort() != y.sort():
            x = z3.ToReal(x) if x.sort() == Int else x
            y = z3.ToReal(y) if y.sort() == Int else y
        if op == "Add":
            return x + y
        if op == "Sub":
            return x - y
        if op == "Mult":
            return x * y
        if op in ("FloorDiv", "Mod", "RShift") and x.sort() == Int:
            if op == "RShift":
                s = int_const(y)
                if s is None:
                    raise Unsupported("symbolic shift")
                y = z3.IntVal(1 << s)
            if check:
                self.require(y > 0, "ZeroDivisionError", "positive divisor")
            return x / y if op != "Mod" else x % y
        if op == "Pow":
            k = int_const(y)
            if k is not None and 0 <= k <= 4:
                r = num(1)
                for _ in range(k):
                    r = r * x
                return r
        raise Unsupported(f"operator {op}")

    # ---- subscripts, calls
    def ev_index(self, sl, fr):
        if isinstance(sl, ast.Slice):
            return SliceV(self.ev(sl.lower, fr) if sl.lower else None, self.ev(sl.upper, fr) if sl.upper else None,
                          self.ev(sl.step, fr) if sl.step else None)
        if isinstance(sl, ast.Index):
            return self.ev(sl.value, fr)
        return self.ev(sl, fr)

    def ex_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.ev_index(e.slice, fr))

    def ex_Call(self, e, fr):
        ln = self.line
        self.line = getattr(e, "lineno", self.line)
        f = self.ev(e.func, fr)
        args = self.elts_star(e.args, fr)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.content(self.ev(k.value, fr))
                if isinstance(d, RecV):
                    kwargs.update(d.items)
                    continue
                if isinstance(d, DictV) and d.ksort is None:
                    continue
                raise Unsupported("** of a symbolic dictionary")
            kwargs[k.arg] = self.ev(k.value, fr)
        r = self.call(f, args, kwargs, e)
        self.line = ln
        return r

    def elts_star(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                ct = self.content(v) if isinstance(v, (Ref, View)) else v
                if isinstance(ct, Seq) and int_const(ct.n) is None:
                    out.append(StarSeq(ct))
                    continue
                s = self.iter_seq(v)
                out += [s.at(i) for i in range(int_const(s.n))]
            else:
                out.append(self.ev(x, fr))
        return out

    def ex_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        f = fr
        while f.yields is None:
            f = f.parent
        self.call_method(f.yields, "append", [v], {})
        return None

    # ---- comprehensions
    def ex_ListComp(self, e, fr):
        return self.alloc("list", self.comp(e.elt, e.generators, fr))

    def ex_GeneratorExp(self, e, fr):
        return self.comp(e.elt, e.generators, fr, kind="iter")

    def ex_SetComp(self, e, fr):
        s = self.comp(e.elt, e.generators, fr)
        return self.alloc("set", set_of_seq(self, s))

    def ex_DictComp(self, e, fr):
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        s = self.comp(pair, e.generators, fr, kind="iter")
        return self.alloc("dict", dict_of_pairs(self, s))

    def comp(self, elt, gens, fr, kind="list"):
        if len(gens) != 1:
            if len(gens) == 2 and not gens[0].ifs and not gens[1].ifs:
                raise Unsupported("nested comprehension")
            raise Unsupported("comprehension with several generators")
        g = gens[0]
        seq = self.iter_seq(self.ev(g.iter, fr))
        items = seq.meta.get("items")
        n = int_const(seq.n)
        if n is not None and n <= 40 and (items is not None or n <= 3):
            out = []
            for i in range(n):
                f2 = Frame(fr.fn, {}, fr)
                f2.module = fr_module(fr)
                self.assign(g.target, seq.at(i), f2)
                ok = True
                for cnd in g.ifs:
                    if not self.branch(self.truth(self.ev(cnd, f2))):
                        ok = False
                        break
                if ok:
                    out.append(self.ev(elt, f2))
            return mk_list(self, out, kind)
        grid = seq.meta.get("grid")

        def run(x):
            f2 = Frame(fr.fn, {}, fr)
            f2.module = fr_module(fr)
            self.assign(g.target, x, f2)
            return f2
        N = num(seq.n)
        guard = lambda j: z3.And(0 <= j, j < N)
        if g.ifs:
            if grid:
                raise Unsupported("filter over a flattened array")

            def pred(j):
                f2 = run(seq.at(j))
                t = None
                npc = len(self.pc)
                for cnd in g.ifs:
                    x = self.truth(self.ev(cnd, f2))
                    x = z3.BoolVal(x) if isinstance(x, bool) else x
                    t = x if t is None else z3.And(t, x)
                    self.pc.append(x)
                del self.pc[npc:]
                return t
            p = self.elementwise(Int, guard, pred)
            C, S, cnt = self.filter_fns(N, p)
            val = self.elementwise(Int, lambda j: z3.And(0 <= j, j < N, p(j)), lambda j: self.ev(elt, run(seq.at(j))))
            return Seq(cnt, lambda i: val(S(num(i))), kind, None, {"filter": (C, S, N, p, val)})
        if grid:
            R, K, at2 = grid
            v2 = self.elementwise(Int, lambda i: z3.And(0 <= i, i < num(R)), lambda i:
                                  TwoD(self.elementwise(Int, lambda j: z3.And(0 <= j, j < num(K)), lambda j: self.ev(elt, run(at2(i, j))))))
            raise Unsupported("grid")
        val = self.elementwise(Int, guard, lambda j: self.ev(elt, run(seq.at(j))))
        return Seq(seq.n, lambda i: val(num(i)), kind, None, {"map": (seq, val)})

    def filter_fns(self, N, p):
        """Counting function C, source-position function S and length for a filter predicate
        over 0..N-1 (shared between equal predicates)."""
        probe = z3.Int("flt!probe")
        pf = z3.simplify(p(probe))
        for (N0, pf0, binders0, r) in self.filter_cache:
            if binders0 == [b.get_id() for b in self.binders] and z3.eq(z3.simplify(N0), z3.simplify(N)):
                if z3.eq(pf0, pf):
                    return r
                p0 = pf0
                if self.entails(z3.Implies(z3.And(0 <= probe, probe < N), pf0 == pf), 1500):
                    return r
        C = self.func("cnt", Int, Int)
        S = self.func("src", Int, Int)
        cnt = C(N)
        self.assume(C(0) == 0)
        self.assume(All([Int], lambda m: z3.Implies(z3.And(0 <= m, m < N), C(m + 1) == C(m) + z3.If(p(m), 1, 0)), noquant=True))
        self.assume(All([Int], lambda m: z3.Implies(z3.And(0 <= m, m <= N), z3.And(0 <= C(m), C(m) <= m, C(m) <= C(N)))))
        self.assume(All([Int], lambda m: z3.Implies(z3.And(0 <= m, m < N, p(m)), z3.And(S(C(m)) == m, C(m) < C(N)))))
        self.assume(All([Int], lambda j: z3.Implies(z3.And(0 <= j, j < cnt), z3.And(0 <= S(j), S(j) < N, p(S(j)), C(S(j)) == j)), trig=lambda j: S(j)))
        self.assume(All([Int, Int], lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < cnt), S(i) < S(j)), trig=lambda i, j: (S(i), S(j))))
        self.cand_fns.append((Int, lambda t: S(t)))
        self.cand_fns.append((Int, lambda t: C(t)))
        r = (C, S, cnt)
        self.filter_cache.append((N, pf, [b.get_id() for b in self.binders], r))
        return r

    # ---- method calls on built-in values
    def call_method(self, obj, name, args, kwargs):
        ct = self.content(obj) if isinstance(obj, (Ref, View)) else obj
        tag = method_tag(ct)
        h = METHODS.get((tag, name)) or (METHODS.get(("seq", name)) if isinstance(ct, Seq) else None)
        if h is None:
            raise Unsupported(f"method {name} of {tag}")
        return h(self, obj, list(args), dict(kwargs))


class StarSeq:
    def __init__(self, seq):
        self.seq = seq


class TwoD:
    def __init__(self, f):
        self.f = f


class BuiltinMethod:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f"method {self.name} of {self.obj!r}"


class OldState:
    def __init__(self, c, heap):
        self.c, self.heap = c, heap

    def __call__(self, ref):
        return self.heap[ref.id] if isinstance(ref, Ref) else ref

    def content(self, v):
        return self.heap[v.id] if isinstance(v, Ref) else v


def method_tag(ct):
    if isinstance(ct, Seq):
        return ct.kind
    if isinstance(ct, (DictV, RecV)):
        return "dict"
    if isinstance(ct, SetV):
        return "set"
    if isinstance(ct, str) or (is_z3(ct) and ct.sort() == Tok):
        return "str"
    if isinstance(ct, Opaque):
        return ct.tag
    if isinstance(ct, ObjC):
        return "obj:" + (ct.cls.name if isinstance(ct.cls, ClassV) else str(ct.cls))
    if isinstance(ct, tuple):
        return "tuple"
    if is_z3(ct):
        return "num" if ct.sort() in (Int, Real) else str(ct.sort())
    return type(ct).__name__


def safe_kind(c, v):
    try:
        return kind_of(c, v)
    except Unsupported:
        return KPoison()


def raise_frame(c, what):
    c.prove(z3.BoolVal(False), f"frame: {what}")
    raise PathEnd()


def E_parents(t):
    return EXC_PARENTS.get(t, ["Exception"])


def fr_module(fr):
    f = fr
    while f is not None:
        m = getattr(f, "module", None)
        if m is not None:
            return m
        if f.fn is not None and f.fn.module is not None:
            return f.fn.module
        f = f.parent
    raise Unsupported("no module")


def module_frame(fv):
    fr = Frame(fv, {}, fv.env)
    return fr


def has_yield(node):
    st = list(node.body) if isinstance(node, ast.FunctionDef) else []
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return False


def mk_list(c, items, kind="list"):
    items = list(items)

    def at(i):
        k = int_const(i)
        if k is not None:
            return items[k]
        if not items:
            raise Unsupported("element of an empty list")
        r = items[-1]
        for j in range(len(items) - 2, -1, -1):
            r = c.ite(num(i) == j, items[j], r)
        return r
    return Seq(len(items), at, kind, KBot() if not items else None, {"items": items})


def empty_dict(c):
    return DictV(lambda t: z3.BoolVal(False), None, z3.IntVal(0), None, None, None)


def lit_set(c, items):
    if all(isinstance(x, (str, int)) for x in items):
        uniq = list(dict.fromkeys(items))
        return SetV(lambda t: z3.Or(*[t == (tok_lit(x) if isinstance(x, str) else num(x)) for x in uniq]) if uniq else z3.BoolVal(False),
                    z3.IntVal(len(uniq)), Tok if uniq and isinstance(uniq[0], str) else (Int if uniq else None), lit=uniq)
    terms = [tok_lit(x) if isinstance(x, str) else num(x) for x in items]
    return SetV(lambda t: z3.Or(*[t == x for x in terms]), None, terms[0].sort())


def set_of_seq(c, s):
    items = s.meta.get("items")
    if items is not None:
        return lit_set(c, items)
    k = kind_of(c, s)
    if isinstance(k.elem, KBot):
        return SetV(lambda t: z3.BoolVal(False), z3.IntVal(0), None, lit=[])
    if "set_enum" in s.meta:
        return s.meta["set_enum"]
    if "dict_iter" in s.meta:
        d = s.meta["dict_iter"]
        r = SetV(d.dom, d.size, d.ksort)
        return r
    mem = c.members(s)
    cache = c.ghost.setdefault("setofseq", {})
    t = z3.Const("sos!t", k.elem.sort)
    key = z3.simplify(mem(t)).sexpr()
    r = cache.get(key)
    if r is None:
        card = c.fint("card")
        c.assume(z3.And(card >= 0, card <= num(s.n)))
        c.assume(z3.Implies(num(s.n) > 0, card > 0))
        r = SetV(mem, card, k.elem.sort)
        cache[key] = r
    return r


def dict_of_pairs(c, s):
    items = s.meta.get("items")
    if items is not None:
        d = empty_dict(c)
        if not items:
            return RecV({})
        if all(isinstance(p[0], str) for p in items):
            return RecV({p[0]: p[1] for p in items})
        for p in items:
            d = c.dict_store(d, p[0], p[1])
        return d
    # symbolic: last occurrence wins; the key map must be described by a witness
    p0 = s.at(z3.Int("pair!j"))
    k0 = p0[0]
    if not is_z3(k0):
        raise Unsupported("dictionary comprehension with non-scalar keys")
    ks = k0.sort()
    n = num(s.n)
    keyseq = Seq(s.n, lambda i: s.at(i)[0], "iter", KS(ks))
    last = c.func("lastpos", ks, Int)
    dom = c.func("dcdom", ks, Bool)
    size = c.fint("dcsize")
    c.assume(z3.And(size >= 0, size <= n))
    c.assume(All([Int], lambda j: z3.Implies(z3.And(0 <= j, j < n), z3.And(dom(s.at(j)[0]), last(s.at(j)[0]) >= j))))
    c.assume(All([ks], lambda t: z3.Implies(dom(t), z3.And(0 <= last(t), last(t) < n, s.at(last(t))[0] == t)), trig=lambda t: dom(t)))
    c.cand_fns.append((ks, lambda t: last(t)))
    # enumeration: first-occurrence order; when the keys are distinct it is the identity
    i, j = z3.Const(c.uniq("di"), Int), z3.Const(c.uniq("dj"), Int)
    distinct = c.entails(z3.Implies(z3.And(0 <= i, i < j, j < n), s.at(i)[0] != s.at(j)[0]), 3000, extra=[i, j])
    if distinct:
        c.assume(size == n)
        c.assume(All([Int], lambda q: z3.Implies(z3.And(0 <= q, q < n), last(s.at(q)[0]) == q)))
        key_at = lambda q: s.at(q)[0]
        pos = lambda t: last(t)
    else:
        ka = c.func("dckey", Int, ks)
        ps = c.func("dcpos", ks, Int)
        c.assume(All([Int], lambda q: z3.Implies(z3.And(0 <= q, q < size), z3.And(dom(ka(q)), ps(ka(q)) == q)), trig=lambda q: ka(q)))
        c.assume(All([ks], lambda t: z3.Implies(dom(t), z3.And(0 <= ps(t), ps(t) < size, ka(ps(t)) == t)), trig=lambda t: ps(t)))
        key_at, pos = ka, ps
    return DictV(dom, lambda t: s.at(last(t))[1], size, key_at, pos, ks, {"pairs": s})


def con_call_args(con, a, node):
    """Positional/keyword arguments for the function under contract."""
    names = [x.arg for x in node.args.posonlyargs + node.args.args]
    kw = {k: v for k, v in a.items() if k in names or k in [x.arg for x in node.args.kwonlyargs]}
    extra = a.get("__kwargs__")
    if extra:
        kw.update(extra)
    return [], kw
