"""Symbolic interpreter for the real Python source + verification-condition discharge.

Every run parses the modules of /repo, interprets the function under contract symbolically
(path by path, loops cut at invariants, calls to contracted functions replaced by their
contracts, calls to un-contracted repository functions inlined) and hands every obligation
to z3 (cvc5 on unknown).
"""
from __future__ import annotations
import ast, os, time, hashlib, sys
import z3
from .vals import *

sys.setrecursionlimit(20000)
z3.z3.Z3_DEBUG = False
REPO = os.environ.get("PYDV_REPO", "/repo")


# ------------------------------------------------------------------ kinds
class Kind:
    def __repr__(self):
        return self.__class__.__name__


class KS(Kind):                      # scalar of a z3 sort
    def __init__(self, sort):
        self.sort = sort

    def __repr__(self):
        return f"KS({self.sort})"


KInt, KReal, KBool, KTok, KVal = KS(Int), KS(Real), KS(Bool), KS(Tok), KS(Val)


class KSeq(Kind):
    def __init__(self, elem, kind="list"):
        self.elem, self.kind = elem, kind

    def __repr__(self):
        return f"KSeq({self.elem},{self.kind})"


class KDict(Kind):
    def __init__(self, key, val):
        self.key, self.val = key, val

    def __repr__(self):
        return f"KDict({self.key},{self.val})"


class KSet(Kind):
    def __init__(self, key):
        self.key = key


class KRec(Kind):
    def __init__(self, items):
        self.items = dict(items)


class KTuple(Kind):
    def __init__(self, items):
        self.items = list(items)


class KHeap(Kind):
    def __init__(self, tag, content):
        self.tag, self.content = tag, content

    def __repr__(self):
        return f"KHeap({self.tag},{self.content})"


class KConst(Kind):                  # one fixed value (None, functions, opaque handles)
    def __init__(self, v):
        self.v = v


class KBot(Kind):
    pass


class KObj(Kind):
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class KPoison(Kind):
    pass


class Poison:
    def __init__(self, why):
        self.why = why


# ------------------------------------------------------------------ quantified statements
class All:
    """forall vars of the sorts: body(*vars).  Kept symbolic for explicit instantiation."""
    def __init__(self, sorts, body, trig=None, univ=False, noquant=False):
        self.sorts, self.body, self.trig, self.univ = list(sorts), body, trig, univ
        self.noquant = noquant      # only instantiated explicitly (recursive definitions would loop)


def flat_formula(f, counter=[0]):
    """All/list/bool/z3 -> z3 formula (with ForAll)."""
    if isinstance(f, All):
        counter[0] += 1
        vs = [z3.Const(f"q!{counter[0]}!{i}", s) for i, s in enumerate(f.sorts)]
        body = flat_formula(f.body(*vs))
        pats = []
        if f.trig is not None:
            t = f.trig(*vs)
            pats = [z3.MultiPattern(*t) if isinstance(t, (list, tuple)) else t]
        if not vs:
            return body
        return z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)
    if isinstance(f, (list, tuple)):
        return z3.And(*[flat_formula(x) for x in f]) if f else z3.BoolVal(True)
    if isinstance(f, Imp):
        return z3.Implies(flat_formula(f.a), flat_formula(f.b))
    if isinstance(f, bool):
        return z3.BoolVal(f)
    return f


class Imp:
    """Implication whose parts may contain All."""
    def __init__(self, a, b):
        self.a, self.b = a, b


# ------------------------------------------------------------------ repository modules
class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path, encoding="utf-8").read()
        self.tree = ast.parse(self.src)
        self.bind, self.weak = {}, {}
        self._collect(self.tree.body)
        for k, v in self.weak.items():
            self.bind.setdefault(k, v)

    def _collect(self, body):
        # bindings of ImportError handlers only count when nothing else binds the name
        # (assumption: the optional dependencies of the sandbox are installed)
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.bind.setdefault(st.name, []).append(st)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for a in st.names:
                    nm = a.asname or (a.name if isinstance(st, ast.ImportFrom) else a.name.split(".")[0])
                    self.bind.setdefault(nm, []).append((st, a))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.bind.setdefault(n.id, []).append(st)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.bind.setdefault(st.target.id, []).append(st)
            elif isinstance(st, ast.If):
                self._collect(st.body); self._collect(st.orelse)
            elif isinstance(st, ast.Try):
                self._collect(st.body); self._collect(st.orelse)
                for h in st.handlers:
                    save, self.bind = self.bind, self.weak
                    self._collect(h.body)
                    self.bind = save
            elif isinstance(st, ast.With):
                self._collect(st.body)


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}

    def module(self, name):
        if name not in self.mods:
            p = os.path.join(self.root, *name.split("."))
            if os.path.isdir(p):
                p = os.path.join(p, "__init__.py")
            else:
                p += ".py"
            if not os.path.exists(p):
                raise Unsupported(f"no module {name}")
            self.mods[name] = Module(name, p)
        return self.mods[name]

    def has_module(self, name):
        p = os.path.join(self.root, *name.split("."))
        return os.path.exists(p + ".py") or os.path.exists(os.path.join(p, "__init__.py"))

    def is_pkg(self, name):
        return os.path.isdir(os.path.join(self.root, *name.split(".")))

    def find(self, target):
        """'pkg.mod:Class.func' -> (module, cls node or None, func node) or None"""
        mod, q = target.split(":")
        try:
            m = self.module(mod)
        except Unsupported:
            return None
        parts = q.split(".")
        body = m.tree.body
        cls = None
        for i, p in enumerate(parts):
            nodes = [n for n in m.bind.get(p, []) if isinstance(n, (ast.FunctionDef, ast.ClassDef))] if i == 0 else \
                    [n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p]
            if not nodes:
                return None
            node = nodes[-1]
            if i < len(parts) - 1:
                cls = node
                body = node.body
        return m, cls, node


# ------------------------------------------------------------------ contracts
CONTRACTS = {}


class LoopSpec:
    def __init__(self, inv, match=None, decreases=None, name=None, hints=None):
        self.inv, self.match, self.decreases, self.name, self.hints = inv, match, decreases, name, hints


class Contract:
    target = None
    props = ()
    cases = (None,)
    loops = ()
    inline = ()          # contracted callees to inline while verifying this function
    required = True      # False: a private helper; if it is gone, its callers carry the property
    needs_params = ()
    use_at_calls = True
    globals = {}
    fuel = None

    def args(self, c, case):
        raise NotImplementedError

    def requires(self, c, a):
        return []

    def modifies(self, c, a):
        return []

    def raises(self, c, a):
        return []

    def result(self, c, a):
        return None

    def ensures(self, c, a, r, old):
        return []

    def setup(self, c, a, case):
        pass


def contract(cls):
    CONTRACTS[cls.target] = cls()
    return cls


# ------------------------------------------------------------------ obligations and results
class Oblig:
    def __init__(self, fn, name, status, backend="", secs=0.0, detail="", model=None, case=None):
        self.fn, self.name, self.status, self.backend, self.secs = fn, name, status, backend, secs
        self.detail, self.model, self.case = detail, model, case

    def key(self):
        return f"{self.fn}::{self.name}"


class Report:
    def __init__(self):
        self.obligs = []
        self.assumptions = set()
        self.functions = {}
        self.inlined = set()
        self.used = set()
        self.errors = []
        self.covers = 0


class Deadline(Exception):
    pass


STAT = {"solver": 0.0, "queries": 0}


class VC:
    path_class = None
    """Verifies contracts against the current source of the repository."""
    def __init__(self, repo=None, deadline=None, timeout_ms=10000, verbose=False):
        self.repo = repo or Repo()
        self.deadline = deadline
        self.timeout = timeout_ms
        self.report = Report()
        self.verbose = verbose
        self.mods = {}
        self.max_fail = 2

    def left(self):
        return None if self.deadline is None else self.deadline - time.time()

    # ---- one function
    def verify(self, con: Contract):
        found = self.repo.find(con.target)
        if found is None:
            if con.required:
                self.report.obligs.append(Oblig(con.target, "function exists", "failed", detail="function not found in the current tree"))
            else:
                self.report.functions[con.target] = "absent (carried by its callers)"
            return
        m, cls, node = found
        if isinstance(node, ast.FunctionDef):
            names = [x.arg for x in node.args.args + node.args.kwonlyargs]
            missing = [p for p in con.needs_params if p not in names]
            if missing:
                if con.required:
                    self.report.obligs.append(Oblig(con.target, "signature", "failed", detail=f"parameters {missing} are gone"))
                else:
                    self.report.functions[con.target] = "signature changed (inlined into its callers)"
                return
        for case in con.cases:
            self.verify_case(con, m, cls, node, case)
        self.report.functions.setdefault(con.target, "contract")

    def verify_case(self, con, m, cls, node, case):
        fails0 = sum(1 for o in self.report.obligs if o.status != "proved")
        label = con.target + (f"[{case}]" if case is not None else "")
        start = len(self.report.obligs)
        for attempt in range(30):
            del self.report.obligs[start:]
            try:
                self.explore(con, m, cls, node, case, label, start)
                break
            except RestartEx:
                continue
        else:
            self.report.obligs.append(Oblig(label, "loop frames", "failed", detail="loop modification sets did not stabilise"))
        mine = self.report.obligs[start:]
        if not mine:
            self.report.obligs.append(Oblig(label, "non-vacuity", "failed", detail="no obligation was generated"))

    def explore(self, con, m, cls, node, case, label, start):
        work = [[]]
        npaths = 0
        completed = 0
        while work:
            prefix = work.pop()
            npaths += 1
            if npaths > (con.fuel or 400):
                self.report.obligs.append(Oblig(label, "path budget", "failed", detail="too many paths"))
                return
            c = VC.path_class(self, prefix, label, con)
            try:
                ended = c.run_contract(con, m, cls, node, case)
                if ended:
                    completed += 1
            except PathEnd:
                pass
            except Unsupported as e:
                self.report.obligs.append(Oblig(label, "within the supported subset", "failed", detail=f"{e} (line {c.line})"))
            except RestartEx:
                raise
            except Deadline:
                self.report.obligs.append(Oblig(label, "time budget", "failed", detail="time budget exhausted"))
                return
            except (BreakEx, ContinueEx):
                self.report.obligs.append(Oblig(label, "control flow", "failed"))
            except PyRaise as e:
                self.report.obligs.append(Oblig(label, f"no exception escapes", "failed", detail=f"{e.exc.type} at line {c.line}"))
            except RecursionError:
                self.report.obligs.append(Oblig(label, "recursion", "failed", detail="recursion too deep"))
            except (z3.Z3Exception, AttributeError, TypeError, KeyError, IndexError, AssertionError, NotImplementedError) as e:
                import traceback
                if self.verbose:
                    traceback.print_exc()
                self.report.obligs.append(Oblig(label, "within the supported subset", "failed",
                                                detail=f"{type(e).__name__}: {e} (line {c.line})"))
            for alt in c.alternatives:
                work.append(alt)
            if sum(1 for o in self.report.obligs[start:] if o.status != "proved") >= self.max_fail:
                return
        self.report.covers += completed
        if completed == 0 and not any(o.status != "proved" for o in self.report.obligs[start:]):
            self.report.obligs.append(Oblig(label, "some path completes", "failed",
                                            detail="no feasible path reaches the end: contradictory precondition"))


# ------------------------------------------------------------------ one path
class Frame:
    def __init__(self, fn, locals_, parent=None):
        self.fn, self.locals, self.parent = fn, locals_, parent
        self.yields = None


_LITS = {}


def tok_lit(s):
    if s not in _LITS:
        _LITS[s] = z3.Const(f"lit:{s!r}", Tok)
    return _LITS[s]


class Path:
    def __init__(self, vc, prefix, label, con):
        self.vc, self.prefix, self.label, self.con = vc, prefix, label, con
        self.pc = []               # ground / plain z3 facts
        self.alls = []             # All facts
        self.heap = {}
        self.nref = 0
        self.ndec = 0
        self.taken = []
        self.alternatives = []
        self.names = {}
        self.binders = []
        self.cands = []            # candidate instantiation terms
        self.cand_fns = []         # functions term -> term producing further candidates
        self.line = 0
        self.depth = 0
        self.callstack = []
        self.write_log = set()
        self.ghost = {}
        self.folds = []
        self.module_cache = {}
        self.resolving = {}
        self.store_observers = []
        self.prov = {}
        self.effects = []
        self.loopstack = []
        self.filter_cache = []
        self.simp_cache = {}
        self.inst_cache = {}
        self.allow_raise = 0

    # ---- naming, fresh values
    def uniq(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return f"{base}!{k}"

    def family(self, kind, name, sorts, raw=False):
        nm = name if raw else self.uniq(name)
        if isinstance(kind, KS):
            if not sorts:
                v = z3.Const(nm, kind.sort)
                return lambda: v
            F = z3.Function(nm, *sorts, kind.sort)
            return lambda *ix: F(*ix)
        if isinstance(kind, KSeq):
            nf = self.family(KInt, nm + ".n", sorts, True)
            ef = self.family(kind.elem, nm + ".e", list(sorts) + [Int], True) if not isinstance(kind.elem, KBot) else None
            self.assume(All(sorts, lambda *x: nf(*x) >= 0, univ=True) if sorts else nf() >= 0)

            def mk(*ix):
                def at(i):
                    if ef is None:
                        raise Unsupported("element of a list of unknown kind")
                    return ef(*ix, num(i))
                return Seq(nf(*ix), at, kind.kind, kind.elem, {"fam": nm, "ix": ix, "mk": mk})
            return mk
        if isinstance(kind, KDict):
            ks = kind.key.sort
            df = z3.Function(nm + ".dom", *sorts, ks, Bool)
            vf = self.family(kind.val, nm + ".val", list(sorts) + [ks], True)
            sf = self.family(KInt, nm + ".size", sorts, True)
            kf = z3.Function(nm + ".key", *sorts, Int, ks)
            pf = z3.Function(nm + ".pos", *sorts, ks, Int)
            self.assume(All(list(sorts) + [Int], lambda *x: z3.Implies(z3.And(0 <= x[-1], x[-1] < sf(*x[:-1])),
                            z3.And(df(*x[:-1], kf(*x)), pf(*x[:-1], kf(*x)) == x[-1])),
                            trig=lambda *x: kf(*x), univ=True))
            self.assume(All(list(sorts) + [ks], lambda *x: z3.Implies(df(*x),
                            z3.And(0 <= pf(*x), pf(*x) < sf(*x[:-1]), kf(*x[:-1], pf(*x)) == x[-1])),
                            trig=lambda *x: df(*x), univ=True))
            self.assume(All(sorts, lambda *x: sf(*x) >= 0, univ=True) if sorts else sf() >= 0)

            def mkd(*ix):
                return DictV(lambda k: df(*ix, k), lambda k: vf(*ix, k), sf(*ix),
                             lambda j: kf(*ix, num(j)), lambda k: pf(*ix, k), ks, {"fam": nm, "kind": kind})
            return mkd
        if isinstance(kind, KSet):
            ks = kind.key.sort
            df = z3.Function(nm + ".mem", *sorts, ks, Bool)
            sf = self.family(KInt, nm + ".card", sorts, True)
            self.assume(All(sorts, lambda *x: sf(*x) >= 0, univ=True) if sorts else sf() >= 0)
            return lambda *ix: SetV(lambda k: df(*ix, k), sf(*ix), ks, {"fam": nm})
        if isinstance(kind, KRec):
            fs = {k: self.family(v, nm + "." + k, sorts, True) for k, v in kind.items.items()}
            return lambda *ix: RecV({k: f(*ix) for k, f in fs.items()})
        if isinstance(kind, KTuple):
            fs = [self.family(v, nm + f".{i}", sorts, True) for i, v in enumerate(kind.items)]
            return lambda *ix: tuple(f(*ix) for f in fs)
        if isinstance(kind, KConst):
            return lambda *ix: kind.v
        if isinstance(kind, KHeap):
            f = self.family(kind.content, nm, sorts, True)
            if sorts:
                return f                        # element of a sequence: borrowed value
            return lambda *ix: self.alloc(kind.tag, f(*ix))
        if isinstance(kind, (KPoison, KBot)):
            return lambda *ix: Poison(nm)
        raise Unsupported(f"fresh value of kind {kind}")

    def fresh(self, kind, name="v"):
        bs = list(self.binders)
        return self.family(kind, name, [b.sort() for b in bs])(*bs)

    def fint(self, name="i"):
        return self.fresh(KInt, name)

    def func(self, name, *sorts):
        """Fresh function symbol (depends on the active binders)."""
        bs = list(self.binders)
        F = z3.Function(self.uniq(name), *[b.sort() for b in bs], *sorts)
        return lambda *a: F(*bs, *[num(x) if not is_z3(x) else x for x in a])

    # ---- heap
    def alloc(self, tag, content):
        r = Ref(self.nref, tag)
        self.nref += 1
        self.heap[r.id] = content
        return r

    def get(self, ref):
        return self.heap[ref.id]

    def put(self, ref, content):
        self.heap[ref.id] = content
        self.write_log.add(ref.id)

    def content(self, v):
        """Content of a list/dict/set value, whether heap-allocated or borrowed."""
        if isinstance(v, Ref):
            return self.heap[v.id]
        if isinstance(v, View):
            base = self.heap[v.ref.id]
            return Seq(v.n, lambda i: base.at(num(v.start) + num(i)), "arr", base.elem,
                       {"slice_of": (base, v.start)})
        return v

    def frozen(self, v):
        """Immutable copy of a value (Refs replaced by their current content, recursively)."""
        if isinstance(v, (Ref, View)):
            ct = self.content(v)
            if isinstance(ct, ObjC):
                return v
            return self.frozen(ct)
        if isinstance(v, Seq):
            at = v.at
            if v.meta.get("frozen"):
                return v
            heap = dict(self.heap)

            def fat(i):
                x = at(i)
                return self.frozen(x)
            m = dict(v.meta)
            return Seq(v.n, fat, v.kind, v.elem, m)
        if isinstance(v, tuple):
            return tuple(self.frozen(x) for x in v)
        if isinstance(v, RecV):
            return RecV({k: self.frozen(x) for k, x in v.items.items()})
        if isinstance(v, NT):
            return NT(v.cls, v.names, [self.frozen(x) for x in v.vals])
        return v

    # ---- facts
    def assume(self, f):
        if f is None or f is True:
            return
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(x)
            return
        if isinstance(f, All):
            if not f.sorts:
                self.assume(f.body())
                return
            self.alls.append(f)
            return
        if isinstance(f, Imp):
            if isinstance(f.b, All) or isinstance(f.a, All) or isinstance(f.b, (list, tuple, Imp)):
                if isinstance(f.b, All) and not isinstance(f.a, All):
                    a, b = f.a, f.b
                    self.assume(All(b.sorts, lambda *x: Imp(a, b.body(*x)), b.trig))
                    return
                if isinstance(f.b, (list, tuple)):
                    for x in f.b:
                        self.assume(Imp(f.a, x))
                    return
            self.pc.append(flat_formula(f))
            return
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_and(f):
            for x in f.children():
                self.assume(x)
            return
        self.pc.append(f)

    def hint(self, *ts):
        for t in ts:
            if is_z3(t):
                self.cands.append(t)

    def lits(self):
        vs = list(_LITS.values())
        return [z3.Distinct(*vs)] if len(vs) > 1 else []

    # ---- solving
    def _solver(self, facts, timeout, mbqi=False, nl=True):
        s = z3.SimpleSolver() if not nl else z3.Solver()
        if not nl:
            s.set("smt.arith.nl", False)
        s.set("timeout", max(1, int(timeout)))
        if not mbqi:
            s.set("smt.mbqi", False)
        s.set("smt.random_seed", 1)
        for f in facts:
            s.add(f)
        return s

    def _check(self, s):
        left = self.vc.left()
        if left is not None and left <= 0:
            raise Deadline()
        t = time.time()
        r = s.check()
        dt = time.time() - t
        STAT["solver"] += dt
        STAT["queries"] += 1
        return r, dt

    def _simp(self, t):
        k = t.get_id()
        v = self.simp_cache.get(k)
        if v is None:
            v = (t, z3.simplify(t))
            self.simp_cache[k] = v
            self.simp_cache.setdefault(v[1].get_id(), (v[1], v[1]))
        return v[1]

    def _cand_terms(self, extra):
        out, seen = [], set()

        def add(t):
            t = self._simp(t)
            k = t.get_id()
            if k not in seen:
                seen.add(k)
                out.append(t)
                return True
            return False
        for t in list(extra):
            add(t)
        for t in reversed(self.cands):
            add(t)
        frontier = list(out)
        for _ in range(2):
            nxt = []
            for t in frontier:
                if len(out) >= 80:
                    break
                tsort = t.sort()
                for srt, f in self.cand_fns:
                    if tsort == srt:
                        k = (id(f), t.get_id())
                        u = self.inst_cache.get(k)
                        if u is None:
                            u = (f, t, self._simp(f(t)))
                            self.inst_cache[k] = u
                        if len(out) < 80 and add(u[2]):
                            nxt.append(u[2])
            frontier = nxt
        return out

    def _instances(self, extra, level=1):
        terms = self._cand_terms(extra)
        by = {}
        for t in terms:
            by.setdefault(t.sort().name(), []).append(t)
        out, seen = [], set()
        caps = {1: [0, 14, 8, 5, 4], 2: [0, 40, 14, 7, 5]}[level]
        limit = {1: 1500, 2: 5000}[level]
        import itertools
        for f in self.alls:
            nv = len(f.sorts)
            cap = caps[min(nv, 4)]
            lists = [by.get(s.name(), [])[:cap] for s in f.sorts]
            if any(not l for l in lists):
                continue
            for combo in itertools.product(*lists):
                if len(out) > limit:
                    return out
                key = (id(f),) + tuple(t.get_id() for t in combo)
                e = self.inst_cache.get(key)
                if e is None:
                    b = flat_formula(f.body(*combo))
                    b = b if not isinstance(b, bool) else z3.BoolVal(b)
                    e = (f, combo, b)
                    self.inst_cache[key] = e
                b = e[2]
                if z3.is_true(b) or b.get_id() in seen:
                    continue
                seen.add(b.get_id())
                out.append(b)
        return out

    def quants(self):
        return [flat_formula(a) for a in self.alls if not a.noquant]

    def facts_ground(self):
        return self.pc + self.lits()

    def entails(self, goal, timeout=2000, extra=()):
        """Quick check used for engine decisions; True only if proved."""
        if isinstance(goal, bool):
            return goal
        b = as_bool_const(goal)
        if b is not None:
            return b
        s = self._solver(self.facts_ground() + [z3.Not(goal)], timeout)
        r, _ = self._check(s)
        if r == z3.unsat:
            return True
        if self.alls:
            inst = self._instances(list(extra) + terms_in(goal))
            s = self._solver(self.facts_ground() + inst + [z3.Not(goal)], min(timeout, 400))
            r, _ = self._check(s)
            if r == z3.unsat:
                return True
            s = self._solver(self.facts_ground() + inst + self.quants() + [z3.Not(goal)], min(timeout, 700))
            r, _ = self._check(s)
            return r == z3.unsat
        return False

    def feasible(self, cond):
        b = as_bool_const(cond)
        if b is False:
            return False
        s = self._solver(self.facts_ground() + [cond], 1500)
        r, _ = self._check(s)
        if r == z3.unsat:
            return False
        if self.alls:
            s = self._solver(self.facts_ground() + self._instances(terms_in(cond)[:6]) + [cond], 600)
            r, _ = self._check(s)
            if r == z3.unsat:
                return False
        return True

    # ---- decisions
    def in_replay(self):
        return self.ndec < len(self.prefix)

    def choose(self, n, tag=""):
        """Non-deterministic choice among n alternatives (explored all)."""
        if self.binders:
            raise Unsupported("choice inside an element-wise expression")
        if self.ndec < len(self.prefix):
            d = self.prefix[self.ndec]
        else:
            d = 0
            for alt in range(n - 1, 0, -1):
                self.alternatives.append(self.taken + [alt])
        self.ndec += 1
        self.taken.append(d)
        return d

    def branch(self, cond):
        """Decide a condition; forks when both sides are feasible."""
        if isinstance(cond, bool):
            return cond
        cond = self.truth(cond)
        if isinstance(cond, bool):
            return cond
        b = as_bool_const(cond)
        if b is not None:
            return b
        if self.binders:
            if self.entails(cond):
                return True
            if self.entails(z3.Not(cond)):
                return False
            raise Unsupported("branch inside an element-wise expression")
        if self.ndec < len(self.prefix):
            d = self.prefix[self.ndec]
            self.ndec += 1
            self.taken.append(d)
            if d == 2:
                return True            # was decided true without fork
            if d == 3:
                return False
            self.assume(cond if d == 1 else z3.Not(cond))
            return d == 1
        ft = self.feasible(cond)
        ff = self.feasible(z3.Not(cond)) if ft else True
        if ft and ff:
            self.alternatives.append(self.taken + [0])
            d = 1
            self.assume(cond)
        elif ft:
            d = 2
            self.assume(cond)
        else:
            d = 3
            self.assume(z3.Not(cond))
        self.ndec += 1
        self.taken.append(d)
        return d in (1, 2)

    def truth(self, v):
        """Python truthiness."""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, str)):
            return bool(v)
        if is_z3(v):
            if v.sort() == Bool:
                return v
            if v.sort() in (Int, Real):
                return v != 0
            if v.sort() == Tok:
                return v != tok_lit("")
            raise Unsupported("truth of an opaque value")
        if isinstance(v, (Ref, Seq, View)):
            ct = self.content(v)
            if isinstance(ct, Seq):
                return num(ct.n) > 0 if is_z3(ct.n) else ct.n > 0
            if isinstance(ct, (DictV, SetV)):
                return ct.size > 0
            if isinstance(ct, RecV):
                return len(ct.items) > 0
            if isinstance(ct, ObjC):
                return True
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, (FuncV, ClassV, LibV, AbsFn, Opaque, BoundV, PartialV)):
            return True
        if isinstance(v, Poison):
            raise Unsupported("value not determined after loop: " + v.why)
        raise Unsupported(f"truth of {v!r}")

    # ---- proving
    def prove(self, goal, name, extra=(), hyps=()):
        if goal is True or goal is None:
            return True
        if self.ndec < len(self.prefix):
            return True                       # checked on an earlier path with the same prefix
        return self._prove(goal, name, list(extra), list(hyps))

    def induct(self, name, n, body, sorts=(), trig=None, univ=False):
        """Prove body(k, *xs) for all 0 <= k <= n by induction on k (two obligations), then assume it."""
        sorts = list(sorts)
        n = num(n)
        k = z3.Const(self.uniq("ind"), Int)
        if sorts:
            self.prove(All(sorts, lambda *x: body(z3.IntVal(0), *x)), f"lemma {name}: base case")
            self.prove(All(sorts, lambda *x: body(k + 1, *x)), f"lemma {name}: inductive step", extra=[k, k + 1],
                       hyps=[z3.And(0 <= k, k < n), All(sorts, lambda *x: body(k, *x))])
        else:
            self.prove(body(z3.IntVal(0)), f"lemma {name}: base case")
            self.prove(body(k + 1), f"lemma {name}: inductive step", extra=[k, k + 1], hyps=[z3.And(0 <= k, k < n), body(k)])
        self.assume(All([Int] + sorts, lambda k, *x: z3.Implies(z3.And(0 <= k, k <= n), body(k, *x)), trig=trig, univ=univ))

    def _prove(self, goal, name, extra, hyps):
        if isinstance(goal, (list, tuple)):
            ok = True
            for g in goal:
                ok = self._prove(g, name, extra, hyps) and ok
            return ok
        if isinstance(goal, All):
            vs = [z3.Const(self.uniq("sk"), s) for s in goal.sorts]
            return self._prove(goal.body(*vs), name, extra + vs, hyps)
        if isinstance(goal, Imp):
            return self._prove(goal.b, name, extra, hyps + [goal.a])
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if not is_z3(goal):
            raise Unsupported(f"goal {goal!r}")
        if z3.is_and(goal):
            ok = True
            for g in goal.children():
                ok = self._prove(g, name, extra, hyps) and ok
            return ok
        if z3.is_implies(goal):
            return self._prove(goal.arg(1), name, extra, hyps + [goal.arg(0)])
        t0 = time.time()
        status, backend, detail, model = self._discharge(goal, extra, hyps)
        dt = time.time() - t0
        where = f" (line {self.line})" if self.line else ""
        o = Oblig(self.label, name, status, backend, dt, detail + where if status != "proved" else "", model)
        self.vc.report.obligs.append(o)
        if self.vc.verbose and (status != "proved" or dt > 2):
            print(f"   [{status}] {self.label} :: {name} {dt:.1f}s {detail[:300]}", file=sys.stderr)
        # later obligations on this path may rely on it (it is reported in any case)
        f = goal
        for h in hyps:
            f = z3.Implies(flat_formula(h), f)
        if status == "proved" and not extra:
            self.assume(f)
        return status == "proved"

    def _discharge(self, goal, extra, hyps):
        b = as_bool_const(goal)
        if b is True:
            return "proved", "simplifier", "", None
        hpc, halls = [], []

        def split(h):
            if h is None or h is True:
                return
            if isinstance(h, (list, tuple)):
                for x in h:
                    split(x)
            elif isinstance(h, All):
                if h.sorts:
                    halls.append(h)
                else:
                    split(h.body())
            elif isinstance(h, Imp):
                if isinstance(h.b, (list, tuple)):
                    for x in h.b:
                        split(Imp(h.a, x))
                elif isinstance(h.b, All) and not isinstance(h.a, All):
                    halls.append(All(h.b.sorts, lambda *x: Imp(h.a, h.b.body(*x)), h.b.trig))
                else:
                    hpc.append(flat_formula(h))
            else:
                h = z3.BoolVal(h) if isinstance(h, bool) else h
                if z3.is_and(h):
                    for x in h.children():
                        split(x)
                else:
                    hpc.append(h)
        for h in hyps:
            split(h)
        self.alls.extend(halls)
        try:
            ground = self.facts_ground() + hpc
            ng = z3.Not(goal)
            s = self._solver(ground + [ng], min(2500, self.vc.timeout))
            r, _ = self._check(s)
            if r == z3.unsat:
                return "proved", "z3", "", None
            if not self.alls:
                if r == z3.unknown:
                    r2 = self._retry(ground + [ng])
                    if r2:
                        return "proved", r2, "", None
                m = s.model() if r == z3.sat else None
                return "failed", "z3", ("counter-model" if m is not None else f"unknown: {s.reason_unknown()}") + "; goal: " + short(goal), m
            ts = extra + terms_in(goal)
            na = -1
            while na != len(self.alls):
                na = len(self.alls)
                inst = self._instances(ts)
            ground = self.facts_ground() + hpc
            s1 = self._solver(ground + inst + [ng], 500)
            r1, _ = self._check(s1)
            if r1 == z3.unsat:
                return "proved", "z3+inst", "", None
            q = self.quants()
            s2 = self._solver(ground + inst + q + [ng], min(3000, self.vc.timeout))
            r2, _ = self._check(s2)
            if r2 == z3.unsat:
                return "proved", "z3+inst+quant", "", None
            if r1 == z3.unknown:
                s1 = self._solver(ground + inst + [ng], min(4000, self.vc.timeout))
                r1, _ = self._check(s1)
                if r1 == z3.unsat:
                    return "proved", "z3+inst", "", None
            s2 = self._solver(ground + inst + q + [ng], self.vc.timeout)
            r2, _ = self._check(s2)
            if r2 == z3.unsat:
                return "proved", "z3+inst+quant", "", None
            inst2 = self._instances(ts, 2)
            s3 = self._solver(ground + inst2 + [ng], self.vc.timeout)
            r3, _ = self._check(s3)
            if r3 == z3.unsat:
                return "proved", "z3+inst2", "", None
            b2 = self._retry(ground + inst + [ng])
            if b2:
                return "proved", b2, "", None
            b2 = self._retry(ground + inst + q + [ng])
            if b2:
                return "proved", b2, "", None
            if os.environ.get("PYDV_DUMP"):
                with open(os.environ["PYDV_DUMP"], "a") as fh:
                    fh.write(f"\n==== GOAL {goal}\n---- TERMS {self._cand_terms(ts)}\n---- GROUND\n" + "\n".join(str(x).replace("\n", " ") for x in ground) +
                             "\n---- QUANT\n" + "\n".join((("(nq)" if a.noquant else "") + str(flat_formula(a))).replace("\n", " ") for a in self.alls) + "\n")
            m = s1.model() if r1 == z3.sat else (s.model() if r == z3.sat else None)
            return "failed", "z3", f"{r2}/{r3}; goal: " + short(goal), m
        finally:
            ids = {id(x) for x in halls}
            self.alls = [x for x in self.alls if id(x) not in ids]

    def _retry(self, facts):
        """cvc5 on the ground query (quantifier-free instances included)."""
        try:
            import cvc5
        except ImportError:
            return None
        try:
            s = z3.Solver()
            for f in facts:
                s.add(f)
            text = s.to_smt2().replace("(check-sat)", "")
            tm = cvc5.TermManager()
            slv = cvc5.Solver(tm)
            slv.setOption("tlimit-per", str(min(6000, self.vc.timeout)))
            slv.setLogic("ALL")
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
            sm = p.getSymbolManager()
            while True:
                cmd = p.nextCommand()
                if cmd.isNull():
                    break
                cmd.invoke(slv, sm)
            t = time.time()
            r = slv.checkSat()
            STAT["solver"] += time.time() - t
            STAT["queries"] += 1
            return "cvc5" if r.isUnsat() else None
        except Exception:
            return None

    # ---- element-wise evaluation
    def elementwise(self, sort, guard, fn, name="j"):
        """Evaluate fn(j) for an arbitrary j with guard(j); returns j -> value (closure)."""
        b = z3.Const(self.uniq("b_" + name), sort)
        npc, nall = len(self.pc), len(self.alls)
        self.binders.append(b)
        self.cands.append(b)
        g = guard(b)
        self.assume(g)
        npc1 = len(self.pc)
        nall1 = len(self.alls)
        try:
            v = self.frozen(fn(b))
        finally:
            self.binders.pop()
            self.cands = [x for x in self.cands if x is not b]
            new_pc, new_all = self.pc[npc1:], self.alls[nall1:]
            del self.pc[npc:]
            del self.alls[nall:]
        gf = flat_formula(g)
        for f in new_pc:
            if mentions(f, b):
                self.alls.append(All([sort], (lambda f: lambda x: z3.Implies(z3.substitute(gf, (b, x)), z3.substitute(f, (b, x))))(f)))
            else:
                self.alls.append(All([sort], (lambda f: lambda x: z3.Implies(z3.substitute(gf, (b, x)), f))(f)))
        for a in new_all:
            if a.univ:
                self.alls.append(a)
                continue

            def mk(a):
                def body(x, *ys):
                    inner = a.body(*ys)
                    ff = flat_formula(inner)
                    return z3.Implies(z3.substitute(gf, (b, x)), z3.substitute(ff, (b, x)))
                return All([sort] + a.sorts, body)
            # facts of families already quantify over the binder themselves
            self.alls.append(mk(a))
        return lambda x: self.subst(v, b, x)

    def subst(self, v, b, x):
        x = num(x) if not is_z3(x) else x
        if is_z3(v):
            return z3.substitute(v, (b, x))
        if isinstance(v, Seq):
            at = v.at
            n = z3.substitute(v.n, (b, x)) if is_z3(v.n) else v.n
            meta = {}
            for k, m in v.meta.items():
                meta[k] = self.subst_meta(m, b, x)
            return Seq(n, lambda i: self.subst(at(i), b, x), v.kind, v.elem, meta)
        if isinstance(v, tuple):
            return tuple(self.subst(y, b, x) for y in v)
        if isinstance(v, list):
            return [self.subst(y, b, x) for y in v]
        if isinstance(v, RecV):
            return RecV({k: self.subst(y, b, x) for k, y in v.items.items()})
        if isinstance(v, NT):
            return NT(v.cls, v.names, [self.subst(y, b, x) for y in v.vals])
        if isinstance(v, DictV):
            S = lambda t: self.subst(t, b, x)
            return DictV(lambda k: S(v.dom(k)), lambda k: S(v.val(k)), S(v.size),
                         (lambda j: S(v.key_at(j))) if v.key_at else None,
                         (lambda k: S(v.pos(k))) if v.pos else None, v.ksort, v.meta)
        if isinstance(v, SetV):
            S = lambda t: self.subst(t, b, x)
            return SetV(lambda k: S(v.mem(k)), S(v.size) if v.size is not None else None, v.ksort, v.meta)
        return v

    def subst_meta(self, m, b, x):
        if is_z3(m) or isinstance(m, (Seq, tuple, NT, RecV)):
            return self.subst(m, b, x)
        return m


def short(t, n=400):
    s = str(z3.simplify(t)) if is_z3(t) else str(t)
    s = " ".join(s.split())
    return s if len(s) <= n else s[:n] + "..."


def mentions(f, b):
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.eq(x, b):
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


def consts_in(f, limit=40):
    """Uninterpreted 0-ary constants and applications with Int/Tok sort occurring in a formula."""
    out, seen = [], set()
    st = [f]
    while st and len(out) < limit:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() in (Int, Tok, Val):
                out.append(x)
            st.extend(x.children())
    return out


def terms_in(f, limit=40):
    """Constants of a formula, then the ground argument terms of its uninterpreted applications."""
    out = consts_in(f, limit)
    seen, st, ids = set(), [f], {t.get_id() for t in out}
    while st and len(out) < limit:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for y in x.children():
                    if y.sort() in (Int, Tok, Val) and y.get_id() not in ids and not z3.is_int_value(y):
                        ids.add(y.get_id())
                        out.append(y)
            st.extend(x.children())
    return out
