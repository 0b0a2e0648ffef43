"""Symbolic values of the verifier.

Scalars are concrete Python objects or z3 terms (Int, Real, Bool, Tok = hashable token/string,
Val = arbitrary opaque Python object).  Sequences, dictionaries and sets are *functional*:
length/size terms plus closures from index/key terms to values.  Mutable Python objects live in
the path's heap behind a Ref; a bare Seq/DictV/SetV is a frozen (borrowed) value whose mutation
is reported as a frame violation.
"""
from __future__ import annotations
import z3
from fractions import Fraction

Tok = z3.DeclareSort("Tok")
Val = z3.DeclareSort("Val")
Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    """The engine cannot interpret this construct (reported as an undischarged obligation)."""


class Ref:
    __slots__ = ("id", "tag")

    def __init__(self, id, tag):
        self.id, self.tag = id, tag

    def __repr__(self):
        return f"Ref#{self.id}:{self.tag}"


class Seq:
    """Immutable sequence content: list / tuple / ndarray / range / iterator."""
    def __init__(self, n, at, kind="list", elem=None, meta=None):
        self.n, self.at, self.kind, self.elem = n, at, kind, elem
        self.meta = meta or {}

    def __repr__(self):
        return f"Seq({self.kind}, n={self.n})"


class DictV:
    def __init__(self, dom, val, size, key_at=None, pos=None, ksort=None, meta=None, base=None):
        self.dom, self.val, self.size, self.key_at, self.pos = dom, val, size, key_at, pos
        self.ksort = ksort
        self.meta = meta or {}
        self.base = base or self

    def __repr__(self):
        return "DictV"


class RecV:
    """dict with concrete string keys (ordered)."""
    def __init__(self, items):
        self.items = dict(items)

    def __repr__(self):
        return f"RecV({list(self.items)})"


class SetV:
    def __init__(self, mem, size=None, ksort=None, meta=None, lit=None):
        self.mem, self.size, self.ksort = mem, size, ksort
        self.meta = meta or {}
        self.lit = lit          # concrete literal elements, if any
        self.enum = None

    def __repr__(self):
        return "SetV"


class ObjC:
    """Content of an object: class and fields."""
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, dict(fields)

    def __repr__(self):
        return f"ObjC({self.cls})"


class NT:
    """NamedTuple instance."""
    def __init__(self, cls, names, vals):
        self.cls, self.names, self.vals = cls, list(names), list(vals)

    def get(self, name):
        return self.vals[self.names.index(name)]

    def __repr__(self):
        return f"NT({self.cls.name if hasattr(self.cls, 'name') else self.cls})"


class FuncV:
    """A function of the repository: AST node, module, defining environment."""
    def __init__(self, node, module, qualname, env=None, cls=None, deco=()):
        self.node, self.module, self.qualname, self.env, self.cls = node, module, qualname, env, cls
        self.deco = deco

    def __repr__(self):
        return f"FuncV({self.module.name if self.module else '?'}:{self.qualname})"


class BoundV:
    def __init__(self, fn, self_v):
        self.fn, self.self_v = fn, self_v

    def __repr__(self):
        return f"BoundV({self.fn})"


class PartialV:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, list(args), dict(kwargs)


class ClassV:
    def __init__(self, node, module, name):
        self.node, self.module, self.name = node, module, name

    def __repr__(self):
        return f"ClassV({self.name})"


class LibV:
    """A name of an external module/function/class, by dotted path."""
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"LibV({self.path})"


class ModV:
    def __init__(self, module):
        self.module = module

    def __repr__(self):
        return f"ModV({self.module.name})"


class AbsFn:
    """Abstract callable with a model: fn(c, args, kwargs) -> value."""
    def __init__(self, name, fn, attrs=None):
        self.name, self.fn = name, fn
        self.attrs = attrs or {}

    def __repr__(self):
        return f"AbsFn({self.name})"


class DType:
    def __init__(self, role, name=None):
        self.role = role      # 'float' | 'int' | 'bool'
        self.name = name or role

    def __repr__(self):
        return f"DType({self.name})"


class Opaque:
    """A concrete-identity object the model only passes around (file, path, api...)."""
    def __init__(self, tag, **fields):
        self.tag = tag
        self.f = fields

    def __repr__(self):
        return f"Opaque({self.tag})"


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class View:
    """Slice view of an ndarray held in the heap."""
    def __init__(self, ref, start, n):
        self.ref, self.start, self.n = ref, start, n


class ExcV:
    def __init__(self, type_, args=()):
        self.type, self.args = type_, args


EXC_PARENTS = {
    "ValueError": ["Exception"], "KeyError": ["LookupError", "Exception"], "IndexError": ["LookupError", "Exception"],
    "TypeError": ["Exception"], "ImportError": ["Exception"], "FileNotFoundError": ["OSError", "Exception"],
    "AssertionError": ["Exception"], "ZeroDivisionError": ["ArithmeticError", "Exception"],
    "StopIteration": ["Exception"], "AttributeError": ["Exception"], "RuntimeError": ["Exception"],
    "OSError": ["Exception"], "LookupError": ["Exception"], "ArithmeticError": ["Exception"],
    "NotImplementedError": ["RuntimeError", "Exception"],
}


class PyRaise(Exception):
    def __init__(self, exc: ExcV):
        self.exc = exc


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PathEnd(Exception):
    """This path is finished (loop body verified, infeasible, ...)."""


class RestartEx(Exception):
    """Loop modification sets grew: verify the function again."""


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def num(v):
    """Concrete number -> z3 term; z3 term unchanged."""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float literal")
        return z3.RealVal(str(Fraction(repr(v)) if "e" not in repr(v) and "E" not in repr(v) else Fraction(v)))
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    if is_z3(v):
        return v
    raise Unsupported(f"not a number: {v!r}")


def simp(t):
    return z3.simplify(t) if is_z3(t) else t


def as_bool_const(t):
    """True/False if the z3 Bool is syntactically decided, else None."""
    if isinstance(t, bool):
        return t
    s = z3.simplify(t)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return None


def int_const(t):
    if isinstance(t, bool):
        return int(t)
    if isinstance(t, int):
        return t
    if is_z3(t):
        s = z3.simplify(t)
        if z3.is_int_value(s):
            return s.as_long()
    return None
