"""Symbolic values, types and mutable heap cells used by the verifier."""

import z3


class Unsupported(Exception):
    """The construct is outside the verified subset (verdict: undecided, never a violation)."""


class PathEnd(Exception):
    """The current path is finished (infeasible, or the inductive step of a loop was checked)."""


class Restart(Exception):
    """Something was learned (modified set, type, dropped candidate): start over."""


class PyRaise(Exception):
    """An exception of the interpreted program."""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


# --------------------------------------------------------------------------------------------
# Types
# --------------------------------------------------------------------------------------------
class Ty:
    name = "?"

    def sort(self):
        raise NotImplementedError

    def wrap(self, E, term):
        raise NotImplementedError

    def unwrap(self, E, value):
        raise NotImplementedError

    def fresh(self, E, name):
        return self.wrap(E, E.fresh_const(name, self.sort()))

    def __repr__(self):
        return self.name

    def key(self):
        return self.name

    def __eq__(self, other):
        return isinstance(other, Ty) and self.key() == other.key()

    def __hash__(self):
        return hash(self.key())


class _Int(Ty):
    name = "int"

    def sort(self):
        return z3.IntSort()

    def wrap(self, E, term):
        return SInt(term)

    def unwrap(self, E, value):
        if isinstance(value, bool):
            return z3.IntVal(int(value))
        if isinstance(value, int):
            return z3.IntVal(value)
        if isinstance(value, SInt):
            return value.t
        if isinstance(value, SBool):
            return z3.If(value.t, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported(f"not an int: {value!r}")


class _Real(Ty):
    name = "real"

    def sort(self):
        return z3.RealSort()

    def wrap(self, E, term):
        return SReal(term)

    def unwrap(self, E, value):
        if isinstance(value, float):
            from fractions import Fraction
            f = Fraction(value)
            return z3.RealVal(f"{f.numerator}/{f.denominator}")
        if isinstance(value, int):
            return z3.RealVal(int(value))
        if isinstance(value, SReal):
            return value.t
        if isinstance(value, SInt):
            return z3.ToReal(value.t)
        raise Unsupported(f"not a real: {value!r}")


class _Bool(Ty):
    name = "bool"

    def sort(self):
        return z3.BoolSort()

    def wrap(self, E, term):
        return SBool(term)

    def unwrap(self, E, value):
        if isinstance(value, bool):
            return z3.BoolVal(value)
        if isinstance(value, SBool):
            return value.t
        raise Unsupported(f"not a bool: {value!r}")


def strval(s):
    """z3 string literal for a Python string (non-ASCII and control characters escaped)."""
    out = []
    for ch in s:
        o = ord(ch)
        if 32 <= o < 127 and ch != "\\":
            out.append(ch)
        else:
            if o > 0x2ffff:
                raise Unsupported("character outside z3's alphabet")
            out.append("\\u{%x}" % o)
    return z3.StringVal("".join(out))


class _Str(Ty):
    name = "str"

    def sort(self):
        return z3.StringSort()

    def wrap(self, E, term):
        return SStr(term)

    def unwrap(self, E, value):
        if isinstance(value, str):
            return strval(value)
        if isinstance(value, SStr):
            return value.t
        raise Unsupported(f"not a str: {value!r}")


class _Char(_Str):
    """Element type of a string seen as a sequence."""
    name = "char"

    def fresh(self, E, name):
        v = super().fresh(E, name)
        E.assume(z3.Length(v.t) == 1)
        return v


class _None(Ty):
    name = "None"

    def fresh(self, E, name):
        return None


class Bits(Ty):
    """A Python int whose low n bits are tracked exactly."""

    def __init__(self, n, exact=True):
        self.n = n
        self.exact = exact
        self.name = f"bits{n}{'' if exact else '+'}"

    def sort(self):
        return z3.BitVecSort(self.n)

    def wrap(self, E, term):
        return SBits(term, False, self.exact)

    def unwrap(self, E, value):
        if isinstance(value, SBits):
            if value.t.size() != self.n or value.neg:
                raise Unsupported("bit widths")
            return value.t
        if isinstance(value, int) and 0 <= value < 2 ** self.n:
            return z3.BitVecVal(value, self.n)
        raise Unsupported(f"not a bit set: {value!r}")


INT, REAL, BOOL, STR, CHAR, NONE = _Int(), _Real(), _Bool(), _Str(), _Char(), _None()


class Opaque(Ty):
    """Objects known only by their attributes and methods.

       attrs: name -> Ty (uninterpreted function of the object) or callable(E, obj) -> value
       methods: name -> callable(E, obj, *args, **kwargs) -> value
    """

    _sorts = {}

    def __init__(self, name, attrs=None, methods=None, isinstance_=None, truth=True, pycls=None):
        self.name = name
        self.attrs = attrs or {}
        self.methods = methods or {}
        self.isinstance_ = isinstance_
        self.truth = truth
        self.pycls = pycls

    def sort(self):
        if self.name not in self._sorts:
            self._sorts[self.name] = z3.DeclareSort(self.name)
        return self._sorts[self.name]

    def wrap(self, E, term):
        return SData(term, self)

    def unwrap(self, E, value):
        if isinstance(value, SData) and value.ty.name == self.name:
            return value.t
        conv = getattr(self, "embed", None)
        if conv is not None:
            return conv(E, value)
        raise Unsupported(f"not a {self.name}: {value!r}")

    def uf(self, attr, ty):
        return z3.Function(f"{self.name}.{attr}", self.sort(), ty.sort())


class TupT(Ty):
    _sorts = {}

    def __init__(self, tys, cls=tuple):
        self.tys = tuple(tys)
        self.cls = cls
        self.name = f"({','.join(t.name for t in self.tys)})" + (
                "" if cls is tuple else ":" + cls.__name__)

    def sort(self):
        return self._dt()[0]

    def _dt(self):
        k = ",".join(str(t.sort()) for t in self.tys)
        if k not in self._sorts:
            self._sorts[k] = z3.TupleSort(f"Tup<{k}>", [t.sort() for t in self.tys])
        return self._sorts[k]

    def wrap(self, E, term):
        _, mk, accs = self._dt()
        if z3.is_app(term) and term.decl().eq(mk):
            vals = [t.wrap(E, term.arg(i)) for i, t in enumerate(self.tys)]
        else:
            vals = [t.wrap(E, a(term)) for t, a in zip(self.tys, accs)]
        if self.cls is tuple:
            return tuple(vals)
        return tuple.__new__(self.cls, vals)

    def unwrap(self, E, value):
        if not isinstance(value, tuple) or len(value) != len(self.tys):
            raise Unsupported(f"not a {self.name}: {value!r}")
        return self._dt()[1](*[t.unwrap(E, v) for t, v in zip(self.tys, value)])


class SeqT(Ty):
    def __init__(self, elem, cls=list):
        self.elem = elem
        self.cls = cls
        self.name = f"[{elem.name}]" + ("" if cls is list else ":" + cls.__name__)

    def sort(self):
        if self.elem is CHAR:
            return z3.StringSort()
        return z3.SeqSort(self.elem.sort())

    def wrap(self, E, term):
        return MList(E, [SeqP(term, self.elem)], cls=self.cls)

    def unwrap(self, E, value):
        return E.embed_rope(value, self.elem)


class OptT(Ty):
    """None or a value: materialised by forking."""

    def __init__(self, ty):
        self.ty = ty
        self.name = f"opt<{ty.name}>"

    def fresh(self, E, name):
        if E.branch(E.fresh_const(name + "_isnone", z3.BoolSort())):
            return None
        return self.ty.fresh(E, name)


# --------------------------------------------------------------------------------------------
# Values
# --------------------------------------------------------------------------------------------
class Sym:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"<{self.__class__.__name__} {self.t}>"

    def __bool__(self):
        raise Unsupported("host truth value of a symbolic value")

    def __eq__(self, other):
        raise Unsupported("host equality of a symbolic value")

    def __hash__(self):
        return id(self)


class SInt(Sym):
    __slots__ = ()


class SReal(Sym):
    __slots__ = ()


class SBool(Sym):
    __slots__ = ()


class SMaybe(SBool):
    """An optional object of which only its presence is known (a regular expression's match)."""
    __slots__ = ()


class SStr(Sym):
    __slots__ = ()


class SBits(Sym):
    """Low bits of a Python int.  neg: all higher bits are one.  exact: higher bits known."""
    __slots__ = ("neg", "exact")

    def __init__(self, t, neg=False, exact=True):
        super().__init__(t)
        self.neg = neg
        self.exact = exact


class SData(Sym):
    __slots__ = ("ty",)

    def __init__(self, t, ty):
        super().__init__(t)
        self.ty = ty


class SeqP:
    """A segment of unknown length inside a list."""
    __slots__ = ("t", "ty")

    def __init__(self, t, ty):
        self.t = t
        self.ty = ty

    def __repr__(self):
        return f"..{self.t}.."


class Cell:
    """Base class of mutable heap cells."""

    def __init__(self, E):
        self.uid = E.next_uid()
        self.born = E.loop_depth_stamp()
        self.owner = E


class MList(Cell):
    """A Python list; content is a rope of element values and SeqP segments."""

    def __init__(self, E, pieces=(), cls=list, ty=None):
        super().__init__(E)
        self.pieces = list(pieces)
        self.cls = cls
        self.ty = ty
        self.fields = {}

    def __repr__(self):
        return f"<{self.cls.__name__} {self.pieces!r}>"


class SObj(Cell):
    """An instance of a (real) class with interpreted attributes.  Unless it is complete (made
    by running the constructor), nothing is known about further attributes."""

    def __init__(self, E, cls, fields=None, complete=False):
        super().__init__(E)
        self.complete = complete
        self.cls = cls
        self.fields = dict(fields or {})

    def __repr__(self):
        return f"<{self.cls.__name__} object #{self.uid}>"


class MDict(Cell):
    """A dict with concretely known structure: list of [key, value] with host-comparable keys."""

    def __init__(self, E, items=None, cls=dict, default=None):
        super().__init__(E)
        self.items = dict(items or {})
        self.cls = cls
        self.default = default
        self.fields = {}


class SMap(Cell):
    """A dict with symbolic keys: presence array and value array."""

    def __init__(self, E, kty, vty, present, values, cls=dict, default=None):
        super().__init__(E)
        self.kty, self.vty = kty, vty
        self.present, self.values = present, values
        self.cls = cls
        self.default = default
        self.fields = {}


class MSet(Cell):
    """A set with symbolic membership (array to Bool)."""
    cls = set

    def __init__(self, E, kty, present):
        super().__init__(E)
        self.kty = kty
        self.present = present


class RSet(Cell):
    """The set of the elements of a list of unknown length (content is a rope)."""
    cls = set

    def __init__(self, E, pieces):
        super().__init__(E)
        self.pieces = list(pieces)
        self.size = None


class Blackhole:
    """Any attribute access or call is accepted and has no effect (loggers)."""

    def __repr__(self):
        return "<blackhole>"


class BoundMethod:
    def __init__(self, obj, func):
        self.obj = obj
        self.func = func


class BuiltinMethod:
    """Method `name` of a value handled by the method tables."""

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class Handler:
    """A host function working on engine values: fn(E, *args, **kwargs)."""

    def __init__(self, fn, name=None):
        self.fn = fn
        self.name = name or getattr(fn, "__name__", "handler")


class InterpFn:
    """A function, lambda or nested def whose body is interpreted."""

    def __init__(self, node, module_globals, name, closure=None, defaults=(), kwdefaults=None,
            cls=None):
        self.node = node
        self.globals = module_globals
        self.name = name
        self.closure = closure
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.cls = cls


class GenList:
    """Result of running a generator function (or generator expression) eagerly: the values it
       yields, then possibly an exception."""

    def __init__(self, mlist, exc=None):
        self.mlist = mlist
        self.exc = exc


class LazyHom:
    """A generator expression / comprehension over a rope, not evaluated yet."""

    def __init__(self, rope, fn, key=None):
        self.rope = rope
        self.fn = fn
        self.key = key


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj
