"""Semantics of Python's operators, builtin types and builtin functions on engine values."""

import ast
import builtins
import collections
import functools
import itertools
import operator
import os
import re
import types
import z3

from . import languages, spec
from .values import *
from .values import strval
from .engine import zstr


class RangeIter:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class EnumIter:
    def __init__(self, base, start):
        self.base, self.start = base, start


class StarRope:
    """*args of unknown length in a call that accepts it."""

    def __init__(self, pieces):
        self.pieces = pieces


class ListIter(Cell):
    """An iterator over a rope."""

    def __init__(self, E, pieces, exc=None):
        super().__init__(E)
        self.pieces = list(pieces)
        self.exc = exc
        self.fields = {}
        self.cls = ListIter


OPS = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
    ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
    ast.Pow: operator.pow, ast.BitAnd: operator.and_, ast.BitOr: operator.or_,
    ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
}
CMPS = {
    ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
    ast.Eq: operator.eq, ast.NotEq: operator.ne,
}
OPERATOR_FUNCS = {f: op for op, f in OPS.items()}
OPERATOR_CMPS = {f: op for op, f in CMPS.items()}

STR_METHODS = {n for n in dir(str) if not n.startswith("__")}
LIST_METHODS = {n for n in dir(list) if not n.startswith("__")} | {"__contains__", "__len__"}
DICT_METHODS = {n for n in dir(dict) if not n.startswith("__")} | {"__contains__",
        "most_common"}


def install(E):
    from . import spec
    spec.install(E)


def is_num(v):
    return isinstance(v, (int, float, SInt, SReal, SBool))


def is_str(v):
    return isinstance(v, (str, SStr))


def is_intlike(v):
    return isinstance(v, (int, SInt, SBool))


def mkint(E, t):
    t = z3.simplify(t) if not E.isolated else t
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def mkstr(E, t):
    if not E.isolated:
        s = z3.simplify(t)
        if z3.is_string_value(s):
            return zstr(s)
    elif z3.is_string_value(t):
        return zstr(t)
    return SStr(t)


# ---------------------------------------------------------------------------------------- operators
def binop(E, op, a, b):
    o = type(op)
    if E.concrete(a) and E.concrete(b) and not isinstance(a, (EnumIter, RangeIter)):
        return E.native(OPS[o], a, b)
    if isinstance(a, SObj) or isinstance(b, SObj):
        name = {ast.Add: "__add__", ast.Sub: "__sub__", ast.BitOr: "__or__",
                ast.BitAnd: "__and__"}.get(o)
        if isinstance(a, SObj) and name and hasattr(a.cls, name):
            return E.call(E.getattr(a, name), [b], {})
        raise Unsupported("operator on an object")
    if isinstance(a, SData):
        h = a.ty.methods.get({ast.Add: "__add__", ast.Sub: "__sub__"}.get(o, "?"))
        if h:
            return h(E, a, b)
    if is_str(a) and is_str(b) and o is ast.Add:
        return str_concat(E, [a, b])
    if is_str(a) and o is ast.Mod:
        return SStr(E.fresh_const("fmt", z3.StringSort()))
    if is_str(a) and is_intlike(b) and o is ast.Mult:
        return str_repeat(E, a, b)
    if is_intlike(a) and is_str(b) and o is ast.Mult:
        return str_repeat(E, b, a)
    if isinstance(a, MList) and isinstance(b, MList) and o is ast.Add:
        return E.new_list(list(a.pieces) + list(b.pieces), ty=a.ty or b.ty)
    if isinstance(a, tuple) and isinstance(b, tuple) and o is ast.Add:
        return tuple(a) + tuple(b)
    if isinstance(a, SBits) or isinstance(b, SBits):
        return bits_op(E, o, a, b)
    if isinstance(a, MDict) and isinstance(b, MDict) and o is ast.BitOr:
        d = MDict(E, {**a.items, **b.items})
        return d
    if isinstance(a, (MSet, set, frozenset)) and isinstance(b, (MSet, set, frozenset)):
        return set_op(E, o, a, b)
    if is_num(a) and is_num(b):
        return num_op(E, o, a, b)
    if (is_str(a) and (is_num(b) or b is None)) or (is_str(b) and (is_num(a) or a is None)) \
            or a is None or b is None:
        E.throw(TypeError, "unsupported operand type(s)")
    raise Unsupported(f"{o.__name__} on {a!r} and {b!r}")


def num_op(E, o, a, b):
    real = isinstance(a, (float, SReal)) or isinstance(b, (float, SReal))
    if o is ast.Div:
        E.stats["assumptions"].add("float arithmetic is treated as real arithmetic")
        x, y = REAL.unwrap(E, a if not isinstance(a, SBool) else SInt(INT.unwrap(E, a))), \
            REAL.unwrap(E, b if not isinstance(b, SBool) else SInt(INT.unwrap(E, b)))
        if E.branch(y == 0):
            E.throw(ZeroDivisionError, "division by zero")
        return SReal(x / y)
    if real:
        E.stats["assumptions"].add("float arithmetic is treated as real arithmetic")
        x, y = REAL.unwrap(E, a), REAL.unwrap(E, b)
        if o is ast.Add:
            return SReal(x + y)
        if o is ast.Sub:
            return SReal(x - y)
        if o is ast.Mult:
            return SReal(x * y)
        raise Unsupported(f"{o.__name__} on floats")
    x, y = INT.unwrap(E, a), INT.unwrap(E, b)
    if o is ast.Add:
        return mkint(E, x + y)
    if o is ast.Sub:
        return mkint(E, x - y)
    if o is ast.Mult:
        return mkint(E, x * y)
    if o in (ast.FloorDiv, ast.Mod):
        if E.branch(y == 0):
            E.throw(ZeroDivisionError, "integer division or modulo by zero")
        if not E.branch(y > 0):
            raise Unsupported("division by a negative number")
        return mkint(E, x / y if o is ast.FloorDiv else x % y)
    if o in (ast.BitAnd, ast.BitOr, ast.BitXor) and isinstance(a, (bool, SBool)) \
            and isinstance(b, (bool, SBool)):
        p, q = BOOL.unwrap(E, a), BOOL.unwrap(E, b)
        return E.mkbool({ast.BitAnd: z3.And(p, q), ast.BitOr: z3.Or(p, q),
            ast.BitXor: z3.Xor(p, q)}[o])
    if o in (ast.BitAnd, ast.BitOr, ast.BitXor) and E.bit_width:
        return bits_op(E, o, E.to_bits(a, E.bit_width), E.to_bits(b, E.bit_width))
    if o is ast.LShift and isinstance(b, int):
        return mkint(E, x * (2 ** b))
    if o is ast.RShift and isinstance(b, int):
        return mkint(E, x / (2 ** b))
    if o is ast.Pow and isinstance(b, int) and 0 <= b <= 4:
        r = z3.IntVal(1)
        for _ in range(b):
            r = r * x
        return mkint(E, r)
    raise Unsupported(f"{o.__name__} on integers")


def bits_op(E, o, a, b):
    n = (a if isinstance(a, SBits) else b).t.size()
    if o in (ast.LShift, ast.RShift):
        if isinstance(b, int) and isinstance(a, SBits) and not a.neg:
            if o is ast.RShift and a.exact:
                return SBits(z3.LShR(a.t, b), False, True)
        raise Unsupported("shift of a bit set")
    x, y = E.to_bits(a, n), E.to_bits(b, n)
    if o is ast.BitAnd:
        neg = x.neg and y.neg
        exact = (x.exact and y.exact) or (x.exact and not x.neg) or (y.exact and not y.neg)
        if x.exact and not x.neg and not y.exact:
            exact = True
        return SBits(x.t & y.t, neg, exact)
    if o is ast.BitOr:
        return SBits(x.t | y.t, x.neg or y.neg, x.exact and y.exact)
    if o is ast.BitXor:
        return SBits(x.t ^ y.t, x.neg != y.neg, x.exact and y.exact)
    if o in (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod, ast.Div):
        return num_op(E, o, bits_int(E, a), bits_int(E, b))
    raise Unsupported(f"{o.__name__} on bit sets")


def bits_int(E, v):
    if isinstance(v, SBits):
        if not v.exact:
            raise Unsupported("partially known bits")
        t = z3.BV2Int(v.t)
        if v.neg:
            t = t - 2 ** v.t.size()
        return SInt(t)
    return v


def set_op(E, o, a, b):
    raise Unsupported("set operation")


def unop(E, op, v):
    if isinstance(v, SBits) and isinstance(op, ast.Invert):
        return SBits(~v.t, not v.neg, v.exact)
    if isinstance(op, ast.USub):
        if isinstance(v, (SInt, SBool)):
            return mkint(E, -INT.unwrap(E, v))
        if isinstance(v, SReal):
            return SReal(-v.t)
    if isinstance(op, ast.UAdd) and isinstance(v, (SInt, SReal)):
        return v
    if isinstance(op, ast.Invert) and isinstance(v, SInt):
        return mkint(E, -v.t - 1)
    if E.concrete(v):
        return E.native({ast.USub: operator.neg, ast.UAdd: operator.pos,
            ast.Invert: operator.invert}[type(op)], v)
    raise Unsupported(f"unary operator on {v!r}")


def compare(E, op, a, b):
    if isinstance(op, ast.Is):
        return is_(E, a, b)
    if isinstance(op, ast.IsNot):
        return not_(E, is_(E, a, b))
    if isinstance(op, ast.In):
        return contains(E, a, b)
    if isinstance(op, ast.NotIn):
        return not_(E, contains(E, a, b))
    if isinstance(op, ast.Eq):
        return equal(E, a, b)
    if isinstance(op, ast.NotEq):
        return not_(E, equal(E, a, b))
    return order(E, type(op), a, b)


def equal(E, a, b):
    if isinstance(a, SObj) and not isinstance(b, Blackhole):
        f = a.cls.__dict__.get("__eq__") if isinstance(a.cls, type) else None
        if f is not None and isinstance(f, types.FunctionType) and E.in_repo(f.__code__.co_filename):
            return E.call(f, [a, b], {})
    return E.eq(a, b)


def not_(E, v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, SBool):
        return E.mkbool(z3.Not(v.t))
    return E.mkbool(z3.Not(E.truth_term(v)))


def is_(E, a, b):
    if a is b:
        return True
    if a is None or b is None:
        x = b if a is None else a
        if isinstance(x, SData) and "__is_none__" in x.ty.attrs:
            return x.ty.attrs["__is_none__"](E, x)
        if isinstance(x, SMaybe):
            return E.mkbool(z3.Not(x.t))
        return False
    if isinstance(a, SMaybe) or isinstance(b, SMaybe):
        raise Unsupported("identity of a match")
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return E.eq(a, b)
    if isinstance(a, SData) and isinstance(b, SData) and a.ty.name == b.ty.name:
        return E.eq(a, b)
    if isinstance(a, (Cell, type)) or isinstance(b, (Cell, type)):
        return False
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, (SData,)) or isinstance(b, (SData,)):
            h = (a if isinstance(a, SData) else b)
            f = h.ty.methods.get("__is__")
            if f:
                return f(E, h, b if h is a else a)
            return False
        raise Unsupported("identity of symbolic values")
    return a is b


def order(E, o, a, b):
    if E.concrete(a) and E.concrete(b):
        return E.native(CMPS[o], a, b)
    if isinstance(a, SBits) or isinstance(b, SBits):
        a, b = bits_int(E, a), bits_int(E, b)
    if is_num(a) and is_num(b):
        if isinstance(a, (float, SReal)) or isinstance(b, (float, SReal)):
            x, y = REAL.unwrap(E, a), REAL.unwrap(E, b)
        else:
            x, y = INT.unwrap(E, a), INT.unwrap(E, b)
        return E.mkbool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[o])
    if is_str(a) and is_str(b):
        x, y = STR.unwrap(E, a), STR.unwrap(E, b)
        return E.mkbool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: y < x, ast.GtE: y <= x}[o])
    if isinstance(a, tuple) and isinstance(b, tuple):
        return order_tuple(E, o, a, b)
    if isinstance(a, SData):
        h = a.ty.methods.get({ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__",
            ast.GtE: "__ge__"}[o])
        if h:
            return h(E, a, b)
    if isinstance(a, SObj):
        name = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}[o]
        if hasattr(a.cls, name) and getattr(a.cls, name) is not getattr(object, name):
            return E.call(E.getattr(a, name), [b], {})
    kinds = {type_kind(a), type_kind(b)}
    if len(kinds) == 2 and None not in kinds or kinds == {"none"}:
        E.throw(TypeError, "not supported between instances")
    raise Unsupported(f"ordering of {a!r} and {b!r}")


def order_tuple(E, o, a, b):
    strict = o in (ast.Lt, ast.Gt)
    for x, y in zip(a, b):
        if not E.truth(equal(E, x, y)):
            return order(E, o, x, y)
    n, m = len(a), len(b)
    return {ast.Lt: n < m, ast.LtE: n <= m, ast.Gt: n > m, ast.GtE: n >= m}[o]


def type_kind(v):
    if v is None:
        return "none"
    if is_num(v) or isinstance(v, SBits):
        return "num"
    if is_str(v):
        return "str"
    if isinstance(v, (MList, list)):
        return "list"
    if isinstance(v, tuple):
        return "tuple"
    return None


def disj(E, terms):
    """Disjunction of bool / SBool."""
    out = []
    for t in terms:
        if t is True:
            return True
        if t is False:
            continue
        out.append(t.t if isinstance(t, SBool) else t)
    if not out:
        return False
    return E.mkbool(z3.Or(*out) if len(out) > 1 else out[0])


def contains(E, x, c):
    if isinstance(c, SData):
        h = c.ty.methods.get("__contains__")
        if h:
            return h(E, c, x)
        raise Unsupported(f"membership in {c!r}")
    if is_str(c):
        if not is_str(x):
            E.throw(TypeError, "'in <string>' requires string as left operand")
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        return E.mkbool(z3.Contains(STR.unwrap(E, c), STR.unwrap(E, x)))
    if isinstance(c, MList) or isinstance(c, GenList):
        pieces = c.pieces if isinstance(c, MList) else c.mlist.pieces
        terms = []
        for p in E.norm(pieces):
            if isinstance(p, SeqP):
                try:
                    xt = p.ty.unwrap(E, x)
                except Unsupported:
                    raise
                if p.ty is CHAR:
                    terms.append(SBool(z3.And(z3.Length(xt) == 1, z3.Contains(p.t, xt))))
                else:
                    terms.append(SBool(z3.Contains(p.t, z3.Unit(xt))))
            else:
                terms.append(equal(E, x, p))
        return disj(E, terms)
    if isinstance(c, MDict):
        if E.concrete(x):
            return x in c.items
        return disj(E, [equal(E, x, k) for k in c.items])
    if isinstance(c, RSet):
        return contains(E, x, E.new_list(list(c.pieces)))
    if isinstance(c, (SMap, MSet)):
        return E.mkbool(z3.Select(c.present, c.kty.unwrap(E, x)))
    if isinstance(c, (tuple, list, set, frozenset, dict)) or \
            isinstance(c, type({}.keys())):
        if E.concrete(x) and E.concrete(c if isinstance(c, tuple) else None):
            return E.native(operator.contains, c, x)
        return disj(E, [equal(E, x, k) for k in c])
    if isinstance(c, SObj):
        return E.call(E.getattr(c, "__contains__"), [x], {})
    if E.concrete(x):
        return E.native(operator.contains, c, x)
    raise Unsupported(f"membership of {x!r} in {c!r}")


# ------------------------------------------------------------------------------------------ strings
def str_concat(E, parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if out and isinstance(out[-1], str):
                out[-1] += p
            elif p:
                out.append(str(p))
        elif isinstance(p, SStr):
            out.append(p)
        else:
            raise Unsupported(f"concatenation of {p!r}")
    if not out:
        return ""
    if len(out) == 1:
        return out[0]
    return SStr(z3.Concat(*[STR.unwrap(E, p) for p in out]))


def str_repeat(E, s, n):
    if isinstance(n, int) and n <= 64:
        return str_concat(E, [s] * max(n, 0))
    if isinstance(s, str) and len(s) == 1:
        # c * n is the string of length max(n, 0) over the single character c
        nt = INT.unwrap(E, n)
        nt = z3.simplify(z3.If(nt > 0, nt, z3.IntVal(0)))
        r = SStr(z3.Function("str.repeated", z3.StringSort(), z3.IntSort(), z3.StringSort())(
            strval(s), nt))
        E.fact(z3.InRe(r.t, z3.Star(z3.Re(strval(s)))))
        E.fact(z3.Length(r.t) == nt)
        return r
    raise Unsupported("string repetition")


def format_value(E, v, conv, spec):
    if E.concrete(v) and isinstance(spec, str):
        if conv == "r":
            v = repr(v)
        elif conv == "s":
            v = str(v)
        elif conv == "a":
            v = ascii(v)
        return E.native(format, v, spec)
    if spec == "" and conv in ("", "s"):
        if isinstance(v, SStr):
            return v
        if isinstance(v, (SInt, SBool)):
            return to_str(E, v)
        if isinstance(v, SData) and "__str__" in v.ty.methods:
            return v.ty.methods["__str__"](E, v)
        if isinstance(v, SObj) and not issubclass(v.cls, BaseException) and \
                "__str__" in v.cls.__dict__:
            return to_str(E, v)
    if isinstance(spec, str) and isinstance(v, SInt) and conv == "":
        if spec == "d":
            return to_str(E, v)
        if spec in ("02", "02d") and not E.isolated:
            if not E.branch(v.t >= 0):
                raise Unsupported("format of a negative number")
            t = z3.IntToStr(v.t)
            return SStr(z3.If(v.t < 10, z3.Concat(z3.StringVal("0"), t), t))
    if isinstance(spec, str) and isinstance(v, (SInt, SReal, SStr, SBool)):
        return SStr(E.uf(("format", conv, spec), [v.t.sort()], z3.StringSort())(v.t))
    if E.isolated:
        return SStr(z3.Const("gen_fmt", z3.StringSort()))
    return SStr(E.fresh_const("fmt", z3.StringSort()))


def to_str(E, v):
    if is_str(v):
        return v
    if isinstance(v, SInt):
        if not E.isolated:
            t = z3.IntToStr(v.t)
            E.fact(z3.Implies(v.t >= 0, z3.And(z3.InRe(t, z3.Plus(z3.Range("0", "9"))),
                z3.StrToInt(t) == v.t)))
        return SStr(z3.If(v.t >= 0, z3.IntToStr(v.t),
            z3.Concat(z3.StringVal("-"), z3.IntToStr(-v.t))))
    if isinstance(v, SBool):
        return SStr(z3.If(v.t, z3.StringVal("True"), z3.StringVal("False")))
    if isinstance(v, SData):
        h = v.ty.methods.get("__str__")
        if h:
            return h(E, v)
        return SStr(E.uf(("str", v.ty.name), [v.t.sort()], z3.StringSort())(v.t))
    if isinstance(v, SObj):
        f = getattr(v.cls, "__str__", None)
        if isinstance(f, types.FunctionType) and E.in_repo(f.__code__.co_filename):
            return E.call(f, [v], {})
        if issubclass(v.cls, BaseException):
            a = v.fields.get("args", ())
            if len(a) == 1 and is_str(a[0]):
                return a[0]
            return SStr(E.fresh_const("excstr", z3.StringSort()))
    if E.concrete(v):
        return E.native(str, v)
    return SStr(E.fresh_const("str", z3.StringSort()))


def case_term(E, name, s):
    t = STR.unwrap(E, s)
    if name == "upper" and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        # upper() works character by character
        return z3.Concat(*[case_term(E, name, SStr(a)) for a in t.children()])
    if z3.is_string_value(t):
        return strval(getattr(unstr(t), name)())
    if name in ("lower", "upper"):
        a, z = ("a", "z") if name == "upper" else ("A", "Z")
        fixed = z3.Star(z3.Union(z3.Range(z3.StringVal("\\u{0}"), z3.StringVal(chr(ord(a) - 1))),
            z3.Range(z3.StringVal(chr(ord(z) + 1)), z3.StringVal("\\u{7f}"))))
        if E.known_in(t, fixed):
            return t
    u = str_uf(E, name, s)
    if not E.isolated and name in ("lower", "upper"):
        E.fact(z3.Implies(z3.InRe(t, fixed), u == t))
    return u


def unstr(t):
    return "".join(chr(c) for c in codepoints(t.as_string()))


def codepoints(s):
    i = 0
    while i < len(s):
        if s.startswith("\\u{", i):
            j = s.index("}", i)
            yield int(s[i + 3:j], 16)
            i = j + 1
        else:
            yield ord(s[i])
            i += 1


def str_uf(E, name, s, rng=None, *extra):
    args = [STR.unwrap(E, s)] + [STR.unwrap(E, x) for x in extra]
    return E.uf(("str." + name,), [a.sort() for a in args],
            rng if rng is not None else z3.StringSort())(*args)


def ws_re():
    return z3.Union(*[z3.Re(strval(c)) for c in " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"])


def chars_re(chars):
    if len(chars) == 1:
        return z3.Re(strval(chars))
    return z3.Union(*[z3.Re(strval(c)) for c in chars])


def without(chars):
    """The strings that contain none of these characters."""
    codes = sorted({ord(c) for c in chars})
    ranges, low = [], 0
    for c in codes + [0x30000]:
        if low <= c - 1:
            ranges.append(z3.Range(z3.StringVal(f"\\u{{{low:x}}}"),
                z3.StringVal(f"\\u{{{c - 1:x}}}")))
        low = c + 1
    return z3.Star(z3.Union(*ranges) if len(ranges) > 1 else ranges[0])


def made_of(E, t, star):
    """Every known part of the string is known to be in a language closed under concatenation."""
    return all(E.known_in(p, star) for p in str_rope(E, t))


def index_in_rope(E, t, ch):
    """The position of the first ch if the known parts of the string tell, or None."""
    n = z3.IntVal(0)
    for p in str_rope(E, t):
        if z3.is_string_value(p) and ch in zstr(p):
            return z3.simplify(n + zstr(p).index(ch))
        if not E.known_in(p, without(ch)):
            return None
        n = n + z3.Length(p)
    return z3.IntVal(-1)


def strip_rope(E, t, chars, left, right):
    """strip() if the known parts of the string tell the result, or None."""
    rope = list(str_rope(E, t))
    none = without(chars)
    some = z3.Intersect(none, z3.Plus(z3.AllChar(z3.ReSort(z3.StringSort()))))
    for end in (0, -1):
        if not (left, right)[end]:
            continue
        while rope:
            p = rope[end]
            if z3.is_string_value(p):
                v = zstr(p).lstrip(chars) if end == 0 else zstr(p).rstrip(chars)
                if v:
                    rope[end] = strval(v)
                    break
                rope.pop(end)
            elif E.known_in(p, some):
                break
            else:
                return None
    return str_concat(E, [zstr(p) if z3.is_string_value(p) else SStr(p) for p in rope])


def split_rope(E, t, ch):
    """The parts of a string between the occurrences of ch if its known parts tell, or None."""
    out = [[]]
    for p in str_rope(E, t):
        if z3.is_string_value(p):
            first, *more = zstr(p).split(ch)
            out[-1].append(first)
            out += [[x] for x in more]
        elif E.known_in(p, without(ch)):
            out[-1].append(SStr(p))
        else:
            return None
    return [str_concat(E, x) if x else "" for x in out]


ASCII_DIGITS = z3.Range("0", "9")
ASCII_OTHERS = z3.Union(z3.Range(z3.StringVal("\\u{0}"), z3.StringVal("/")),
    z3.Range(z3.StringVal(":"), z3.StringVal("\\u{7f}")))


def all_digits(E, t):
    """Whether str.isdigit() is known of a string made of ASCII characters, else None."""
    zero, one = z3.IntVal(0), z3.IntVal(1)
    if t.decl().kind() in (z3.Z3_OP_SEQ_EXTRACT, z3.Z3_OP_SEQ_AT) and \
            z3.simplify(t.arg(1)).eq(zero) and (t.num_args() == 2 or z3.simplify(t.arg(2)).eq(one)):
        first = (str_rope(E, t.arg(0)) or [t])[0]
        rest = z3.Star(z3.AllChar(z3.ReSort(z3.StringSort())))
        if E.known_in(first, z3.Concat(ASCII_DIGITS, rest)):
            return True
        return False if E.known_in(first, z3.Concat(ASCII_OTHERS, rest)) else None
    if E.known_in(t, z3.Plus(ASCII_DIGITS)):
        return True
    a = z3.Star(z3.Union(ASCII_DIGITS, ASCII_OTHERS))
    return False if E.known_in(t, z3.Concat(a, ASCII_OTHERS, a)) else None


def strip_(E, s, chars, left, right):
    """str.strip family as a skolemised decomposition."""
    if chars is None:
        cls = ws_re()
        E.stats["assumptions"].add("str.strip(): white space is ASCII/Latin-1 white space")
    elif isinstance(chars, str) and chars:
        cls = chars_re(chars)
    else:
        raise Unsupported("strip argument")
    t = s.t
    if made_of(E, t, without(" \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0" if chars is None else
            chars)):
        return s
    known = strip_rope(E, t, " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0" if chars is None else
            chars, left, right)
    if known is not None:
        return known
    a = z3.StringVal("")
    b = z3.StringVal("")
    S = z3.StringSort()
    which = f"{'' if chars is None else repr(chars)}.{'l' if left else ''}{'r' if right else ''}"
    r = z3.Function("strip.core." + which, S, S)(t)
    parts = []
    if left:
        a = z3.Function("strip.lead." + which, S, S)(t)
        E.fact(z3.InRe(a, z3.Star(cls)))
        E.fact(z3.Not(z3.InRe(z3.SubString(r, 0, 1), cls)))
        parts.append(a)
    parts.append(r)
    if right:
        b = z3.Function("strip.trail." + which, S, S)(t)
        E.fact(z3.InRe(b, z3.Star(cls)))
        E.fact(z3.Not(z3.InRe(z3.SubString(r, z3.Length(r) - 1, 1), cls)))
        parts.append(b)
    E.fact(t == z3.Concat(*parts))
    if left and right:
        pass
    return SStr(r)


def str_rope(E, t):
    """The finest known decomposition of a string term: literals and atomic terms."""
    if E.isolated:
        return list(t.children()) if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [t]
    known = {}
    for c in E.pc:
        if z3.is_eq(c):
            x, y = c.children()
            if x.sort() != z3.StringSort():
                continue
            for u, v in ((x, y), (y, x)):
                if v.decl().kind() == z3.Z3_OP_SEQ_CONCAT and u.decl().kind() != \
                        z3.Z3_OP_SEQ_CONCAT:
                    known.setdefault(u.get_id(), v)
    out = []

    def expand(t, seen):
        if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for x in t.children():
                expand(x, seen)
        elif t.get_id() in known and t.get_id() not in seen:
            expand(known[t.get_id()], seen | {t.get_id()})
        elif z3.is_string_value(t) and zstr(t) == "":
            pass
        else:
            out.append(t)
    expand(t, frozenset())
    return out


def rope_affix(E, o, s, end):
    """Whether s starts or ends with o, if the known decompositions tell, or None."""
    a, b = str_rope(E, o), str_rope(E, s)
    while a:
        if not b:
            return None
        i = -1 if end else 0
        x, y = a.pop(i), b.pop(i)
        if x.eq(y):
            continue
        if not (z3.is_string_value(x) and z3.is_string_value(y)):
            return None
        x, y = zstr(x), zstr(y)
        n = min(len(x), len(y))
        if (x[-n:] if end else x[:n]) != (y[-n:] if end else y[:n]):
            return False
        for text, rest in ((x, a), (y, b)):
            if len(text) > n:
                rest.insert(len(rest) if end else 0, strval(text[:-n] if end else text[n:]))
    return True


def rope_term(ts):
    return z3.StringVal("") if not ts else ts[0] if len(ts) == 1 else z3.Concat(*ts)


def int_implied(E, goal):
    """The arithmetic part of the path condition implies goal."""
    s = z3.Solver()
    s.set("timeout", 2000)
    for c in E.pc:
        if arithmetic(E, c):
            s.add(c)
    s.add(z3.Not(goal))
    return s.check() == z3.unsat


def arithmetic(E, c):
    """Only comparisons of integer terms (lengths being opaque)."""
    cache = E.__dict__.setdefault("_arith_cache", {})
    k = c.get_id()
    if k not in cache:
        kind = c.decl().kind()
        if kind in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES):
            r = all(arithmetic(E, x) for x in c.children())
        else:
            r = z3.is_app(c) and c.num_args() == 2 and z3.is_int(c.arg(0)) and kind in (z3.Z3_OP_EQ,
                z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT)
        cache[k] = (r, c)
    return cache[k][0]


def part_length(x):
    return z3.IntVal(len(zstr(x))) if z3.is_string_value(x) else z3.Length(x)


def rope_pos(E, parts, t):
    """(index of the part, offset in it) of position t, or None if that is not evident."""
    pos = z3.IntVal(0)
    ends = [pos]
    for x in parts:
        pos = pos + part_length(x)
        ends.append(z3.simplify(pos))
    for i, e in enumerate(ends):
        d = z3.simplify(t - e)
        if z3.is_int_value(d):
            d = d.as_long()
            while d > 0 and i < len(parts) and z3.is_string_value(parts[i]) and \
                    len(zstr(parts[i])) <= d:
                d -= len(zstr(parts[i]))
                i += 1
            while d < 0 and i > 0 and z3.is_string_value(parts[i - 1]):
                d += len(zstr(parts[i - 1]))
                i -= 1
            if d == 0:
                return i, z3.IntVal(0)
            if d > 0 and i < len(parts) and z3.is_string_value(parts[i]):
                return i, z3.IntVal(d)
            if d > 0 and i == len(parts):
                return i, z3.IntVal(0)
    for i in range(len(parts)):
        if int_implied(E, z3.And(t >= ends[i], t <= ends[i + 1])):
            for k in (i, i + 1):
                if int_implied(E, t == ends[k]):
                    return k, z3.IntVal(0)
            return i, z3.simplify(t - ends[i])
    return None


def cut(E, parts, pos):
    """Cut the part at the position: (parts, index)."""
    i, off = pos
    if z3.is_int_value(off) and off.as_long() == 0:
        return parts, i
    x = parts[i]
    if z3.is_string_value(x):
        if not z3.is_int_value(off):
            return None
        text = zstr(x)
        new = [strval(text[:off.as_long()]), strval(text[off.as_long():])]
    else:
        new = [E.fresh_const("left", z3.StringSort()), E.fresh_const("right", z3.StringSort())]
        E.fact(x == z3.Concat(*new))
        n = int_value(E, off)
        E.fact(z3.Length(new[0]) == (off if n is None else n))
        E.fact(z3.Length(new[1]) == z3.Length(x) - off)
    return parts[:i] + new + parts[i + 1:], i + 1


def str_slice(E, s, start, stop):
    st = STR.unwrap(E, s)
    parts = str_rope(E, st)
    if not E.isolated and not z3.is_string_value(st):
        a, b = rope_cut(E, parts, start), None
        if a is not None:
            b = rope_cut(E, a[0], stop) if stop is not None else (a[0], len(a[0]))
        if b is not None and len(b[0]) > len(a[0]) and b[1] <= a[1]:
            return ""
        if b is not None:
            return mkstr(E, rope_term(b[0][a[1]:b[1]]))
    if (start is None or type(start) is int and start == 0) and type(stop) is int and stop >= 0:
        return mkstr(E, z3.SubString(st, 0, stop))
    n = z3.Length(st)
    a = norm_index(E, start, n) if start is not None else z3.IntVal(0)
    b = norm_index(E, stop, n) if stop is not None else n
    return mkstr(E, z3.SubString(st, a, b - a))


def int_value(E, t):
    """The number the term is known to be, or None."""
    if z3.is_int_value(t):
        return t.as_long()
    s = z3.Solver()
    s.set("timeout", 1000)
    s.add(*[c for c in E.pc if arithmetic(E, c)])
    if s.check() != z3.sat:
        return None
    v = s.model().eval(t, True)
    s.add(t != v)
    return v.as_long() if z3.is_int_value(v) and s.check() == z3.unsat else None


def rope_cut(E, parts, k):
    """The parts, cut at position k (as in a slice): (parts, index), or None if not evident."""
    if k is None or isinstance(k, int) and k == 0:
        return parts, 0
    pos = rope_pos(E, parts, INT.unwrap(E, k))
    return cut(E, parts, pos) if pos is not None else None


def rfind_parts(E, s, sep):
    """Fork: None if sep is absent, else (before, after) of the last one."""
    st = STR.unwrap(E, s)
    pt = STR.unwrap(E, sep)
    if isinstance(sep, str) and len(sep) == 1:
        parts = str_rope(E, st)
        for i in range(len(parts) - 1, -1, -1):
            x = parts[i]
            if z3.is_string_value(x):
                text = zstr(x)
                k = text.rfind(sep)
                if k < 0:
                    continue
                a, b = strval(text[:k]), strval(text[k + 1:])
            else:
                if languages.contradiction(E, z3.Contains(x, pt)) or not E.branch(z3.Contains(
                        x, pt)):
                    continue
                a = E.fresh_const("head", z3.StringSort())
                b = E.fresh_const("tail", z3.StringSort())
                E.fact(x == z3.Concat(a, pt, b))
                E.fact(z3.InRe(b, z3.Star(z3.Diff(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Re(
                    pt)))))
            none = lambda v: z3.is_string_value(v) and zstr(v) == ""
            return (mkstr(E, rope_term(parts[:i] + ([] if none(a) else [a]))),
                mkstr(E, rope_term(([] if none(b) else [b]) + parts[i + 1:])))
        return None
    if not E.branch(z3.Contains(st, pt)):
        return None
    a = E.fresh_const("head", z3.StringSort())
    b = E.fresh_const("tail", z3.StringSort())
    E.fact(st == z3.Concat(a, pt, b))
    E.fact(z3.Not(z3.Contains(z3.SubString(z3.Concat(pt, b), 1, z3.Length(b) + z3.Length(pt)),
        pt)))
    return SStr(a), SStr(b)


def find_parts(E, s, sep):
    st, pt = STR.unwrap(E, s), STR.unwrap(E, sep)
    if not E.branch(z3.Contains(st, pt)):
        return None
    a = E.fresh_const("head", z3.StringSort())
    b = E.fresh_const("tail", z3.StringSort())
    E.fact(st == z3.Concat(a, pt, b))
    if isinstance(sep, str) and len(sep) == 1:
        E.fact(z3.Not(z3.Contains(a, pt)))
    else:
        E.fact(z3.IndexOf(st, pt, 0) == z3.Length(a))
    return SStr(a), SStr(b)


def join(E, sep, pieces):
    pieces = E.norm(list(pieces))
    if not any(isinstance(p, SeqP) for p in pieces):
        parts = []
        for i, p in enumerate(pieces):
            if i:
                parts.append(sep)
            if not is_str(p):
                E.throw(TypeError, "sequence item: expected str instance")
            parts.append(p)
        return str_concat(E, parts)
    if isinstance(sep, str) and sep == "":
        parts = []
        for p in pieces:
            if isinstance(p, SeqP):
                if p.ty is CHAR:
                    parts.append(SStr(p.t))
                elif p.ty is STR:
                    parts.append(SStr(join_uf(E, "", p.t)))
                else:
                    raise Unsupported("join of non-strings")
            else:
                parts.append(p)
        return str_concat(E, parts)
    st = E.embed_rope(pieces, STR)
    r = join_uf(E, sep, st)
    if len(pieces) > 1 and not isinstance(pieces[-1], SeqP) and is_str(pieces[-1]):
        # sep.join(l + [x]) is x for an empty l, else sep.join(l) + sep + x
        init = pieces[:-1]
        x = STR.unwrap(E, pieces[-1])
        t = STR.unwrap(E, str_concat(E, [join(E, sep, init), sep, pieces[-1]]))
        if all(isinstance(p, SeqP) for p in init):
            t = z3.If(z3.Length(E.embed_rope(init, STR)) > 0, t, x)
        E.fact(r == t)
    elif len(pieces) == 1:
        E.fact(z3.Implies(z3.Length(st) == 0, r == z3.StringVal("")))
    return SStr(r)


def join_uf(E, sep, st):
    sept = STR.unwrap(E, sep)
    f = E.uf(("str.join",), [sept.sort(), st.sort()], z3.StringSort())
    app = f(sept, st)
    E.keep.append(st)

    def on_decompose(rope, app=app):
        E.fact(app == STR.unwrap(E, join(E, sep, rope)))
    E.apps.append((st, on_decompose))
    return app


def call_str(E, s, name, args, kw):
    if isinstance(s, str) and all(E.concrete(a) for a in args) and not kw:
        if name == "join" and not isinstance(args[0], (list, tuple)):
            pass
        else:
            return E.native(getattr(s, name), *args)
    a0 = args[0] if args else None
    if name in ("startswith", "endswith"):
        if len(args) > 1:
            raise Unsupported(name)
        z = z3.PrefixOf if name == "startswith" else z3.SuffixOf

        def f(o, s):
            r = rope_affix(E, o, s, name == "endswith")
            return z(o, s) if r is None else z3.BoolVal(r)
        opts = list(a0) if isinstance(a0, tuple) else [a0]
        return disj(E, [E.mkbool(f(STR.unwrap(E, o), STR.unwrap(E, s))) for o in opts])
    if name in ("lower", "upper", "casefold", "title", "swapcase", "capitalize"):
        return SStr(case_term(E, name, s))
    if name in ("isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum", "isspace", "isupper",
            "islower", "isascii", "isprintable", "isidentifier"):
        if name in ("isdigit", "isdecimal"):
            known = all_digits(E, STR.unwrap(E, s))
            if known is not None:
                return known
            t, st = str_uf(E, name, s, z3.BoolSort()), STR.unwrap(E, s)
            E.fact(z3.Implies(z3.InRe(st, z3.Plus(ASCII_DIGITS)), t))
            E.fact(z3.Implies(z3.InRe(st, z3.Star(z3.Union(ASCII_DIGITS, ASCII_OTHERS))),
                t == z3.InRe(st, z3.Plus(ASCII_DIGITS))))
            return SBool(t)
        return SBool(str_uf(E, name, s, z3.BoolSort()))
    if name in ("find", "index"):
        start = INT.unwrap(E, args[1]) if len(args) > 1 else z3.IntVal(0)
        if len(args) > 2:
            raise Unsupported(name)
        if len(args) > 1 and not E.branch(z3.And(start >= 0,
                start <= z3.Length(STR.unwrap(E, s)))):
            raise Unsupported("find with an out-of-range start")
        st, pt = STR.unwrap(E, s), STR.unwrap(E, a0)
        t = None
        if len(args) == 1 and isinstance(a0, str) and len(a0) == 1 and not E.isolated:
            t = index_in_rope(E, st, a0)
        if t is None:
            t = z3.IndexOf(st, pt, start)
        if name == "index":
            if not E.truth(E.mkbool(t >= 0)):
                E.throw(ValueError, "substring not found")
        return SInt(t)
    if name in ("rfind", "rindex"):
        if len(args) > 1:
            raise Unsupported(name)
        r = rfind_parts(E, s, a0)
        if r is None:
            if name == "rindex":
                E.throw(ValueError, "substring not found")
            return -1
        return length(E, r[0])
    if name == "rpartition":
        r = rfind_parts(E, s, a0)
        return ("", "", s) if r is None else (r[0], a0, r[1])
    if name == "partition":
        r = find_parts(E, s, a0)
        return (s, "", "") if r is None else (r[0], a0, r[1])
    if name in ("split", "rsplit"):
        maxsplit = args[1] if len(args) > 1 else kw.get("maxsplit", -1)
        if a0 is None:
            raise Unsupported("split on white space")
        if maxsplit == 1:
            r = (find_parts if name == "split" else rfind_parts)(E, s, a0)
            return E.new_list([s] if r is None else list(r))
        if maxsplit == -1 and name == "split":
            st, pt = STR.unwrap(E, s), STR.unwrap(E, a0)
            parts = split_rope(E, st, a0) if isinstance(a0, str) and len(a0) == 1 else None
            if parts is not None:
                return E.new_list(parts)
            q = E.uf(("str.split",), [st.sort(), pt.sort()], z3.SeqSort(z3.StringSort()))(st, pt)
            E.keep.append(q)
            if not E.isolated:
                E.fact(z3.Length(q) >= 1)
                if isinstance(a0, str) and len(a0) == 1:
                    E.fact((z3.Length(q) == 1) == z3.Not(z3.Contains(st, pt)))
                    E.fact(z3.Implies(z3.Length(q) == 1, q == z3.Unit(st)))
            return E.new_list([SeqP(q, STR)], ty=STR)
        raise Unsupported("split")
    if name in ("strip", "lstrip", "rstrip"):
        return strip_(E, s if isinstance(s, SStr) else SStr(strval(s)), a0,
                name != "rstrip", name != "lstrip")
    if name == "removeprefix":
        if E.truth(call_str(E, s, "startswith", [a0], {})):
            return getitem(E, s, slice(length(E, a0), None, None))
        return s
    if name == "removesuffix":
        if E.truth(call_str(E, s, "endswith", [a0], {})):
            return getitem(E, s, slice(None, binop(E, ast.Sub(), length(E, s), length(E, a0)),
                None))
        return s
    if name == "join":
        return join(E, s, list(iter_pieces(E, a0)))
    if name == "replace":
        return SStr(str_uf(E, "replace", s, None, *args))
    if name == "encode":
        return SStr(str_uf(E, "encode", s))
    if name in ("ljust", "rjust", "center", "zfill"):
        raise Unsupported(name)
    if name == "count":
        return SInt(str_uf(E, "count", s, z3.IntSort(), a0))
    raise Unsupported(f"str.{name}")


# -------------------------------------------------------------------------------------------- lists
def call_list(E, lst, name, args, kw):
    if name == "append":
        E.note_write(lst)
        lst.pieces.append(args[0])
        return None
    if name == "extend":
        v = args[0]
        p = list(iter_pieces(E, v))
        E.note_write(lst)
        lst.pieces.extend(p)
        if isinstance(v, GenList) and v.exc is not None:
            raise PyRaise(v.exc)
        return None
    if name == "pop":
        i = args[0] if args else -1
        if i == 0 and not isinstance(i, Sym):
            r = E.rope_first(lst.pieces)
            if r is None:
                E.throw(IndexError, "pop from empty list")
            E.note_write(lst)
            lst.pieces = list(r[1])
            return r[0]
        if isinstance(i, int) and i == -1:
            r = E.rope_last(lst.pieces)
            if r is None:
                E.throw(IndexError, "pop from empty list")
            E.note_write(lst)
            lst.pieces = list(r[1])
            return r[0]
        left, right = index_split(E, lst, i)
        r = E.rope_first(right)
        if r is None:
            E.throw(IndexError, "pop index out of range")
        E.note_write(lst)
        lst.pieces = left + list(r[1])
        return r[0]
    if name == "insert":
        i, v = args
        left, right = index_split(E, lst, i)
        E.note_write(lst)
        lst.pieces = left + [v] + right
        return None
    if name == "copy":
        return E.new_list(list(lst.pieces), ty=lst.ty)
    if name == "clear":
        E.note_write(lst)
        lst.pieces = []
        return None
    if name == "sort":
        E.note_write(lst)
        hook = getattr(E, "sort_hook", None)
        if hook is not None:
            lst.pieces = hook(E, lst.pieces, kw.get("key"), kw.get("reverse", False))
            return None
        lst.pieces = permuted(E, lst.pieces)
        return None
    if name == "reverse":
        ps = E.norm(lst.pieces)
        if any(isinstance(p, SeqP) for p in ps):
            raise Unsupported("reverse of a symbolic list")
        E.note_write(lst)
        lst.pieces = list(reversed(ps))
        return None
    if name == "remove":
        ps = E.norm(lst.pieces)
        for i, p in enumerate(ps):
            if isinstance(p, SeqP):
                raise Unsupported("remove from a symbolic list")
            if E.truth(equal(E, p, args[0])):
                E.note_write(lst)
                lst.pieces = ps[:i] + ps[i + 1:]
                return None
        E.throw(ValueError, "list.remove(x): x not in list")
    if name == "index":
        if len(args) == 1:
            ps = E.norm(lst.pieces)
            if not any(isinstance(p, SeqP) for p in ps):
                for i, p in enumerate(ps):
                    if E.truth(equal(E, p, args[0])):
                        return i
                E.throw(ValueError, "not in list")
    if name == "__contains__":
        return contains(E, args[0], lst)
    if name == "__len__":
        return E.rope_len(lst.pieces)
    if name == "__iter__":
        return lst
    if name == "__getitem__":
        return getitem(E, lst, args[0])
    if name == "__init__":
        if args:
            call_list(E, lst, "extend", args, kw)
        return None
    raise Unsupported(f"list.{name}")


def permuted(E, pieces):
    """Some permutation of the elements (the order is not specified)."""
    ps = E.norm(list(pieces))
    if len(ps) <= 1 and not any(isinstance(p, SeqP) for p in ps):
        return ps
    ty = E.rope_type(ps)
    if ty is None:
        return ps
    if len(ps) <= 3 and not E.isolated and not any(isinstance(p, SeqP) for p in ps):
        # one path for each order
        orders = list(itertools.permutations(ps))
        return list(orders[E.choice(len(orders))])
    try:
        orig = E.embed_rope(ps, ty)
    except Unsupported:
        raise
    r = E.fresh_seq("perm", ty)
    E.fact(z3.Length(r.t) == z3.Length(orig))
    E.perms[r.t.get_id()] = (r.t, list(ps))
    E.keep.append(r.t)
    return [r]


def index_split(E, lst, i):
    if isinstance(i, int) and i < 0:
        right = []
        left = list(lst.pieces)
        for _ in range(-i):
            r = E.rope_last(left)
            if r is None:
                return [], right
            left = list(r[1])
            right.insert(0, r[0])
        return left, right
    if isinstance(i, SInt):
        if not E.branch(i.t >= 0):
            raise Unsupported("negative symbolic index")
    return E.rope_split(lst.pieces, i)


# -------------------------------------------------------------------------------------------- dicts
def call_dict(E, d, name, args, kw):
    if isinstance(d, SMap):
        return call_map(E, d, name, args, kw)
    if name == "__init__":
        if args:
            call_dict(E, d, "update", list(args), {})
        for k, v in kw.items():
            setitem(E, d, k, v)
        return None
    if name == "get":
        k = args[0]
        dflt = args[1] if len(args) > 1 else None
        hit = dict_find(E, d, k)
        return d.items[hit] if hit is not NOTFOUND else dflt
    if name == "setdefault":
        hit = dict_find(E, d, args[0])
        if hit is not NOTFOUND:
            return d.items[hit]
        v = args[1] if len(args) > 1 else None
        setitem(E, d, args[0], v)
        return v
    if name == "pop":
        hit = dict_find(E, d, args[0])
        if hit is NOTFOUND:
            if len(args) > 1:
                return args[1]
            E.throw(KeyError, args[0])
        E.note_write(d)
        return d.items.pop(hit)
    if name == "items":
        return E.new_list([(k, v) for k, v in d.items.items()])
    if name == "keys":
        return E.new_list(list(d.items))
    if name == "values":
        return E.new_list(list(d.items.values()))
    if name == "update":
        E.note_write(d)
        if args:
            o = args[0]
            if isinstance(o, MDict):
                d.items.update(o.items)
            elif isinstance(o, dict):
                d.items.update({k: E.import_value(v) for k, v in o.items()})
            else:
                raise Unsupported("dict.update")
        d.items.update(kw)
        return None
    if name == "copy":
        return MDict(E, dict(d.items), cls=d.cls, default=d.default)
    if name == "clear":
        E.note_write(d)
        d.items.clear()
        return None
    if name == "__contains__":
        return contains(E, args[0], d)
    raise Unsupported(f"dict.{name}")


NOTFOUND = object()


def dict_find(E, d, k):
    if E.concrete(k):
        try:
            return k if k in d.items else NOTFOUND
        except TypeError:
            E.throw(TypeError, "unhashable type")
    if isinstance(k, (MList, MDict)):
        E.throw(TypeError, "unhashable type")
    for x in d.items:
        e = equal(E, x, k)
        if E.truth(e):
            return x
    return NOTFOUND


def call_map(E, m, name, args, kw):
    if name == "get":
        k = m.kty.unwrap(E, args[0])
        if E.branch(z3.Select(m.present, k)):
            return m.vty.wrap(E, z3.Select(m.values, k))
        return args[1] if len(args) > 1 else None
    if name == "setdefault":
        k = m.kty.unwrap(E, args[0])
        if E.branch(z3.Select(m.present, k)):
            return m.vty.wrap(E, z3.Select(m.values, k))
        setitem(E, m, args[0], args[1])
        return args[1]
    if name == "pop":
        k = m.kty.unwrap(E, args[0])
        if E.branch(z3.Select(m.present, k)):
            v = m.vty.wrap(E, z3.Select(m.values, k))
            E.note_write(m)
            m.present = z3.Store(m.present, k, False)
            return v
        if len(args) > 1:
            return args[1]
        E.throw(KeyError, args[0])
    if name == "__contains__":
        return contains(E, args[0], m)
    raise Unsupported(f"map.{name}")


# --------------------------------------------------------------------------------------- dispatching
def has_method(obj, name):
    if isinstance(obj, MList):
        return name in LIST_METHODS
    if isinstance(obj, (MDict, SMap)):
        return name in DICT_METHODS
    if isinstance(obj, (MSet, RSet)):
        return name in ("add", "discard", "remove", "update", "copy", "pop", "__contains__")
    if isinstance(obj, ListIter):
        return name in ("__next__", "__iter__")
    return False


def call_method(E, obj, name, args, kw):
    if is_str(obj):
        return call_str(E, obj, name, args, kw)
    if isinstance(obj, MList):
        return call_list(E, obj, name, args, kw)
    if isinstance(obj, (MDict, SMap)):
        return call_dict(E, obj, name, args, kw)
    if isinstance(obj, (MSet, RSet)):
        return call_set(E, obj, name, args, kw)
    if isinstance(obj, GenList):
        if name == "close":
            return None
        raise Unsupported(f"generator.{name}")
    if isinstance(obj, (int, SInt, SBool, SBits)):
        if name == "is_integer":
            return True
        if isinstance(obj, int) and not isinstance(obj, Sym):
            return E.native(getattr(obj, name), *args, **kw)
    if isinstance(obj, SReal) and name == "is_integer":
        return SBool(z3.IsInt(obj.t))
    if isinstance(obj, SObj):
        raise Unsupported(f"builtin method {name} of {obj!r}")
    raise Unsupported(f"method {name} of {obj!r}")


def set_size(E, s):
    """The number of different elements, as far as it is none, one or more."""
    if s.size is None:
        n = E.fresh_const("size", z3.IntSort())
        total = INT.unwrap(E, E.rope_len(s.pieces))
        E.fact(z3.And(n >= 0, n <= total, (n == 0) == (total == 0)))
        same = E.as_bool_term(E.spec(spec.all_same, E.new_list(list(s.pieces))))
        E.fact(z3.Implies(total > 0, (n == 1) == same))
        s.size = SInt(n)
    return s.size


def call_rset(E, s, name, args):
    if name in ("add", "update"):
        E.note_write(s)
        s.pieces = E.norm(s.pieces + (list(args) if name == "add" else [p for a in args for p in
            iter_pieces(E, a)]))
        s.size = None
        return None
    if name == "pop":
        n = set_size(E, s)
        if not E.branch(n.t > 0):
            E.throw(KeyError, "pop from an empty set")
        ty = E.rope_type(s.pieces)
        x = ty.wrap(E, E.fresh_const("popped", ty.sort()))
        E.fact(E.as_bool_term(contains(E, x, E.new_list(list(s.pieces)))))
        first = E.rope_first(list(s.pieces))[0]
        E.fact(z3.Implies(n.t == 1, E.as_bool_term(equal(E, x, first))))
        E.note_write(s)
        s.pieces = [E.fresh_seq("left", ty)]
        s.size = None
        return x
    if name == "copy":
        return RSet(E, s.pieces)
    if name == "__contains__":
        return contains(E, args[0], s)
    raise Unsupported(f"set.{name}")


def call_set(E, s, name, args, kw):
    if isinstance(s, RSet):
        return call_rset(E, s, name, args)
    if name == "add":
        E.note_write(s)
        s.present = z3.Store(s.present, s.kty.unwrap(E, args[0]), True)
        return None
    if name in ("discard", "remove"):
        k = s.kty.unwrap(E, args[0])
        if name == "remove" and not E.branch(z3.Select(s.present, k)):
            E.throw(KeyError, args[0])
        E.note_write(s)
        s.present = z3.Store(s.present, k, False)
        return None
    if name == "update":
        E.note_write(s)
        for p in E.norm(list(iter_pieces(E, args[0]))):
            if isinstance(p, SeqP):
                raise Unsupported("set.update with a symbolic list")
            s.present = z3.Store(s.present, s.kty.unwrap(E, p), True)
        return None
    if name == "__contains__":
        return contains(E, args[0], s)
    raise Unsupported(f"set.{name}")


def make_set(E, pieces):
    ps = E.norm(list(pieces))
    if all(not isinstance(p, SeqP) and E.concrete(p) for p in ps):
        return E.native(set, ps)
    ty = E.rope_type(ps)
    present = z3.K(ty.sort(), False)
    for p in ps:
        if isinstance(p, SeqP):
            return RSet(E, ps)
        present = z3.Store(present, ty.unwrap(E, p), True)
    return MSet(E, ty, present)


def iter_pieces(E, v):
    """The rope of an iterable."""
    if isinstance(v, MList):
        if v.cls is not list:
            it = getattr(v.cls, "__iter__", None)
            if isinstance(it, types.FunctionType):
                return iter_pieces(E, E.call(it, [v], {}))
        return list(v.pieces)
    if isinstance(v, GenList):
        return list(v.mlist.pieces)
    if isinstance(v, ListIter):
        ps = v.pieces
        v.pieces = []
        return ps
    if isinstance(v, StarRope):
        return v.pieces
    if isinstance(v, RSet):
        E.stats["assumptions"].add("nothing but its length is known about the order in which a set "
            "is iterated")
        n = set_size(E, v)
        p = E.fresh_seq("elements", E.rope_type(v.pieces))
        E.fact(INT.unwrap(E, E.rope_len([p])) == n.t)
        return [p]
    if isinstance(v, SStr):
        return [SeqP(v.t, CHAR)]
    if isinstance(v, str):
        return list(v)
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, RangeIter):
        if all(isinstance(x, int) for x in (v.start, v.stop, v.step)):
            return list(range(v.start, v.stop, v.step))
        raise Unsupported("symbolic range as a list")
    if isinstance(v, EnumIter):
        ps = E.expanded(iter_pieces(E, v.base))
        if any(isinstance(p, SeqP) for p in ps):
            raise Unsupported("enumerate of a symbolic list as a list")
        return [(binop(E, ast.Add(), v.start, i), p) for i, p in enumerate(ps)]
    if isinstance(v, MDict):
        return list(v.items)
    if isinstance(v, SObj):
        it = getattr(v.cls, "__iter__", None)
        if it is None:
            E.throw(TypeError, "object is not iterable")
        return iter_pieces(E, E.call(E.getattr(v, "__iter__"), [], {}))
    if isinstance(v, SData):
        h = v.ty.methods.get("__iter__")
        if h is None:
            raise Unsupported(f"iteration over {v!r}")
        return iter_pieces(E, h(E, v))
    if v is None or isinstance(v, (int, float, SInt, SBool, SReal)):
        E.throw(TypeError, "object is not iterable")
    if isinstance(v, (list, set, frozenset, dict, type({}.keys()), type({}.values()),
            type({}.items()), range, os._Environ, collections.OrderedDict)):
        if isinstance(v, (set, frozenset)) and len(v) > 1:
            E.stats["assumptions"].add("sets of constants are iterated in one (arbitrary) order")
        return [E.import_value(x) for x in v]
    if isinstance(v, (types.GeneratorType, map, filter, zip, enumerate, itertools.chain)):
        return [E.import_value(x) for x in v]
    raise Unsupported(f"iteration over {v!r}")


def length(E, v):
    if isinstance(v, SStr):
        return SInt(z3.Length(v.t))
    if isinstance(v, MList):
        ln = getattr(v.cls, "__len__", None)
        if isinstance(ln, types.FunctionType):
            return E.call(ln, [v], {})
        return E.rope_len(v.pieces)
    if isinstance(v, MDict):
        return len(v.items)
    if isinstance(v, RSet):
        return set_size(E, v)
    if isinstance(v, SData):
        h = v.ty.methods.get("__len__")
        if h:
            return h(E, v)
    if isinstance(v, SObj):
        if hasattr(v.cls, "__len__"):
            return E.call(E.getattr(v, "__len__"), [], {})
        E.throw(TypeError, "object has no len()")
    if isinstance(v, (Sym, Cell, GenList)):
        raise Unsupported(f"len of {v!r}")
    return E.native(len, v)


def norm_index(E, i, n):
    """Clamp a slice bound; n is the length term."""
    t = INT.unwrap(E, i)
    t = z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t))
    return z3.simplify(t)


def getitem(E, obj, i):
    if isinstance(obj, MList):
        if isinstance(i, slice):
            return list_slice(E, obj, i)
        if isinstance(i, int) and i in (0, -1):
            r = (E.rope_first if i == 0 else E.rope_last)(obj.pieces)
            if r is None:
                E.throw(IndexError, "list index out of range")
            return r[0]
        if isinstance(i, int) and i < 0:
            rest = list(obj.pieces)
            for k in range(-i):
                r = E.rope_last(rest)
                if r is None:
                    E.throw(IndexError, "list index out of range")
                rest = list(r[1])
            return r[0]
        if not is_intlike(i):
            E.throw(TypeError, "list indices must be integers")
        if isinstance(i, SInt) and not E.branch(i.t >= 0):
            t = z3.simplify(-i.t)
            raise Unsupported("negative symbolic index")
        left, right = E.rope_split(obj.pieces, i)
        r = E.rope_first(right)
        if r is None:
            E.throw(IndexError, "list index out of range")
        return r[0]
    if isinstance(obj, SStr) or (isinstance(obj, str) and (isinstance(i, SInt) or (
            isinstance(i, slice) and any(isinstance(x, SInt) for x in
                (i.start, i.stop, i.step))))):
        st = STR.unwrap(E, obj)
        n = z3.Length(st)
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("string slice with step")
            return str_slice(E, obj, i.start, i.stop)
        if not is_intlike(i):
            E.throw(TypeError, "string indices must be integers")
        t = INT.unwrap(E, i)
        if not E.branch(z3.And(t < n, t >= -n)):
            E.throw(IndexError, "string index out of range")
        return mkstr(E, z3.SubString(st, z3.If(t < 0, t + n, t), 1))
    if isinstance(obj, MDict):
        hit = dict_find(E, obj, i)
        if hit is NOTFOUND:
            if obj.default is not None:
                v = E.call(obj.default, [], {})
                setitem(E, obj, i, v)
                return v
            if obj.cls is collections.Counter:
                return 0
            E.throw(KeyError, i)
        return obj.items[hit]
    if isinstance(obj, SMap):
        k = obj.kty.unwrap(E, i)
        if E.branch(z3.Select(obj.present, k)):
            return obj.vty.wrap(E, z3.Select(obj.values, k))
        if obj.default is not None:
            v = E.call(obj.default, [], {})
            setitem(E, obj, i, v)
            return v
        if obj.cls is collections.Counter:
            return 0
        E.throw(KeyError, i)
    if isinstance(obj, SData):
        h = obj.ty.methods.get("__getitem__")
        if h:
            return h(E, obj, i)
        raise Unsupported(f"subscript of {obj!r}")
    if isinstance(obj, SObj):
        return E.call(E.getattr(obj, "__getitem__"), [i], {})
    if isinstance(obj, tuple) and not isinstance(i, Sym):
        if isinstance(i, slice):
            if any(isinstance(x, Sym) for x in (i.start, i.stop, i.step)):
                raise Unsupported("symbolic tuple slice")
            return tuple(obj)[i]
        try:
            return obj[i]
        except (IndexError, TypeError) as exc:
            E.throw(type(exc), *exc.args)
    if isinstance(obj, (dict,)) and not E.concrete(i):
        for k in obj:
            if E.truth(equal(E, k, i)):
                return E.import_value(obj[k])
        E.throw(KeyError, i)
    if obj is None:
        E.throw(TypeError, "'NoneType' object is not subscriptable")
    if isinstance(obj, (list, tuple)) and isinstance(i, SInt):
        for k in range(len(obj)):
            if E.branch(i.t == k):
                return obj[k]
        raise Unsupported("symbolic index")
    if isinstance(i, slice) and any(isinstance(x, Sym) for x in (i.start, i.stop, i.step)):
        raise Unsupported("symbolic slice")
    if isinstance(obj, (Cell, GenList)):
        raise Unsupported(f"subscript of {obj!r}")
    return E.native(operator.getitem, obj, i)


def list_slice(E, lst, s):
    if s.step not in (None, 1):
        ps = E.norm(lst.pieces)
        if any(isinstance(p, SeqP) for p in ps):
            raise Unsupported("extended slice")
        return E.new_list(ps[s])
    pieces = list(lst.pieces)
    start, stop = s.start, s.stop
    if isinstance(start, SInt) or (isinstance(stop, SInt) and start is not None and not (
            isinstance(start, int) and start >= 0)):
        for x in (start, stop):
            if not is_intlike(x) and x is not None:
                E.throw(TypeError, "slice indices must be integers or None")
        n = INT.unwrap(E, E.rope_len(pieces))
        b = norm_index(E, stop, n) if stop is not None else n
        a = norm_index(E, start, n) if start is not None else z3.IntVal(0)
        a = z3.simplify(z3.If(a < b, a, b))
        pieces, _ = E.rope_split(pieces, SInt(b))
        _, pieces = E.rope_split(pieces, SInt(a))
        return E.new_list(pieces, ty=lst.ty)
    if stop is not None:
        if isinstance(stop, int) and stop < 0:
            for _ in range(-stop):
                r = E.rope_last(pieces)
                if r is None:
                    break
                pieces = list(r[1])
            if isinstance(start, int) and start < 0:
                raise Unsupported("negative slice bounds")
        elif isinstance(stop, SInt) and not E.branch(stop.t >= 0):
            # pieces[: len + stop]
            n = E.rope_len(pieces)
            k = INT.unwrap(E, n) + stop.t
            k = z3.If(k < 0, z3.IntVal(0), k)
            pieces, _ = E.rope_split(pieces, SInt(k))
        else:
            pieces, _ = E.rope_split(pieces, stop)
    if start is not None:
        if isinstance(start, int) and start < 0:
            keep = []
            for _ in range(-start):
                r = E.rope_last(pieces)
                if r is None:
                    break
                pieces = list(r[1])
                keep.insert(0, r[0])
            pieces = keep
        elif isinstance(start, SInt) and not E.branch(start.t >= 0):
            n = E.rope_len(lst.pieces)
            if stop is not None:
                raise Unsupported("negative symbolic start")
            k = INT.unwrap(E, n) + start.t
            k = z3.If(k < 0, z3.IntVal(0), k)
            _, pieces = E.rope_split(pieces, SInt(k))
        else:
            _, pieces = E.rope_split(pieces, start)
    return E.new_list(pieces, ty=lst.ty)


def setitem(E, obj, i, v):
    if isinstance(obj, MDict):
        hit = dict_find(E, obj, i)
        E.note_write(obj)
        if hit is NOTFOUND:
            if not E.concrete(i):
                # a new symbolic key, distinct from all others on this path
                obj.items[i] = v
                return
            obj.items[i] = v
        else:
            obj.items[hit] = v
        return
    if isinstance(obj, SMap):
        E.note_write(obj)
        k = obj.kty.unwrap(E, i)
        obj.present = z3.Store(obj.present, k, True)
        obj.values = z3.Store(obj.values, k, obj.vty.unwrap(E, v))
        return
    if isinstance(obj, MList):
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None:
                p = list(iter_pieces(E, v))
                E.note_write(obj)
                obj.pieces = p
                return
            raise Unsupported("slice assignment")
        if isinstance(i, int) and i == -1:
            r = E.rope_last(obj.pieces)
            if r is None:
                E.throw(IndexError, "list assignment index out of range")
            E.note_write(obj)
            obj.pieces = list(r[1]) + [v]
            return
        left, right = index_split(E, obj, i)
        r = E.rope_first(right)
        if r is None:
            E.throw(IndexError, "list assignment index out of range")
        E.note_write(obj)
        obj.pieces = left + [v] + list(r[1])
        return
    if isinstance(obj, SObj):
        E.call(E.getattr(obj, "__setitem__"), [i, v], {})
        return
    if isinstance(obj, SData) and "__setitem__" in obj.ty.methods:
        obj.ty.methods["__setitem__"](E, obj, i, v)
        return
    raise Unsupported(f"item assignment on {obj!r}")


def delitem(E, obj, i):
    if isinstance(obj, MDict):
        hit = dict_find(E, obj, i)
        if hit is NOTFOUND:
            E.throw(KeyError, i)
        E.note_write(obj)
        obj.items.pop(hit)
        return
    if isinstance(obj, SMap):
        k = obj.kty.unwrap(E, i)
        if not E.branch(z3.Select(obj.present, k)):
            E.throw(KeyError, i)
        E.note_write(obj)
        obj.present = z3.Store(obj.present, k, False)
        return
    if isinstance(obj, MList):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("del slice")
            a = i.start if i.start is not None else 0
            left, mid = index_split(E, obj, a)
            if i.stop is None:
                E.note_write(obj)
                obj.pieces = left
                return
            if not (isinstance(a, int) and isinstance(i.stop, int) and 0 <= a <= i.stop):
                if a == 0 and isinstance(i.stop, SInt):
                    _, right = index_split(E, obj, i.stop)
                    E.note_write(obj)
                    obj.pieces = right
                    return
                raise Unsupported("del slice")
            _, right = E.rope_split(mid, i.stop - a)
            E.note_write(obj)
            obj.pieces = left + right
            return
        call_list(E, obj, "pop", [i], {})
        return
    raise Unsupported(f"del item of {obj!r}")


# -------------------------------------------------------------------------------------------- types
def isinstance_(E, v, cls):
    if isinstance(cls, types.UnionType):
        cls = cls.__args__
    if isinstance(cls, tuple):
        return disj(E, [isinstance_(E, v, c) for c in cls])
    if isinstance(v, SInt) or isinstance(v, SBits):
        return issubclass(int, cls)
    if isinstance(v, SBool):
        return issubclass(bool, cls)
    if isinstance(v, SStr):
        return issubclass(str, cls)
    if isinstance(v, SReal):
        return issubclass(float, cls)
    if isinstance(v, (MList, MDict, SMap, SObj)):
        return issubclass(v.cls, cls)
    if isinstance(v, (MSet, RSet)):
        return issubclass(set, cls)
    if isinstance(v, SData):
        if v.ty.isinstance_ is not None:
            return v.ty.isinstance_(E, v, cls)
        if v.ty.pycls is not None:
            return issubclass(v.ty.pycls, cls)
        raise Unsupported(f"isinstance of {v!r}")
    if isinstance(v, (InterpFn, BoundMethod, Handler, BuiltinMethod)):
        return issubclass(types.FunctionType, cls) or cls is collections.abc.Callable
    if isinstance(v, GenList):
        return issubclass(types.GeneratorType, cls)
    return isinstance(v, cls)


def to_int(E, v, base=None):
    if base is not None and isinstance(v, SStr):
        ok = E.uf(("int_ok", base), [z3.StringSort()], z3.BoolSort())(v.t)
        val = E.uf(("int_val", base), [z3.StringSort()], z3.IntSort())(v.t)
        if isinstance(base, int) and 2 <= base <= 10 and not E.isolated:
            E.fact(z3.Implies(z3.InRe(v.t, z3.Plus(z3.Range("0", str(base - 1)))), ok))
    elif isinstance(v, SStr):
        ok = E.uf(("int_ok",), [z3.StringSort()], z3.BoolSort())(v.t)
        val = E.uf(("int_val",), [z3.StringSort()], z3.IntSort())(v.t)
        digits = z3.InRe(v.t, z3.Plus(z3.Range("0", "9")))
        if E.known_in(v.t, digits.arg(1)):
            E.stats["assumptions"].add("int(s) is str.to_int for ASCII digit strings")
            if not E.isolated:
                E.fact(z3.And(ok, val == z3.StrToInt(v.t)))
            return SInt(z3.StrToInt(v.t))
        if E.known_in(v.t, z3.Concat(z3.Option(z3.Re("-")), digits.arg(1))):
            E.stats["assumptions"].add("int(s) is str.to_int for ASCII digit strings with sign")
            r = z3.If(z3.PrefixOf(z3.StringVal("-"), v.t), -z3.StrToInt(z3.SubString(v.t, 1,
                z3.Length(v.t) - 1)), z3.StrToInt(v.t))
            if not E.isolated:
                E.fact(z3.And(ok, val == r))
            return SInt(r)
        if not E.isolated:
            E.fact(z3.Implies(digits, z3.And(ok, val == z3.StrToInt(v.t))))
            E.stats["assumptions"].add("int(s) is str.to_int for ASCII digit strings")
    elif isinstance(v, (SInt,)):
        return v
    elif isinstance(v, SBits):
        return bits_int(E, v)
    elif isinstance(v, SBool):
        return SInt(INT.unwrap(E, v))
    elif isinstance(v, SReal):
        i = int_of_real(v.t)
        if i is not None:
            return SInt(i)
        return SInt(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
    elif v is None:
        E.throw(TypeError, "int() argument must be a string")
    elif isinstance(v, SData) and "__int__" in v.ty.methods:
        return v.ty.methods["__int__"](E, v)
    elif E.concrete(v):
        return E.native(int, v) if base is None else E.native(int, v, base)
    else:
        raise Unsupported(f"int({v!r})")
    if not E.branch(ok):
        E.throw(ValueError, "invalid literal for int()")
    return SInt(val)


def int_of_real(t):
    """The integer term equal to a real term, if that is evident."""
    k = t.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    if z3.is_rational_value(t):
        return z3.IntVal(t.numerator_as_long()) if t.denominator_as_long() == 1 else None
    if k in (z3.Z3_OP_MUL, z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        ch = [int_of_real(x) for x in t.children()]
        if None in ch:
            return None
        r = ch[0]
        for x in ch[1:]:
            r = r * x if k == z3.Z3_OP_MUL else r + x if k == z3.Z3_OP_ADD else r - x
        return r
    return None


def to_float(E, v):
    if isinstance(v, SReal):
        return v
    if isinstance(v, (SInt, SBool)):
        return SReal(z3.ToReal(INT.unwrap(E, v)))
    if isinstance(v, SStr):
        ok = E.uf(("float_ok",), [z3.StringSort()], z3.BoolSort())(v.t)
        val = E.uf(("float_val",), [z3.StringSort()], z3.RealSort())(v.t)
        digits = z3.InRe(v.t, z3.Plus(z3.Range("0", "9")))
        if E.known_in(v.t, digits.arg(1)) or not E.isolated and E.branch(digits):
            return SReal(z3.ToReal(z3.StrToInt(v.t)))
        if not E.branch(ok):
            E.throw(ValueError, "could not convert string to float")
        return SReal(val)
    if E.concrete(v):
        return E.native(float, v)
    raise Unsupported(f"float({v!r})")


def call_type(E, cls, args, kw):
    if cls.__name__ in ("Fraction", "Decimal") and len(args) == 1 and not E.concrete(args[0]):
        return to_float(E, args[0])
    if cls is int:
        if not args:
            return 0
        return to_int(E, args[0], args[1] if len(args) > 1 else kw.get("base"))
    if cls is float:
        return to_float(E, args[0]) if args else 0.0
    if cls is str:
        if not args:
            return ""
        return to_str(E, args[0])
    if cls is bool:
        if not args:
            return False
        return E.mkbool(E.truth_term(args[0]))
    if cls is list:
        if not args:
            return E.new_list()
        v = args[0]
        l = E.new_list(list(iter_pieces(E, v)))
        if isinstance(v, MList):
            l.ty = v.ty
        if isinstance(v, GenList) and v.exc is not None:
            raise PyRaise(v.exc)
        return l
    if cls is tuple:
        if not args:
            return ()
        if isinstance(args[0], tuple):
            return args[0]
        ps = E.norm(list(iter_pieces(E, args[0])))
        if any(isinstance(p, SeqP) for p in ps):
            # immutable list: same representation
            return E.new_list(ps)
        return tuple(ps)
    if cls in (set, frozenset):
        if not args:
            if cls is set:
                return E.fresh_set() if hasattr(E, "fresh_set") else EmptySet(E)
            return frozenset()
        v = make_set(E, iter_pieces(E, args[0]))
        return frozenset(v) if cls is frozenset and isinstance(v, set) else v
    if cls is dict:
        d = MDict(E)
        if args:
            a = args[0]
            if isinstance(a, MDict):
                d.items.update(a.items)
            else:
                for p in E.norm(list(iter_pieces(E, a))):
                    if isinstance(p, SeqP):
                        raise Unsupported("dict of a symbolic list")
                    setitem(E, d, p[0], p[1])
        d.items.update(kw)
        return d
    if cls is collections.defaultdict:
        return MDict(E, cls=cls, default=args[0] if args else None)
    if cls is collections.Counter and not args:
        return MDict(E, cls=cls)
    if cls is collections.OrderedDict:
        return call_type(E, dict, args, kw)
    if cls is collections.deque:
        l = E.new_list(list(iter_pieces(E, args[0])) if args else [])
        return l
    if cls is range:
        a = list(args)
        if len(a) == 1:
            a = [0, a[0], 1]
        elif len(a) == 2:
            a = a + [1]
        return RangeIter(*a)
    if cls is enumerate:
        start = args[1] if len(args) > 1 else kw.get("start", 0)
        return EnumIter(args[0], start)
    if cls is reversed:
        ps = E.norm(list(iter_pieces(E, args[0])))
        if any(isinstance(p, SeqP) for p in ps):
            raise Unsupported("reversed symbolic list")
        return E.new_list(list(reversed(ps)))
    if cls is zip:
        cols = [E.norm(list(iter_pieces(E, a))) for a in args]
        if any(isinstance(p, SeqP) for c in cols for p in c):
            raise Unsupported("zip of symbolic lists")
        return E.new_list([tuple(x) for x in zip(*cols)])
    if cls is map:
        return GenList(E.new_list(E.hom_concat(list(iter_pieces(E, args[1])),
            lambda x: [E.call(args[0], [x], {})])))
    if cls is filter:
        f = args[0] or (lambda E, x: x)

        def keep(x):
            r = E.call(f, [x], {}) if args[0] is not None else x
            return [x] if E.truth(r) else []
        return GenList(E.new_list(E.hom_concat(list(iter_pieces(E, args[1])), keep)))
    if cls is itertools.chain:
        out = []
        for a in args:
            if isinstance(a, StarRope):
                raise Unsupported("chain of symbolic lists")
            out.extend(iter_pieces(E, a))
        return GenList(E.new_list(out))
    if cls is type:
        if len(args) == 1:
            return type_of(E, args[0])
    if cls is functools.partial:
        f, rest = args[0], list(args[1:])
        return Handler(lambda E, *a, **k: E.call(f, rest + list(a), {**kw, **k}), "partial")
    if cls is object:
        return SObj(E, object, None, True)
    return NotImplemented


class EmptySet(Cell):
    """A set of which only concrete elements are known."""

    def __init__(self, E):
        super().__init__(E)


def type_of(E, v):
    if isinstance(v, (MList, MDict, SMap, SObj)):
        return v.cls
    if isinstance(v, SInt):
        return int
    if isinstance(v, SStr):
        return str
    if isinstance(v, SBool):
        return bool
    if isinstance(v, SData):
        if v.ty.pycls is not None:
            return v.ty.pycls
        raise Unsupported(f"type({v!r})")
    return type(v)


# ---------------------------------------------------------------------------------------- functions
PURE_MODULES = {"builtins", "operator", "math", "os.path", "posixpath", "re", "_operator",
        "itertools", "string", "shlex", "fnmatch", "stat", "_stat", "struct", "_struct",
        "collections", "functools", "unicodedata", "locale", "copy", "inspect", "glob"}
IMPURE = {open, print, input, exec, eval, compile, __import__, exit, quit, breakpoint, id}


def pure_builtin(fn):
    try:
        if fn in IMPURE:
            return False
    except TypeError:
        return False
    mod = getattr(fn, "__module__", None)
    if isinstance(fn, type):
        return mod in PURE_MODULES or mod in ("datetime", "decimal", "fractions", "enum")
    if mod in PURE_MODULES:
        return True
    slf = getattr(fn, "__self__", None)
    if slf is not None and not isinstance(slf, types.ModuleType):
        # method of a concrete immutable host object
        return isinstance(slf, (str, bytes, int, float, tuple, frozenset, re.Pattern, re.Match,
            type)) or (isinstance(slf, (dict, list, set)) and fn.__name__ in (
                "get", "items", "keys", "values", "copy", "index", "count", "__contains__",
                "__getitem__", "union", "intersection", "difference", "issubset"))
    return False


def fold_any(E, v):
    from .interp import LazyComp
    if isinstance(v, LazyComp):
        return E.mkbool(v.fold("any"))
    return E.mkbool(E.hom("any", list(iter_pieces(E, v)), lambda x: x))


def fold_all(E, v):
    from .interp import LazyComp
    if isinstance(v, LazyComp):
        return E.mkbool(v.fold_all())
    return E.mkbool(z3.Not(E.hom("any", list(iter_pieces(E, v)), lambda x: not_(E, x))))


def call_builtin(E, fn, args, kw):
    from .interp import LazyComp
    try:
        h = TABLE.get(fn)
    except TypeError:
        h = None
    if h is not None:
        return h(E, *args, **kw)
    try:
        if fn in OPERATOR_FUNCS:
            return binop(E, OPERATOR_FUNCS[fn](), *args)
        if fn in OPERATOR_CMPS:
            return compare(E, OPERATOR_CMPS[fn](), *args)
    except TypeError:
        pass
    slf = getattr(fn, "__self__", None)
    if slf is not None:
        if isinstance(slf, str) and not isinstance(slf, type):
            if not all(E.concrete(a) for a in args):
                return call_str(E, slf, fn.__name__, args, kw)
        if isinstance(slf, re.Pattern) and not all(E.concrete(a) for a in args):
            from . import regex
            return regex.pattern_method(E, slf, fn.__name__, args, kw)
        if isinstance(slf, dict) and fn.__name__ == "get" and not E.concrete(args[0]):
            for k in slf:
                if E.truth(equal(E, k, args[0])):
                    return E.import_value(slf[k])
            return args[1] if len(args) > 1 else None
        if isinstance(slf, (tuple, list)) and fn.__name__ == "index" and len(args) == 1:
            for i, x in enumerate(slf):
                if E.truth(equal(E, x, args[0])):
                    return i
            E.throw(ValueError, "tuple.index(x): x not in tuple")
        if slf is itertools.chain and fn.__name__ == "from_iterable":
            return GenList(E.new_list(E.hom_concat(list(iter_pieces(E, args[0])),
                lambda x: list(iter_pieces(E, x)))))
    if isinstance(fn, (types.WrapperDescriptorType, types.MethodDescriptorType)):
        # e.g. list.sort, str.lower as functions
        return call_method(E, args[0], fn.__name__, list(args[1:]), kw)
    if isinstance(fn, (operator.attrgetter, operator.itemgetter)):
        if isinstance(fn, operator.itemgetter):
            idx = fn.__reduce__()[1]
            vals = [getitem(E, args[0], i) for i in idx]
            return vals[0] if len(vals) == 1 else tuple(vals)
        names = fn.__reduce__()[1]
        vals = [E.getattr(args[0], n) for n in names]
        return vals[0] if len(vals) == 1 else tuple(vals)
    return NotImplemented


def bi_isinstance(E, v, cls):
    return isinstance_(E, v, cls)


def bi_issubclass(E, a, b):
    return E.native(issubclass, a, b)


def bi_minmax(which):
    def f(E, *args, key=None, default=NOTFOUND):
        if len(args) == 1:
            ps = E.norm(list(iter_pieces(E, args[0])))
            if any(isinstance(p, SeqP) for p in ps):
                return seg_minmax(E, which, ps, key, default)
        else:
            ps = list(args)
        if not ps:
            if default is not NOTFOUND:
                return default
            E.throw(ValueError, "empty sequence")
        best = ps[0]
        kb = E.call(key, [best], {}) if key is not None else best
        for p in ps[1:]:
            k = E.call(key, [p], {}) if key is not None else p
            if key is None and is_intlike(kb) and is_intlike(k) and not (
                    E.concrete(k) and E.concrete(kb)):
                x, y = INT.unwrap(E, kb), INT.unwrap(E, k)
                best = kb = mkint(E, z3.If(y > x if which == "max" else y < x, y, x))
                continue
            if E.truth(order(E, ast.Gt if which == "max" else ast.Lt, k, kb)):
                best, kb = p, k
        return best
    return f


def seg_minmax(E, which, ps, key, default):
    raise Unsupported(f"{which} of a symbolic list")


def bi_sum(E, v, start=0):
    from .interp import LazyComp
    if isinstance(v, LazyComp):
        return mkint(E, v.fold("sum") + INT.unwrap(E, start))
    return mkint(E, E.hom("sum", list(iter_pieces(E, v)), lambda x: x) + INT.unwrap(E, start))


def bi_abs(E, v):
    if isinstance(v, SInt):
        return SInt(z3.If(v.t < 0, -v.t, v.t))
    if isinstance(v, SReal):
        return SReal(z3.If(v.t < 0, -v.t, v.t))
    return E.native(abs, v)


def bi_sorted(E, v, key=None, reverse=False):
    ps = E.norm(list(iter_pieces(E, v)))
    if getattr(E, "sort_hook", None) is not None:
        return E.new_list(E.sort_hook(E, ps, key, reverse))
    if all(not isinstance(p, SeqP) and E.concrete(p) for p in ps) and key is None:
        return E.new_list(E.native(sorted, ps, reverse=reverse).pieces)
    return E.new_list(permuted(E, ps))


def bi_getattr(E, obj, name, *default):
    if not isinstance(name, str):
        raise Unsupported("getattr with a symbolic name")
    if default:
        return E.getattr(obj, name, default[0])
    return E.getattr(obj, name)


def bi_hasattr(E, obj, name):
    m = object()
    return E.getattr(obj, name, m) is not m


def bi_setattr(E, obj, name, value):
    E.setattr(obj, name, value)


def bi_callable(E, v):
    if isinstance(v, (InterpFn, BoundMethod, Handler, BuiltinMethod)):
        return True
    return callable(v)


def bi_iter(E, v):
    return ListIter(E, iter_pieces(E, v), v.exc if isinstance(v, GenList) else None)


def bi_next(E, it, *default):
    if isinstance(it, ListIter):
        r = E.rope_first(it.pieces)
        if r is None:
            if it.exc is not None:
                raise PyRaise(it.exc)
            if default:
                return default[0]
            E.throw(StopIteration)
        E.note_write(it)
        it.pieces = list(r[1])
        return r[0]
    if isinstance(it, GenList):
        r = E.rope_first(it.mlist.pieces)
        if r is None:
            if it.exc is not None:
                raise PyRaise(it.exc)
            if default:
                return default[0]
            E.throw(StopIteration)
        it.mlist.pieces = list(r[1])
        return r[0]
    raise Unsupported("next")


def bi_repr(E, v):
    if E.concrete(v):
        return repr(v)
    if E.isolated:
        return SStr(z3.Const("gen_repr", z3.StringSort()))
    return SStr(E.fresh_const("repr", z3.StringSort()))


def bi_print(E, *args, **kw):
    parts = []
    sep = kw.get("sep", " ")
    end = kw.get("end", "\n")
    for i, a in enumerate(args):
        if isinstance(a, StarRope):
            raise Unsupported("print(*rope)")
        if i:
            parts.append(sep)
        parts.append(to_str(E, a))
    parts.append(end)
    text = str_concat(E, parts)
    name = "_err" if kw.get("file") is not None else "_out"
    out = E.ghosts.get(name)
    if out is not None:
        E.note_write(out)
        out.pieces.append(text)
    return None


def bi_ord(E, c):
    if isinstance(c, SStr):
        return SInt(z3.StrToCode(c.t))
    return E.native(ord, c)


def bi_chr(E, c):
    if isinstance(c, SInt):
        return SStr(z3.StrFromCode(c.t))
    return E.native(chr, c)


def bi_round(E, v, n=None):
    if E.concrete(v):
        return E.native(round, v, n) if n is not None else E.native(round, v)
    if isinstance(v, (SInt, SReal)) and isinstance(n, int) and n >= 0:
        if isinstance(v, SInt):
            return v
        E.stats["assumptions"].add("round() on mathematical reals, half to even")
        y = v.t * 10 ** n
        f = z3.ToInt(y)
        d = y - z3.ToReal(f)
        r = z3.If(z3.Or(d < z3.RealVal("1/2"), z3.And(d == z3.RealVal("1/2"), f % 2 == 0)),
                f, f + 1)
        return SReal(z3.ToReal(r) / 10 ** n)
    raise Unsupported("round")


def bi_divmod(E, a, b):
    return (binop(E, ast.FloorDiv(), a, b), binop(E, ast.Mod(), a, b))


def bi_contains(E, c, x):
    return contains(E, x, c)


TABLE = {
    len: length, isinstance: bi_isinstance, issubclass: bi_issubclass, any: fold_any, all: fold_all,
    max: bi_minmax("max"), min: bi_minmax("min"), sum: bi_sum, abs: bi_abs, sorted: bi_sorted,
    getattr: bi_getattr, hasattr: bi_hasattr, setattr: bi_setattr, callable: bi_callable,
    iter: bi_iter, next: bi_next, repr: bi_repr, print: bi_print, ord: bi_ord, chr: bi_chr,
    round: bi_round, divmod: bi_divmod, operator.contains: bi_contains,
    operator.not_: not_,
    format: lambda E, v, spec="": format_value(E, v, "", spec),
    id: lambda E, v: E.throw(NotImplementedError),
}
