"""Interpreter: executes the AST of real functions on symbolic values."""

import sys
import ast
import builtins
import collections
import functools
import inspect
import itertools
import os
import re
import types
import z3

from .engine import EngineBase
from .values import *
from .values import strval


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, value):
        super().__init__()
        self.value = value


class Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = Unbound()


class ModuleAst:
    """The parsed source file of a module, indexed by function."""
    cache = {}

    @classmethod
    def get(cls, filename):
        if filename not in cls.cache:
            with open(filename, encoding="utf-8") as f:
                src = f.read()
            tree = ast.parse(src, filename)
            index = {}
            for node in ast.walk(tree):
                if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    first = min([node.lineno] + [d.lineno for d in node.decorator_list])
                    index[(node.name, first)] = node
                    index.setdefault((node.name, node.lineno), node)
                elif isinstance(node, ast.Lambda):
                    index.setdefault(("<lambda>", node.lineno), []).append(node)
            cls.cache[filename] = index
        return cls.cache[filename]


_preimages = {}


def case_preimage(t, const):
    """upper(s) == const (or lower, casefold) as a condition on s, None if t has another form."""
    if not z3.is_app(t) or t.num_args() != 1 or not const.isascii():
        return None
    name = t.decl().name().split("#")[0]
    if name not in ("str.upper", "str.lower", "str.casefold"):
        return None
    k = name, const
    if k not in _preimages:
        if name not in _preimages:
            # all the characters that become ASCII
            f = getattr(str, name[4:])
            _preimages[name] = [(chr(c), f(chr(c))) for c in range(0x30000) if f(chr(c)).isascii()]
        suffix = [None] * len(const) + [z3.Re(z3.StringVal(""))]
        for i in reversed(range(len(const))):
            alts = {}
            for c, m in _preimages[name]:
                if m and const.startswith(m, i) and suffix[i + len(m)] is not None:
                    alts.setdefault(len(m), []).append(c)
            if alts:
                terms = []
                for n, cs in sorted(alts.items()):
                    r = [z3.Re(strval(c)) for c in cs]
                    terms.append(z3.Concat(r[0] if len(r) == 1 else z3.Union(*r), suffix[i + n]))
                suffix[i] = terms[0] if len(terms) == 1 else z3.Union(*terms)
        one = all(sum(const.startswith(m, i) for _, m in _preimages[name]) == 1
            for i in range(len(const)))
        _preimages[k] = suffix[0], one
    r, one = _preimages[k]
    if r is None:
        return z3.BoolVal(False)
    return t.arg(0) == strval("".join(next(c for c, m in _preimages[name] if m == x) for x in const)) \
        if one else z3.InRe(t.arg(0), r)


def find_node(func):
    code = func.__code__
    index = ModuleAst.get(code.co_filename)
    node = index.get((func.__name__, code.co_firstlineno)) or \
        index.get((code.co_name, code.co_firstlineno))
    if isinstance(node, list):
        if len(node) != 1:
            raise Unsupported("several lambdas on one line")
        return node[0]
    if node is None:
        raise Unsupported(f"source of {func!r} not found")
    return node


def assigned_names(nodes):
    """Names bound by a list of statements (not descending into nested scopes)."""
    out = set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if hasattr(n, "name"):
                out.add(n.name)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    out.add(m.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for n in nodes:
        visit(n)
    return out


def bit_names(node):
    """Local variables that are combined with bit operators."""
    bitops = (ast.BitOr, ast.BitAnd, ast.BitXor)
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.AugAssign) and isinstance(n.op, bitops) and \
                isinstance(n.target, ast.Name):
            out.add(n.target.id)
        elif isinstance(n, ast.Assign) and isinstance(n.value, ast.BinOp) and \
                isinstance(n.value.op, bitops):
            out.update(t.id for t in n.targets if isinstance(t, ast.Name))
    return out


def has_yield(node):
    stack = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Frame:
    def __init__(self, fn, env, globals_, parent=None):
        self.fn = fn
        self.env = env
        self.globals = globals_
        self.parent = parent      # enclosing Frame (closures)
        self.cls = None
        self.loop_ordinals = None
        self.nonlocals = set()


class LoopCtx:
    def __init__(self, key, uid, names, havoced):
        self.key = key
        self.uid = uid
        self.names = names
        self.havoced = havoced


class Interp(EngineBase):
    """The verifier's symbolic interpreter."""

    def __init__(self, name, roots=(os.environ.get("VERIF_REPO", "/repo"), os.path.join(os.path.dirname(os.path.dirname(
            os.path.realpath(__file__))), "contracts"))):
        super().__init__(name)
        self.loop_bits = set()
        self.loop_vars = {}
        self.all_vars = {}
        self.inv_obs = {}
        here = os.path.dirname(os.path.realpath(__file__))
        self.roots = tuple(os.path.realpath(r) + os.sep for r in roots) + (
            os.path.join(here, "spec.py"),)
        self.models = {}
        self.name_models = {}
        self.overrides = {}
        self.frames = []
        self.keepalive = []
        from . import builtins_ as B
        B.install(self)
        self.B = B

    def path_reset(self):
        self.frames = []
        self.exc_stack = []
        self.path_models = {}
        self.overrides = {}

    # ----------------------------------------------------------------------------------- models
    def model(self, func, handler):
        """Use handler(E, *args, **kwargs) instead of the body of a real function (this path)."""
        f = getattr(func, "__func__", func)
        f = inspect.unwrap(f) if isinstance(f, functools._lru_cache_wrapper) else f
        self.path_models[id(f)] = (f, handler)

    def note_assumed(self, fn):
        """A contract is used in place of a function."""
        module = getattr(fn, "__module__", None) or ""
        if not module.startswith(("contracts", "pyvc")):
            name = getattr(fn, "__qualname__", None) or repr(fn)
            self.stats["assumptions"].add(f"contract used in place of {module and module + '.'}{name}")

    def find_model(self, func):
        m = self.path_models.get(id(func)) or self.models.get(id(func))
        return m[1] if m else None

    def global_model(self, func, handler):
        self.models[id(func)] = (func, handler)

    # ------------------------------------------------------------------------------------ public
    def input(self, name, ty):
        v = ty.fresh(self, name) if isinstance(ty, Ty) else ty
        self.inputs[name] = v
        return v

    def list_input(self, name, elem, cls=list):
        v = MList(self, [self.fresh_seq(name, elem)], cls=cls, ty=elem)
        self.inputs[name] = MList(self, list(v.pieces), ty=elem)
        return v

    def new_list(self, pieces=(), cls=list, ty=None):
        return MList(self, pieces, cls, ty)

    def call_outcome(self, fn, *args, **kwargs):
        """Call a real function; return ("return", value) or ("raise", exception object)."""
        try:
            return "return", self.call(fn, list(args), kwargs)
        except PyRaise as exc:
            return "raise", exc.exc

    def run(self, fn, *args):
        """Run a specification function with forking."""
        self.in_spec += 1
        try:
            return self.call(fn, list(args), {})
        finally:
            self.in_spec -= 1

    def spec(self, fn, *args):
        """Evaluate a specification function to one merged value."""
        return self.merged(lambda: self.run(fn, *args))

    def is_exc(self, exc, cls):
        return isinstance(exc, SObj) and issubclass(exc.cls, cls)

    # ------------------------------------------------------------------------------------- truth
    def truth_term(self, v):
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SReal):
            return v.t != 0
        if isinstance(v, SStr):
            return z3.Length(v.t) != 0
        if isinstance(v, SBits):
            if v.neg:
                return z3.BoolVal(True)
            if not v.exact:
                raise Unsupported("truth of partially known bits")
            return v.t != 0
        if isinstance(v, MList):
            n = self.rope_len(v.pieces)
            if isinstance(n, int):
                return z3.BoolVal(n > 0)
            return n.t > 0
        if isinstance(v, RSet):
            return INT.unwrap(self, self.rope_len(v.pieces)) > 0
        if isinstance(v, MDict):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, SMap):
            raise Unsupported("truth of a symbolic map")
        if isinstance(v, SData):
            if "__bool__" in v.ty.methods:
                return self.truth_term(v.ty.methods["__bool__"](self, v))
            if callable(v.ty.truth):
                return v.ty.truth(self, v)
            return z3.BoolVal(bool(v.ty.truth))
        if isinstance(v, SObj):
            for name in ("__bool__", "__len__"):
                if hasattr(v.cls, name) and not issubclass(v.cls, BaseException):
                    raise Unsupported(f"truth of {v.cls.__name__}")
            return z3.BoolVal(True)
        if isinstance(v, (InterpFn, BoundMethod, BuiltinMethod, Handler, Blackhole, SuperProxy)):
            return z3.BoolVal(True)
        if isinstance(v, GenList):
            return z3.BoolVal(True)
        if isinstance(v, tuple):
            return z3.BoolVal(len(v) > 0)
        return z3.BoolVal(bool(v))

    def truth(self, v):
        if isinstance(v, bool):
            return v
        return self.branch(self.truth_term(v))

    # ---------------------------------------------------------------------------------- equality
    def eq(self, a, b):
        """a == b as bool or SBool."""
        if a is b and not isinstance(a, SReal):
            return True
        if isinstance(a, Sym) or isinstance(b, Sym):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SStr):
                    if isinstance(y, str):
                        pre = case_preimage(x.t, y)
                        if pre is not None:
                            return self.mkbool(pre)
                    if isinstance(y, (str, SStr)) :
                        return self.mkbool(x.t == STR.unwrap(self, y))
                    if isinstance(y, (SInt, SBool, SBits, SData, SReal)) or not isinstance(y, Sym):
                        return False
                if isinstance(x, SBits):
                    if isinstance(y, (int, SInt, SBits)):
                        return self.bits_eq(x, self.to_bits(y, x.t.size()))
                    return False
                if isinstance(x, (SInt, SBool, SReal)):
                    if isinstance(y, (int, SInt, SBool, bool, float, SReal)):
                        if isinstance(x, SBool) and isinstance(y, (bool, SBool)):
                            return self.mkbool(x.t == BOOL.unwrap(self, y))
                        if isinstance(x, SReal) or isinstance(y, (SReal, float)):
                            return self.mkbool(REAL.unwrap(self, x) == REAL.unwrap(self, y))
                        return self.mkbool(INT.unwrap(self, x) == INT.unwrap(self, y))
                    if not isinstance(y, SData):
                        return False
                if isinstance(x, SData):
                    if isinstance(y, SData) and x.ty.name == y.ty.name:
                        return self.mkbool(x.t == y.t)
                    h = x.ty.methods.get("__eq__")
                    if h is not None:
                        return h(self, x, y)
                    if y is None or isinstance(y, (str, int, SStr, SInt, MList, SObj)):
                        return False
            raise Unsupported(f"equality of {a!r} and {b!r}")
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            acc = True
            for x, y in zip(a, b):
                e = self.eq(x, y)
                if e is False:
                    return False
                acc = e if acc is True else (acc if e is True
                        else SBool(z3.And(acc.t, e.t)))
            return acc
        if isinstance(a, MList) and isinstance(b, MList):
            return self.rope_eq(a, b)
        if isinstance(a, MList) or isinstance(b, MList):
            x, y = (a, b) if isinstance(a, MList) else (b, a)
            if isinstance(y, list):
                return self.rope_eq(x, self.new_list(y))
            return False
        if isinstance(a, MDict) and isinstance(b, MDict):
            if set(a.items) != set(b.items):
                return False
            acc = True
            for k in a.items:
                e = self.eq(a.items[k], b.items[k])
                if e is False:
                    return False
                acc = e if acc is True else (acc if e is True else SBool(z3.And(acc.t, e.t)))
            return acc
        if isinstance(a, (SObj, MDict, SMap, MSet)) or isinstance(b, (SObj, MDict, SMap, MSet)):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SObj) and "__eq__" in x.fields:
                    return x.fields["__eq__"](self, x, y)
            if isinstance(a, (SMap, MDict, MSet)) and isinstance(b, (SMap, MDict, MSet, dict)):
                raise Unsupported("map equality")
            return False
        try:
            return bool(a == b)
        except Unsupported:
            raise
        except Exception as exc:
            raise Unsupported(f"equality of {a!r} and {b!r}: {exc}") from exc

    def mkbool(self, t):
        t = z3.simplify(t) if not self.isolated else t
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SBool(t)

    def bits_eq(self, x, y):
        if x.neg != y.neg:
            if x.exact and y.exact:
                return False
            raise Unsupported("partially known bits")
        if not (x.exact and y.exact):
            raise Unsupported("equality of partially known bits")
        return self.mkbool(x.t == y.t)

    def rope_eq(self, a, b):
        x, y = self.norm(a.pieces), self.norm(b.pieces)
        terms = []

        def strip(end):
            while x and y:
                p, q = x[end], y[end]
                if isinstance(p, SeqP) and isinstance(q, SeqP):
                    if p.t.eq(q.t):
                        x.pop(end)
                        y.pop(end)
                        continue
                    return True
                if not isinstance(p, SeqP) and not isinstance(q, SeqP):
                    e = self.eq(p, q)
                    if e is False:
                        return False
                    if e is not True:
                        terms.append(e.t)
                    x.pop(end)
                    y.pop(end)
                    continue
                return True
            return True
        if not strip(0) or not strip(-1):
            return False
        if x or y:
            if not x or not y:
                z = x or y
                if any(not isinstance(p, SeqP) for p in z):
                    return False
                terms.extend(z3.Length(p.t) == 0 for p in z)
            else:
                ty = self.rope_type(x) or self.rope_type(y)
                terms.append(self.embed_rope(x, ty) == self.embed_rope(y, ty))
        if not terms:
            return True
        return self.mkbool(z3.And(*terms) if len(terms) > 1 else terms[0])

    # ---------------------------------------------------------------------------- heap mutation
    def note_write(self, cell):
        for ctx in self.loops:
            if cell.uid <= ctx.uid and cell.uid not in ctx.havoced:
                name = ctx.names.get(cell.uid)
                if name is None:
                    raise Unsupported("loop writes to a cell that cannot be named")
                self.modsets.setdefault(ctx.key, set()).add(name)
                raise Restart()
        if self.nesting and self.nesting_uid is not None and cell.uid <= self.nesting_uid:
            raise Unsupported("side effect inside a pure context")

    nesting_uid = None

    def merged(self, fn, isolated=False):
        saved = self.nesting_uid
        self.nesting_uid = self.uidc if saved is None else saved
        frames = list(self.frames)
        try:
            return super().merged(fn, isolated)
        finally:
            self.nesting_uid = saved
            self.frames = frames

    # -------------------------------------------------------------------------------- exceptions
    def make_exc(self, cls, *args, **fields):
        o = SObj(self, cls, {"args": tuple(args)}, True)
        self.exc_fields(o, args)
        o.fields.update(fields)
        return o

    def exc_fields(self, o, args):
        """Attributes that the built-in exceptions get from their arguments."""
        if issubclass(o.cls, SystemExit):
            o.fields["code"] = args[0] if len(args) == 1 else tuple(args) if args else None

    def throw(self, cls, *args, **fields):
        raise PyRaise(self.make_exc(cls, *args, **fields))

    def native(self, fn, *args, **kwargs):
        """Call a host function on concrete values, translating exceptions."""
        try:
            return self.import_value(fn(*args, **kwargs))
        except (PathEnd, Restart, Unsupported, PyRaise, ReturnX):
            raise
        except Exception as exc:
            raise PyRaise(self.make_exc(type(exc), *exc.args)) from exc

    def import_value(self, v):
        """Turn mutable host values into interpreter cells."""
        if type(v) is list:
            return self.new_list([self.import_value(x) for x in v])
        if type(v) is dict:
            d = MDict(self)
            d.items = {k: self.import_value(x) for k, x in v.items()}
            return d
        return v

    @staticmethod
    def concrete(v):
        """True if v contains no symbolic part."""
        if isinstance(v, (Sym, Cell, GenList, InterpFn, BoundMethod, BuiltinMethod, Handler,
                Blackhole, LazyHom)):
            return False
        if isinstance(v, tuple):
            return all(Interp.concrete(x) for x in v)
        if isinstance(v, (set, frozenset)):
            return all(not isinstance(x, (Sym, Cell)) for x in v)
        return True

    def export(self, v):
        """Host value of a concrete interpreter value."""
        if isinstance(v, MList):
            ps = self.norm(v.pieces)
            if any(isinstance(p, SeqP) for p in ps):
                raise Unsupported("symbolic list")
            return [self.export(p) for p in ps]
        if isinstance(v, MDict):
            return {k: self.export(x) for k, x in v.items.items()}
        if isinstance(v, tuple) and not self.concrete(v):
            return tuple.__new__(type(v), [self.export(x) for x in v])
        if not self.concrete(v):
            raise Unsupported(f"not concrete: {v!r}")
        return v

    # -------------------------------------------------------------------------------------- calls
    def in_repo(self, filename):
        f = os.path.realpath(filename)
        return f.startswith(self.roots)

    def call(self, fn, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(fn, BoundMethod):
            return self.call(fn.func, [fn.obj] + args, kwargs)
        if isinstance(fn, BuiltinMethod):
            return self.B.call_method(self, fn.obj, fn.name, args, kwargs)
        if isinstance(fn, Handler):
            return fn.fn(self, *args, **kwargs)
        if isinstance(fn, Blackhole):
            return None
        if isinstance(fn, InterpFn):
            return self.call_interp(fn, args, kwargs)
        if isinstance(fn, (Sym, Cell)):
            if isinstance(fn, SObj) and hasattr(fn.cls, "__call__"):
                return self.call(self.getattr(fn, "__call__"), args, kwargs)
            raise Unsupported(f"call of {fn!r}")
        h = self.find_model(fn)
        if h is not None:
            if id(fn) in self.path_models:
                self.note_assumed(fn)
            return h(self, *args, **kwargs)
        if isinstance(fn, functools._lru_cache_wrapper):
            self.stats["assumptions"].add(
                f"functools.lru_cache on {fn.__wrapped__.__qualname__} is transparent")
            return self.call(fn.__wrapped__, args, kwargs)
        if isinstance(fn, types.MethodType):
            return self.call(fn.__func__, [fn.__self__] + args, kwargs)
        if isinstance(fn, functools.partial):
            return self.call(fn.func, list(fn.args) + args, {**fn.keywords, **kwargs})
        if isinstance(fn, types.FunctionType):
            if self.in_repo(fn.__code__.co_filename):
                return self.call_real(fn, args, kwargs)
            if all(self.concrete(a) for a in args) and \
                    all(self.concrete(a) for a in kwargs.values()):
                return self.native(fn, *args, **kwargs)
            raise Unsupported(f"no contract for {fn.__module__}.{fn.__qualname__}")
        if isinstance(fn, type):
            return self.instantiate(fn, args, kwargs)
        if fn in (sys.getfilesystemencoding, sys.getfilesystemencodeerrors):
            return fn()
        if fn is sys.exit:
            self.throw(SystemExit, *args)
        # builtin functions and methods of concrete objects
        r = self.B.call_builtin(self, fn, args, kwargs)
        if r is not NotImplemented:
            return r
        if all(self.concrete(a) for a in args) and all(self.concrete(a) for a in kwargs.values()):
            if self.B.pure_builtin(fn):
                return self.native(fn, *args, **kwargs)
        try:
            eargs = [self.export(a) for a in args]
            ekw = {k: self.export(a) for k, a in kwargs.items()}
        except Unsupported:
            eargs = None
        if eargs is not None and self.B.pure_builtin(fn):
            return self.native(fn, *eargs, **ekw)
        raise Unsupported(f"no contract for {fn!r} on {args!r}")

    def call_real(self, fn, args, kwargs):
        node = find_node(fn)
        closure = {}
        if fn.__closure__:
            for name, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    closure[name] = cell.cell_contents
                except ValueError:
                    pass
        if not self.in_spec:
            q = f"{fn.__module__}::{fn.__qualname__}"
            self.stats["functions"].add(q)
        f = InterpFn(node, fn.__globals__, fn.__qualname__, closure,
                fn.__defaults__ or (), fn.__kwdefaults__ or {}, closure.get("__class__"))
        f.real = fn
        return self.call_interp(f, args, kwargs)

    def call_interp(self, f, args, kwargs):
        node = f.node
        env = self.bind(f, args, kwargs)
        parent = f.closure if isinstance(f.closure, Frame) else None
        frame = Frame(f, env, f.globals, parent)
        if isinstance(f.closure, dict):
            frame.closure_vars = f.closure
        else:
            frame.closure_vars = {}
        frame.cls = f.cls
        if len(self.frames) > 60:
            raise Unsupported("recursion without a contract")
        self.frames.append(frame)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, frame)
            gen = has_yield(node)
            if gen:
                out = self.new_list()
                env["_yield"] = out
                exc = None
                try:
                    self.block(node.body, frame)
                except ReturnX:
                    pass
                except PyRaise as e:
                    exc = e.exc
                return GenList(out, exc)
            try:
                self.block(node.body, frame)
            except ReturnX as r:
                return r.value
            return None
        finally:
            if self.frames and self.frames[-1] is frame:
                self.frames.pop()

    def bind(self, f, args, kwargs):
        a = f.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if len(args) > len(names) and a.vararg is None:
            self.throw(TypeError, "too many arguments")
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(names):])
        kwargs = dict(kwargs)
        defaults = list(f.defaults)
        for n, v in zip(names[len(names) - len(defaults):], defaults):
            if n not in env and n not in kwargs:
                env[n] = v
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                env[x.arg] = f.kwdefaults[x.arg]
        for n in names:
            if n in kwargs:
                env[n] = kwargs.pop(n)
        if a.kwarg is not None:
            d = MDict(self)
            d.items = kwargs
            env[a.kwarg.arg] = d
        elif kwargs:
            self.throw(TypeError, "unexpected keyword argument")
        for n in names:
            if n not in env:
                self.throw(TypeError, f"missing argument {n}")
        return env

    def instantiate(self, cls, args, kwargs):
        h = self.find_model(cls)
        if h is not None:
            return h(self, *args, **kwargs)
        r = self.B.call_type(self, cls, args, kwargs)
        if r is not NotImplemented:
            return r
        if issubclass(cls, tuple):
            return self.native(cls, *args, **kwargs)
        try:
            src = inspect.getsourcefile(cls)
        except TypeError:
            src = None
        if issubclass(cls, BaseException):
            o = SObj(self, cls, {"args": tuple(args)}, True)
            self.exc_fields(o, args)
            init = cls.__init__
            if isinstance(init, types.FunctionType) and self.in_repo(init.__code__.co_filename):
                self.call(init, [o] + args, kwargs)
            return o
        if issubclass(cls, list):
            o = MList(self, [], cls=cls)
            init = cls.__init__
            if isinstance(init, types.FunctionType):
                self.call(init, [o] + args, kwargs)
            elif args:
                self.B.call_method(self, o, "extend", args, {})
            return o
        if issubclass(cls, dict):
            o = MDict(self, cls=cls)
            init = cls.__init__
            if isinstance(init, types.FunctionType):
                self.call(init, [o] + args, kwargs)
            return o
        if src is not None and self.in_repo(src):
            o = SObj(self, cls, None, True)
            init = cls.__init__
            if isinstance(init, types.FunctionType):
                self.call(init, [o] + args, kwargs)
            return o
        if all(self.concrete(a) for a in args) and self.B.pure_builtin(cls):
            return self.native(cls, *args, **kwargs)
        raise Unsupported(f"no contract for class {cls.__name__}")

    # --------------------------------------------------------------------------------- attributes
    def getattr(self, obj, name, default=UNBOUND):
        if isinstance(obj, Blackhole):
            return obj
        if isinstance(obj, SData):
            a = obj.ty.attrs.get(name)
            if a is not None:
                if isinstance(a, OptT):
                    if self.branch(z3.Function(f"{obj.ty.name}.{name}?none", obj.ty.sort(),
                            z3.BoolSort())(obj.t)):
                        return None
                    return a.ty.wrap(self, obj.ty.uf(name, a.ty)(obj.t))
                if isinstance(a, Ty):
                    return a.wrap(self, obj.ty.uf(name, a)(obj.t))
                return a(self, obj) if callable(a) else a
            m = obj.ty.methods.get(name)
            if m is not None:
                self.stats["assumptions"].add(f"contract used in place of {obj.ty.name}.{name}")
                return Handler(lambda E, *args, **kw: m(E, obj, *args, **kw), name)
            if obj.ty.pycls is not None:
                return self.class_attr(obj, obj.ty.pycls, name, default)
            if default is not UNBOUND:
                return default
            raise Unsupported(f"attribute {name} of {obj.ty.name}")
        if isinstance(obj, (SStr, SInt, SBool, SReal, SBits, str, int, bool)) and \
                not isinstance(obj, type):
            if isinstance(obj, (str, int)) and type(obj) not in (str, int, bool):
                return self.native(getattr, obj, name)
            return BuiltinMethod(obj, name)
        if isinstance(obj, GenList):
            return BuiltinMethod(obj, name)
        if isinstance(obj, Cell):
            if name in obj_fields(obj):
                return obj_fields(obj)[name]
            if name == "__class__":
                return obj.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            if not isinstance(obj, SObj) and self.B.has_method(obj, name) and \
                    not self.user_attr(obj.cls, name):
                return BuiltinMethod(obj, name)
            return self.class_attr(obj, obj.cls, name, default)
        if isinstance(obj, SuperProxy):
            mro = (obj.obj.cls if isinstance(obj.obj, Cell) else
                   obj.obj if isinstance(obj.obj, type) else type(obj.obj)).__mro__
            idx = mro.index(obj.cls)
            for c in mro[idx + 1:]:
                if name in c.__dict__:
                    return self.bind_attr(obj.obj, c.__dict__[name], name,
                            obj.obj if isinstance(obj.obj, type) else None)
            raise Unsupported(f"super().{name}")
        if isinstance(obj, (InterpFn, BoundMethod, BuiltinMethod, Handler)):
            if name == "__name__":
                return obj.name
            raise Unsupported(f"attribute {name} of a function")
        # host objects
        key = (id(obj), name)
        if key in self.overrides:
            return self.overrides[key][1]
        if isinstance(obj, type):
            try:
                v = inspect.getattr_static(obj, name)
            except AttributeError:
                v = None
            if isinstance(v, classmethod) and isinstance(v.__func__, types.FunctionType):
                return BoundMethod(obj, v.__func__)
            if isinstance(v, staticmethod) and isinstance(v.__func__, types.FunctionType):
                return v.__func__
        elif isinstance(obj, tuple) and not self.concrete(obj):
            if name == "_replace" or name in ("count", "index"):
                raise Unsupported(name)
        try:
            v = getattr(obj, name)
        except AttributeError as exc:
            if default is not UNBOUND:
                return default
            raise PyRaise(self.make_exc(AttributeError, *exc.args)) from exc
        except Unsupported:
            raise
        if isinstance(v, types.MethodType) and isinstance(v.__func__, types.FunctionType) \
                and self.in_repo(v.__func__.__code__.co_filename):
            return BoundMethod(v.__self__, v.__func__)
        if isinstance(obj, types.ModuleType) or isinstance(obj, type) or not \
                isinstance(v, (list, dict)):
            return v
        return v

    def user_attr(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                v = c.__dict__[name]
                f = getattr(v, "fget", None) or getattr(v, "__func__", v)
                return isinstance(f, types.FunctionType) or not callable(f)
        return False

    def class_attr(self, obj, cls, name, default=UNBOUND):
        for c in cls.__mro__:
            if (id(c), name) in self.overrides:
                return self.overrides[(id(c), name)][1]
            if name in c.__dict__:
                return self.bind_attr(obj, c.__dict__[name], name, None)
        ga = getattr(cls, "__getattr__", None)
        if isinstance(ga, types.FunctionType) and self.in_repo(ga.__code__.co_filename):
            if default is not UNBOUND:
                try:
                    return self.call(ga, [obj, name], {})
                except PyRaise as exc:
                    if self.is_exc(exc.exc, AttributeError):
                        return default
                    raise
            return self.call(ga, [obj, name], {})
        if default is not UNBOUND:
            return default
        if isinstance(obj, SObj) and not obj.complete:
            raise Unsupported(f"attribute {name} of an assumed {cls.__name__} object")
        self.throw(AttributeError, name)

    def bind_attr(self, obj, raw, name, cls):
        if isinstance(raw, property):
            return self.call(raw.fget, [obj], {})
        if isinstance(raw, classmethod):
            c = cls or (obj if isinstance(obj, type) else obj.cls if isinstance(obj, Cell)
                    else type(obj))
            return BoundMethod(c, raw.__func__)
        if isinstance(raw, staticmethod):
            return raw.__func__
        if isinstance(raw, types.FunctionType) or isinstance(raw, functools._lru_cache_wrapper):
            return BoundMethod(obj, raw)
        if isinstance(raw, (types.WrapperDescriptorType, types.MethodDescriptorType)):
            if isinstance(obj, SObj) and name == "__init__":
                if issubclass(obj.cls, BaseException):
                    def set_args(E, *a):
                        obj.fields["args"] = tuple(a)
                    return Handler(set_args)
                return Handler(lambda E, *a, **k: None)
            return BuiltinMethod(obj, name)
        return raw

    def setattr(self, obj, name, value):
        if isinstance(obj, Blackhole):
            return
        if isinstance(obj, SObj):
            for c in obj.cls.__mro__:
                v = c.__dict__.get(name)
                if isinstance(v, property):
                    if v.fset is None:
                        self.throw(AttributeError, name)
                    self.call(v.fset, [obj, value], {})
                    return
            hook = obj.fields.get("__setattr__")
            if hook is not None:
                hook(self, obj, name, value)
                return
            self.note_write(obj)
            obj.fields[name] = value
            return
        if isinstance(obj, (MList, MDict)):
            self.note_write(obj)
            obj.fields[name] = value
            return
        raise Unsupported(f"assignment to attribute {name} of {obj!r}")

    # --------------------------------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, "st_" + s.__class__.__name__, None)
        if m is None:
            raise Unsupported(f"statement {s.__class__.__name__}")
        m(s, fr)

    def st_Pass(self, s, fr):
        pass

    def st_Expr(self, s, fr):
        self.ev(s.value, fr)

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            v = self.augop(s.op, cur, self.ev(s.value, fr))
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, fr)
            cur = self.getattr(obj, t.attr)
            v = self.augop(s.op, cur, self.ev(s.value, fr))
            self.setattr(obj, t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, fr)
            idx = self.ev_index(t.slice, fr)
            cur = self.B.getitem(self, obj, idx)
            v = self.augop(s.op, cur, self.ev(s.value, fr))
            self.B.setitem(self, obj, idx, v)
        else:
            raise Unsupported("augmented assignment")

    def augop(self, op, cur, val):
        if isinstance(op, ast.Add) and isinstance(cur, MList):
            self.B.call_method(self, cur, "extend", [val], {})
            return cur
        if isinstance(op, ast.BitOr) and isinstance(cur, MDict):
            self.B.call_method(self, cur, "update", [val], {})
            return cur
        return self.B.binop(self, op, cur, val)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, fr)
            self.B.setitem(self, obj, self.ev_index(t.slice, fr), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, v, fr):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, (GenList, MList)) or not isinstance(v, tuple):
            if star:
                raise Unsupported("starred unpacking of a list")
            pieces = list(self.iter_pieces(v))
            vals = []
            for _ in elts:
                f = self.rope_first(pieces)
                if f is None:
                    self.throw(ValueError, "not enough values to unpack")
                vals.append(f[0])
                pieces = f[1]
            if self.rope_first(pieces) is not None:
                self.throw(ValueError, "too many values to unpack")
            v = tuple(vals)
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(v) < len(elts) - 1:
                self.throw(ValueError, "not enough values to unpack")
            for e, x in zip(elts[:i], v[:i]):
                self.assign(e, x, fr)
            self.assign(elts[i].value, self.new_list(list(v[i:len(v) - after])), fr)
            for e, x in zip(elts[i + 1:], v[len(v) - after:]):
                self.assign(e, x, fr)
            return
        if len(v) != len(elts):
            self.throw(ValueError, "unpacking mismatch")
        for e, x in zip(elts, v):
            self.assign(e, x, fr)

    def store_name(self, name, v, fr):
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.env:
                    f.env[name] = v
                    return
                f = f.parent
            raise Unsupported("nonlocal")
        fr.env[name] = v

    def st_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def st_Global(self, s, fr):
        raise Unsupported("global statement")

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.B.delitem(self, self.ev(t.value, fr), self.ev_index(t.slice, fr))
            else:
                raise Unsupported("del")

    def st_If(self, s, fr):
        if self.in_spec and self.mergeable(s):
            names = sorted(assigned_names([s]))
            env0 = dict(fr.env)

            def run():
                fr.env.clear()
                fr.env.update(env0)
                try:
                    if self.truth(self.ev(s.test, fr)):
                        self.block(s.body, fr)
                    else:
                        self.block(s.orelse, fr)
                    return tuple(fr.env.get(n, UNBOUND) for n in names)
                finally:
                    fr.env.clear()
                    fr.env.update(env0)
            try:
                vals = self.merged_nocheck(run)
            except Unsupported:
                vals = None
            if vals is not None:
                for n, v in zip(names, vals):
                    if v is not UNBOUND:
                        fr.env[n] = v
                return
        if self.truth(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    @staticmethod
    def mergeable(s):
        """Only plain assignments to local names inside."""
        for n in ast.walk(s):
            if isinstance(n, ast.stmt) and not isinstance(n, (ast.If, ast.Assign, ast.AugAssign,
                    ast.Pass)):
                return False
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if not all(isinstance(t, ast.Name) for t in ts):
                    return False
        return True

    def st_Return(self, s, fr):
        raise ReturnX(self.ev(s.value, fr) if s.value is not None else None)

    def st_Break(self, s, fr):
        raise BreakX()

    def st_Continue(self, s, fr):
        raise ContinueX()

    def st_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            self.throw(AssertionError)

    def st_Raise(self, s, fr):
        if s.exc is None:
            if not self.exc_stack:
                raise Unsupported("bare raise")
            raise PyRaise(self.exc_stack[-1])
        v = self.ev(s.exc, fr)
        if isinstance(v, type):
            v = self.instantiate(v, [], {})
        if s.cause is not None:
            self.ev(s.cause, fr)
        if not isinstance(v, SObj):
            if isinstance(v, BaseException):
                v = self.make_exc(type(v), *v.args)
            else:
                raise Unsupported(f"raise {v!r}")
        raise PyRaise(v)

    def exc_matches(self, exc, types_):
        if isinstance(types_, tuple):
            return any(self.exc_matches(exc, t) for t in types_)
        if not isinstance(types_, type):
            raise Unsupported("dynamic exception class")
        return issubclass(exc.cls, types_)

    def st_Try(self, s, fr):
        def handled():
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e.exc, self.ev(h.type, fr)):
                        if h.name:
                            fr.env[h.name] = e.exc
                        self.exc_stack.append(e.exc)
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.exc_stack.pop()
                            if h.name:
                                fr.env.pop(h.name, None)
                        return
                raise
            else:
                self.block(s.orelse, fr)
        if not s.finalbody:
            handled()
            return
        try:
            handled()
        except (PyRaise, BreakX, ContinueX, ReturnX):
            self.block(s.finalbody, fr)
            raise
        self.block(s.finalbody, fr)

    def st_With(self, s, fr):
        def enter(items):
            if not items:
                self.block(s.body, fr)
                return
            it = items[0]
            mgr = self.ev(it.context_expr, fr)
            if isinstance(mgr, (Blackhole, GenList)) or (isinstance(mgr, MList)):
                val, exit_ = mgr, None
            else:
                val = self.call(self.getattr(mgr, "__enter__"), [], {})
                exit_ = self.getattr(mgr, "__exit__")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, val, fr)
            try:
                enter(items[1:])
            except PyRaise as e:
                if exit_ is not None:
                    r = self.call(exit_, [e.exc.cls, e.exc, None], {})
                    if r is not None and self.truth(r):
                        return
                raise
            except (BreakX, ContinueX, ReturnX):
                if exit_ is not None:
                    self.call(exit_, [None, None, None], {})
                raise
            if exit_ is not None:
                self.call(exit_, [None, None, None], {})
        enter(s.items)

    def st_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported("decorated nested function")
        fr.env[s.name] = self.make_closure(s, s.name, fr)

    def make_closure(self, node, name, fr):
        a = node.args
        return InterpFn(node, fr.globals, name, fr,
                tuple(self.ev(d, fr) for d in a.defaults),
                {x.arg: self.ev(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults)
                    if d is not None}, fr.cls)

    def st_Import(self, s, fr):
        for al in s.names:
            if al.asname:
                fr.env[al.asname] = __import__(al.name, fromlist=["x"])
            else:
                fr.env[al.name.split(".")[0]] = __import__(al.name)

    def st_ImportFrom(self, s, fr):
        if s.level:
            raise Unsupported("relative import inside a function")
        m = __import__(s.module, fromlist=[a.name for a in s.names])
        for al in s.names:
            fr.env[al.asname or al.name] = getattr(m, al.name)

    # ------------------------------------------------------------------------------------- loops
    def loop_key(self, s, fr):
        node = fr.fn.node
        if fr.loop_ordinals is None:
            fr.loop_ordinals = {}
            i = 0
            for n in ast.walk(node):
                if isinstance(n, (ast.For, ast.While)):
                    fr.loop_ordinals[id(n)] = i
                    i += 1
        return (fr.fn.name, fr.loop_ordinals.get(id(s), -1))

    def name_cells(self, fr):
        names = {}

        def visit(path, v, depth):
            if isinstance(v, Cell):
                if v.uid in names:
                    return
                names[v.uid] = path
                if depth > 3:
                    return
                for k, x in obj_fields(v).items():
                    visit(f"{path}.{k}", x, depth + 1)
                if isinstance(v, MList):
                    n = len(v.pieces)
                    for i, x in enumerate(v.pieces):
                        if not isinstance(x, SeqP):
                            visit(f"{path}[{i - n}]", x, depth + 1)
                if isinstance(v, MDict):
                    for k, x in v.items.items():
                        visit(f"{path}[{k!r}]", x, depth + 1)
            elif isinstance(v, tuple):
                for i, x in enumerate(v):
                    visit(f"{path}[{i}]", x, depth + 1)
            elif isinstance(v, BoundMethod):
                visit(path + ".__self__", v.obj, depth + 1)
        for f in reversed(self.frames):
            pre = "" if f is fr else f"<{f.fn.name}>"
            for k, v in sorted(f.env.items()):
                visit(pre + k, v, 0)
        for k, v in sorted(self.ghosts.items()):
            visit("$" + k, v, 0)
        return names

    def havoc_value(self, key, name, v):
        """A fresh value for a location modified by a loop."""
        k = (key, name)
        types_ = self.loop_types.setdefault(k, [])
        if v is not UNBOUND:
            self.record_type(k, v, restart=False)
        if not types_:
            return UNBOUND
        consts = [t for t in types_ if isinstance(t, ConstTy)]
        tys = [t for t in types_ if not isinstance(t, ConstTy)]
        bits = [t for t in tys if isinstance(t, Bits)]
        if bits and INT in tys:
            tys = [t for t in tys if t is not INT]
        options = tys + consts
        t = options[self.choice(len(options))]
        if isinstance(t, ConstTy):
            return t.value
        if isinstance(t, SeqT):
            if t.elem is NONE:
                tt = [x for x in tys if isinstance(x, SeqT) and x.elem is not NONE]
                if tt:
                    raise PathEnd()
                return MList(self, [], cls=t.cls)
            return MList(self, [self.fresh_seq(name, t.elem)], cls=t.cls)
        return t.fresh(self, name)

    def record_type(self, k, v, restart=True):
        if v is UNBOUND:
            return
        types_ = self.loop_types.setdefault(k, [])
        try:
            t = self.type_of(v)
        except Unsupported:
            t = ConstTy(v)
        if t not in types_:
            types_.append(t)
            if restart:
                raise Restart()

    def cut_head(self, key, s, fr, assigned, names, uid):
        """Havoc everything the loop modifies; returns the LoopCtx for the body."""
        mod = self.modsets.setdefault(key, set())
        havoced = set()
        hooked = set()
        cells = {}
        by_name = {}
        for f in self.frames:
            pre = "" if f is fr else f"<{f.fn.name}>"
        # locate cells by name
        for u, n in names.items():
            by_name[n] = u
        targets = [(n, by_name[n]) for n in sorted(mod) if n in by_name]
        cellmap = self.cells_by_uid(fr)
        bnames = bit_names(fr.fn.node) if self.bit_width else ()
        for name in sorted(assigned):
            v = fr.env.get(name, UNBOUND)
            if name in bnames and name not in self.havoc_hooks:
                if v is not UNBOUND:
                    self.as_bits_value(v)
                fr.env[name] = Bits(self.bit_width).fresh(self, name)
                self.loop_bits.add((key, name))
                continue
            nv = self.havoc_value(key, name, v) if name not in self.loop_hook_names(key) \
                else self.havoc_hooks[name](self, v)
            if nv is UNBOUND:
                fr.env.pop(name, None)
            else:
                fr.env[name] = nv
        for name, u in targets:
            cell = cellmap.get(u)
            if cell is None:
                continue
            havoced.add(u)
            cells[name] = cell
            hook = self.havoc_hooks.get(name)
            if hook is not None:
                hook(self, cell)
                continue
            if self.cell_hook is not None and self.cell_hook(self, name, cell):
                hooked.add(name)
                continue
            if isinstance(cell, MList):
                self.havoc_list(key, name, cell)
            elif isinstance(cell, SObj):
                fields = self.modsets.setdefault((key, name, "fields"), set())
                for fname in sorted(fields):
                    if fname in cell.fields:
                        nv = self.havoc_value(key, f"{name}.{fname}", cell.fields[fname])
                        cell.fields[fname] = nv
            elif isinstance(cell, SMap):
                cell.present = self.fresh_const(name + "_dom", cell.present.sort())
                cell.values = self.fresh_const(name + "_map", cell.values.sort())
            elif isinstance(cell, RSet):
                cell.pieces = [self.fresh_seq(name, self.rope_type(cell.pieces))]
                cell.size = None
            elif isinstance(cell, MSet):
                cell.present = self.fresh_const(name + "_set", cell.present.sort())
            elif isinstance(cell, MDict):
                for k in list(cell.items):
                    if not isinstance(cell.items[k], Cell):
                        cell.items[k] = self.havoc_value(key, f"{name}[{k!r}]", cell.items[k])
            else:
                raise Unsupported(f"havoc of {cell!r}")
        ctx = LoopCtx(key, uid, names, havoced)
        ctx.cells = cells
        ctx.hooked = hooked
        ctx.snap = {n: (dict(c.fields) if isinstance(c, SObj) else
            dict(c.items) if isinstance(c, MDict) else None)
                for n, c in cells.items()}
        return ctx

    loop_bits = set()

    def as_bits_value(self, v):
        """v must be a bit set of the current width (part of the loop's type invariant)."""
        if isinstance(v, SBits) and v.exact and not v.neg and v.t.size() == self.bit_width:
            return
        if isinstance(v, int) and 0 <= v < 2 ** self.bit_width:
            return
        raise Unsupported(f"{v!r} is not known to be a bit set")

    def loop_hook_names(self, key):
        return self.havoc_hooks

    def havoc_list(self, key, name, cell):
        k = (key, name + "[]")
        types_ = self.loop_types.setdefault(k, [])
        et = self.rope_type(cell)
        if et is not None and et not in types_:
            types_.append(et)
        types_ = [t for t in types_ if not (isinstance(t, SeqT) and t.elem is NONE)] or types_
        if not types_:
            cell.pieces = []
            return
        if len(types_) > 1:
            names = {t.name for t in types_}
            if names == {"char", "str"}:
                types_ = [CHAR]
            else:
                raise Unsupported(f"list {name} of mixed types {types_}")
        cell.pieces = [self.fresh_seq(name.replace(".", "_"), types_[0])]

    def cells_by_uid(self, fr):
        out = {}

        def visit(v, depth):
            if isinstance(v, Cell):
                if v.uid in out:
                    return
                out[v.uid] = v
                if depth > 3:
                    return
                for x in obj_fields(v).values():
                    visit(x, depth + 1)
                if isinstance(v, MList):
                    for x in v.pieces:
                        if not isinstance(x, SeqP):
                            visit(x, depth + 1)
                if isinstance(v, MDict):
                    for x in v.items.values():
                        visit(x, depth + 1)
            elif isinstance(v, tuple):
                for x in v:
                    visit(x, depth + 1)
            elif isinstance(v, BoundMethod):
                visit(v.obj, depth + 1)
        for f in self.frames:
            for v in f.env.values():
                visit(v, 0)
        for v in self.ghosts.values():
            visit(v, 0)
        return out

    def record_back_edge(self, key, fr, assigned, ctx):
        for name in sorted(assigned):
            if (key, name) in self.loop_bits:
                self.as_bits_value(fr.env.get(name, UNBOUND))
                continue
            if name in fr.env and name not in self.havoc_hooks:
                self.record_type((key, name), fr.env[name])
        for name, cell in ctx.cells.items():
            if name in self.havoc_hooks or name in ctx.hooked:
                continue
            if isinstance(cell, MList):
                et = self.rope_type(cell)
                types_ = self.loop_types.setdefault((key, name + "[]"), [])
                if et is not None and et not in types_ and not (
                        isinstance(et, SeqT) and et.elem is NONE):
                    types_.append(et)
                    raise Restart()
            elif isinstance(cell, SObj):
                fields = self.modsets.setdefault((key, name, "fields"), set())
                snap = ctx.snap[name]
                for fname, v in cell.fields.items():
                    if fname not in snap or snap[fname] is not v:
                        if fname not in fields:
                            fields.add(fname)
                            raise Restart()
                        self.record_type((key, f"{name}.{fname}"), v)
            elif isinstance(cell, MDict):
                snap = ctx.snap[name]
                if set(snap) != set(cell.items):
                    raise Unsupported(f"the loop changes the keys of {name}")
                for k, v in cell.items.items():
                    if isinstance(snap[k], Cell) or isinstance(v, Cell):
                        if v is not snap[k]:
                            raise Unsupported(f"the loop replaces an object in {name}")
                    else:
                        self.record_type((key, f"{name}[{k!r}]"), v)

    def inv_candidates(self, key):
        """(identifier, function, variable bound to _any) of all live candidates."""
        out = []
        for i, f in enumerate(self.invariants):
            params = [a.arg for a in find_node(f).args.args]
            if "_any" in params or "_var" in params:
                mod = {n for n in self.modsets.get(key, ()) if n.isidentifier()}
                names = sorted(set(self.loop_vars.get(key, ())) | mod) if "_any" in params else [""]
                if "_var" in params:
                    # any variable at all
                    names = [f"{n} {v}" for n in names for v in sorted(self.all_vars.get(key, ()))]
                for name in names:
                    if (key, (i, name)) not in self.dropped:
                        out.append(((i, name), f, name))
            elif (key, (i, None)) not in self.dropped:
                out.append(((i, None), f, None))
        return out

    def inv_value(self, f, fr, special, any_=None):
        """Evaluate an invariant candidate in the current state; None if not applicable."""
        node = find_node(f)
        args = []
        for a in node.args.args:
            n = a.arg
            if n in ("_any", "_var"):
                v = fr.env.get(any_.split(" ")[0 if n == "_any" else 1], UNBOUND)
                if v is UNBOUND:
                    return None
                args.append(v)
            elif n == "_before":
                v = special.get("_olds", {}).get((any_ or "").split(" ")[0], UNBOUND)
                if v is UNBOUND:
                    return None
                args.append(v)
            elif n in special:
                args.append(special[n])
            elif n in fr.env:
                if fr.env[n] is UNBOUND:
                    return None
                args.append(fr.env[n])
            elif n in self.ghosts:
                args.append(self.ghosts[n])
            else:
                return None
        self.in_spec += 1
        try:
            return self.merged(lambda: SBool(self.truth_term(self.call(f, list(args), {}))))
        except PyRaise:
            return None
        except (Unsupported, z3.Z3Exception) as exc:
            self.inv_errors = getattr(self, "inv_errors", {})
            self.inv_errors[f.__name__] = str(exc)
            return None
        finally:
            self.in_spec -= 1

    def inv_check(self, key, fr, special, what):
        if self.replaying():
            return
        for i, f, any_ in self.inv_candidates(key):
            v = self.inv_value(f, fr, special, any_)
            if v is None:
                self.drop(key, i, f"not expressible at {what}", False)
            g = self.as_bool_term(v)
            status, backend, info = self.prove(g, want_model=False, strong=any_ is None)
            if status != "proved":
                import os as _os
                if _os.environ.get("PYVC_DEBUG"):
                    d = z3.Solver()
                    d.add(*self.pc)
                    d.add(z3.Not(g))
                    with open(f"/tmp/w/drop-{f.__name__}-{key[1]}-{any_}.smt2", "w") as fh:
                        fh.write("(set-logic ALL)\n" + d.to_smt2())
                    print("DROP", key, any_, f.__name__, what, status,
                            (info or {}).get("goal", "")[:600])
                self.drop(key, i, f"{what}: {status}", status == "refuted")
            ob = self.inv_obs.setdefault((key, i, what), [0, f.__name__])
            ob[0] += 1

    unroll = 0
    loop_vars = {}
    all_vars = {}
    inv_obs = {}

    def drop(self, key, i, why, refuted):
        self.dropped[(key, i)] = (self.invariants[i[0]].__name__, why, refuted)
        self.inv_obs = {}
        raise Restart()

    def inv_assume(self, key, fr, special):
        for i, f, any_ in self.inv_candidates(key):
            v = self.inv_value(f, fr, special, any_)
            if v is None:
                self.drop(key, i, "not expressible", False)
            self.assume(v)

    def st_While(self, s, fr):
        n = 0
        while True:
            # As long as the condition is decided by concrete values, unroll.
            c = self.ev(s.test, fr)
            t = z3.simplify(self.truth_term(c))
            if self.unroll or self.bound:
                # all paths up to a number of iterations (bounded contracts)
                if n > (self.unroll or self.bound + 2):
                    if self.bound:
                        raise PathEnd()
                    raise Unsupported("more iterations than the bound")
                t = z3.BoolVal(self.truth(c))
                if z3.is_true(t):
                    n += 1
                    try:
                        self.block(s.body, fr)
                    except BreakX:
                        return
                    except ContinueX:
                        pass
                    continue
            if z3.is_true(t) and self.concrete_control(c, s, n):
                n += 1
                try:
                    self.block(s.body, fr)
                except BreakX:
                    return
                except ContinueX:
                    pass
                continue
            if z3.is_false(t):
                self.block(s.orelse, fr)
                return
            break
        key = self.loop_key(s, fr)
        self.stats["loops"][f"{key[0]}#{key[1]}"] = "while"
        assigned = assigned_names(s.body)
        self.all_vars.setdefault(key, set()).update(fr.env)
        self.loop_vars[key] = assigned
        names = self.name_cells(fr)
        uid = self.uidc
        special = {}
        self.inv_check(key, fr, special, "entry")
        ctx = self.cut_head(key, s, fr, assigned, names, uid)
        self.inv_assume(key, fr, special)
        if self.choice(2) == 1:
            # exit
            if self.truth(self.ev(s.test, fr)):
                raise PathEnd()
            self.block(s.orelse, fr)
            return
        if not self.truth(self.ev(s.test, fr)):
            raise PathEnd()
        var0 = self.variant_value(key, fr)
        self.loops.append(ctx)
        try:
            try:
                self.block(s.body, fr)
            except ContinueX:
                pass
            except BreakX:
                self.loops.remove(ctx)
                return
        except (PyRaise, ReturnX):
            self.loops.remove(ctx)
            raise
        self.loops.remove(ctx)
        self.record_back_edge(key, fr, assigned, ctx)
        self.inv_check(key, fr, special, "preserved")
        self.check_variant(key, fr, var0)
        raise PathEnd()

    def concrete_control(self, c, s, n):
        if n > 300:
            raise Unsupported("unrolling does not terminate")
        return not (isinstance(s.test, ast.Constant) and n > 0)

    variants = {}

    def variant_value(self, key, fr):
        f = self.path_variants.get(key[0]) if hasattr(self, "path_variants") else None
        if f is None:
            return None
        return self.eval_variant(f, fr)

    def eval_variant(self, f, fr):
        node = find_node(f)
        args = []
        for a in node.args.args:
            if a.arg in fr.env:
                args.append(fr.env[a.arg])
            elif a.arg in self.ghosts:
                args.append(self.ghosts[a.arg])
            else:
                return None
        v = self.spec(f, *args)
        return v if isinstance(v, tuple) else (v,)

    def check_variant(self, key, fr, var0):
        if var0 is None:
            return
        f = self.path_variants[key[0]]
        var1 = self.eval_variant(f, fr)
        terms0 = [INT.unwrap(self, x) for x in var0]
        terms1 = [INT.unwrap(self, x) for x in var1]
        # lexicographic decrease, bounded below by zero
        cond = z3.BoolVal(False)
        for a, b in reversed(list(zip(terms0, terms1))):
            cond = z3.Or(z3.And(b < a, a >= 0), z3.And(a == b, cond))
        self.ensure(f"loop in {key[0]} terminates", cond)

    def st_For(self, s, fr):
        it = self.ev(s.iter, fr)
        self.for_iter(s, fr, it)

    def for_iter(self, s, fr, it):
        if isinstance(it, self.B.RangeIter):
            self.for_range(s, fr, it)
            return
        exc = None
        wrap = lambda x, i: x
        if isinstance(it, self.B.EnumIter):
            start = it.start
            wrap = lambda x, i: (self.B.binop(self, ast.Add(), start, i), x)
            it = it.base
        if isinstance(it, GenList):
            exc = it.exc
        live = it if isinstance(it, MList) else None
        pieces = self.expanded(self.iter_pieces(it))
        count = 0
        broke = False
        earlier = []
        while pieces:
            p = pieces.pop(0)
            before = list(live.pieces) if live is not None else None
            if isinstance(p, SeqP):
                r = self.for_segment(s, fr, p, count, wrap, pieces, list(earlier))
                if r == "break":
                    broke = True
                    break
                n = z3.Length(p.t)
                count = SInt(n) if isinstance(count, int) and count == 0 else \
                    SInt(INT.unwrap(self, count) + n)
            else:
                self.assign(s.target, wrap(p, count), fr)
                count = self.B.binop(self, ast.Add(), count, 1)
                try:
                    self.block(s.body, fr)
                except BreakX:
                    broke = True
                    break
                except ContinueX:
                    pass
            earlier.append(p)
            if live is not None and self.changed(before, live.pieces):
                raise Unsupported("list is modified while iterating over it")
        if broke:
            return
        if exc is not None:
            raise PyRaise(exc)
        self.block(s.orelse, fr)

    def changed(self, a, b):
        if len(a) != len(b):
            na, nb = self.norm(a), self.norm(b)
        else:
            na, nb = a, b
        if len(na) != len(nb):
            return True
        return any(x is not y and not (isinstance(x, SeqP) and isinstance(y, SeqP)
            and x.t.eq(y.t)) for x, y in zip(na, nb))

    def snapshot(self, fr):
        return {k: self.new_list(list(v.pieces)) if isinstance(v, MList) else v
                for k, v in fr.env.items()
                if isinstance(v, MList) or not isinstance(v, Cell)}

    def for_segment(self, s, fr, seg, count, wrap, later, earlier=()):
        key = self.loop_key(s, fr)
        self.stats["loops"][f"{key[0]}#{key[1]}"] = "for"
        assigned = assigned_names(s.body) | assigned_names([ast.Assign(targets=[s.target],
            value=ast.Constant(0))])
        self.all_vars.setdefault(key, set()).update(fr.env)
        self.loop_vars[key] = assigned_names(s.body)
        names = self.name_cells(fr)
        uid = self.uidc
        whole = self.new_list([seg], ty=seg.ty)
        olds = self.snapshot(fr)

        def special(done, rest):
            return {"_done": self.new_list(done, ty=seg.ty),
                    "_rest": self.new_list(list(rest) + list(later), ty=seg.ty),
                    "_all": self.new_list(list(earlier) + list(done), ty=seg.ty),
                    "_whole": whole, "_olds": olds}
        self.inv_check(key, fr, special([], [seg]), "entry")
        ctx = self.cut_head(key, s, fr, assigned, names, uid)
        if self.choice(2) == 1:
            self.inv_assume(key, fr, special([seg], []))
            return "normal"
        done = self.fresh_seq("done", seg.ty)
        x = seg.ty.fresh(self, "x")
        rest = self.fresh_seq("rest", seg.ty)
        self.inv_assume(key, fr, special([done], [x, rest]))
        self.decompose(seg, [done, x, rest])
        n = SInt(INT.unwrap(self, count) + z3.Length(done.t))
        self.assign(s.target, wrap(x, n), fr)
        self.loops.append(ctx)
        try:
            try:
                self.block(s.body, fr)
            except ContinueX:
                pass
            except BreakX:
                self.loops.remove(ctx)
                return "break"
        except (PyRaise, ReturnX):
            self.loops.remove(ctx)
            raise
        self.loops.remove(ctx)
        self.record_back_edge(key, fr, assigned, ctx)
        self.inv_check(key, fr, special([done, x], [rest]), "preserved")
        raise PathEnd()

    def for_range(self, s, fr, it):
        start, stop, step = it.start, it.stop, it.step
        if all(isinstance(x, int) for x in (start, stop, step)) and len(
                range(start, stop, step)) <= 64:
            for i in range(start, stop, step):
                self.assign(s.target, i, fr)
                try:
                    self.block(s.body, fr)
                except BreakX:
                    return
                except ContinueX:
                    pass
            self.block(s.orelse, fr)
            return
        key = self.loop_key(s, fr)
        self.stats["loops"][f"{key[0]}#{key[1]}"] = "range"
        a, b, st = (INT.unwrap(self, x) for x in (start, stop, step))
        if not self.branch(st > 0):
            raise Unsupported("range with non-positive step")
        if self.bound:
            for n in range(self.bound + 3):
                i = z3.simplify(a + n * st)
                if not self.branch(i < b):
                    self.block(s.orelse, fr)
                    return
                self.assign(s.target, i.as_long() if z3.is_int_value(i) else SInt(i), fr)
                try:
                    self.block(s.body, fr)
                except BreakX:
                    return
                except ContinueX:
                    pass
            raise PathEnd()
        assigned = assigned_names(s.body) | assigned_names([ast.Assign(targets=[s.target],
            value=ast.Constant(0))])
        self.all_vars.setdefault(key, set()).update(fr.env)
        self.loop_vars[key] = assigned_names(s.body)
        names = self.name_cells(fr)
        uid = self.uidc
        sp = lambda i: {"_i": SInt(i), "_start": SInt(a), "_stop": SInt(b), "_step": SInt(st)}
        self.inv_check(key, fr, sp(a), "entry")
        ctx = self.cut_head(key, s, fr, assigned, names, uid)
        k = self.fresh_const("k", z3.IntSort())
        i = self.fresh_const("i", z3.IntSort())
        self.fact(z3.And(k >= 0, i >= a))
        if not z3.is_int_value(st):
            self.fact(z3.Implies(k >= 1, i - st >= a))
        else:
            self.fact(i == a + k * st)
        if self.choice(2) == 1:
            self.fact(z3.And(i >= b, z3.Or(i == a, i - st < b)))
            self.inv_assume(key, fr, sp(i))
            self.block(s.orelse, fr)
            return
        self.fact(i < b)
        self.inv_assume(key, fr, sp(i))
        self.assign(s.target, SInt(i), fr)
        self.loops.append(ctx)
        try:
            try:
                self.block(s.body, fr)
            except ContinueX:
                pass
            except BreakX:
                self.loops.remove(ctx)
                return
        except (PyRaise, ReturnX):
            self.loops.remove(ctx)
            raise
        self.loops.remove(ctx)
        self.record_back_edge(key, fr, assigned, ctx)
        self.inv_check(key, fr, sp(i + st), "preserved")
        raise PathEnd()

    def iter_pieces(self, v):
        """The rope of an iterable."""
        return self.B.iter_pieces(self, v)

    # -------------------------------------------------------------------------------- expressions
    def ev(self, e, fr):
        m = getattr(self, "ex_" + e.__class__.__name__, None)
        if m is None:
            raise Unsupported(f"expression {e.__class__.__name__}")
        return m(e, fr)

    def ex_Constant(self, e, fr):
        return e.value

    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.env:
                v = f.env[name]
                if v is UNBOUND:
                    raise Unsupported(f"{name} may be unbound")
                return v
            if name in f.closure_vars:
                return f.closure_vars[name]
            f = f.parent
        if name == "__debug__":
            return True
        key = (id(fr.globals), name)
        if key in self.overrides:
            return self.overrides[key][1]
        if name in fr.globals:
            return self.import_global(fr.globals[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        if any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)
                for n in ast.walk(fr.fn.node)):
            if self.loops:
                raise Unsupported(f"{name} may be unbound")
            self.throw(UnboundLocalError, name)
        self.throw(NameError, name)

    def import_global(self, v):
        return v

    def ex_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def ex_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def ev_index(self, e, fr):
        if isinstance(e, ast.Slice):
            return slice(*(self.ev(x, fr) if x is not None else None
                for x in (e.lower, e.upper, e.step)))
        return self.ev(e, fr)

    def ex_Subscript(self, e, fr):
        obj = self.ev(e.value, fr)
        return self.B.getitem(self, obj, self.ev_index(e.slice, fr))

    def ex_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            cls = fr.cls or fr.closure_vars.get("__class__")
            f = fr
            while cls is None and f is not None:
                cls = f.closure_vars.get("__class__")
                f = f.parent
            first = fr.fn.node.args.args[0].arg
            return SuperProxy(cls, fr.env[first])
        fn = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                pieces = self.norm(list(self.iter_pieces(v)))
                if any(isinstance(p, SeqP) for p in pieces):
                    if fn is itertools.chain or fn in (print,):
                        args.append(self.B.StarRope(pieces))
                        continue
                    raise Unsupported("starred argument of unknown length")
                args.extend(pieces)
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.comp_lazy(a, fr))
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if not isinstance(d, MDict):
                    raise Unsupported("**kwargs")
                kwargs.update(d.items)
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        return self.call(fn, args, kwargs)

    def ex_BinOp(self, e, fr):
        return self.B.binop(self, e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def ex_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = z3.simplify(self.truth_term(v))
            if z3.is_true(t):
                return False
            if z3.is_false(t):
                return True
            return SBool(z3.Not(t))
        return self.B.unop(self, e.op, v)

    def ex_BoolOp(self, e, fr):
        if self.in_spec and not self.isolated:
            try:
                return self.merged_nocheck(lambda: self.boolop(e, fr))
            except Unsupported:
                pass
        return self.boolop(e, fr)

    def boolop(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            if self.truth(v) != is_and:
                if isinstance(v, SBool):
                    return not is_and
                return v
        return v

    def ex_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            c = self.B.compare(self, op, left, right)
            if i == len(e.ops) - 1:
                if res is True:
                    return c
                return c
            if not self.truth(c):
                return False
            left = right
        return res

    def ex_IfExp(self, e, fr):
        if self.in_spec and not self.isolated:
            try:
                return self.merged_nocheck(lambda: self.ev(e.body if self.truth(self.ev(e.test, fr))
                    else e.orelse, fr))
            except Unsupported:
                pass
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def ex_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                ps = self.norm(list(self.iter_pieces(self.ev(x.value, fr))))
                if any(isinstance(p, SeqP) for p in ps):
                    raise Unsupported("starred tuple")
                out.extend(ps)
            else:
                out.append(self.ev(x, fr))
        return tuple(out)

    def ex_List(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_pieces(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return self.new_list(out)

    def ex_Dict(self, e, fr):
        d = MDict(self)
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, fr)
                if not isinstance(o, MDict):
                    raise Unsupported("dict unpacking")
                d.items.update(o.items)
            else:
                self.B.setitem(self, d, self.ev(k, fr), self.ev(v, fr))
        return d

    def ex_Set(self, e, fr):
        vals = [self.ev(x, fr) for x in e.elts]
        if all(self.concrete(v) for v in vals):
            return set(vals)
        raise Unsupported("set of symbolic values")

    def ex_Lambda(self, e, fr):
        return self.make_closure(e, "<lambda>", fr)

    def ex_JoinedStr(self, e, fr):
        parts = [self.ev(v, fr) for v in e.values]
        return self.B.str_concat(self, parts)

    def ex_FormattedValue(self, e, fr):
        v = self.ev(e.value, fr)
        spec = self.ev(e.format_spec, fr) if e.format_spec is not None else ""
        conv = chr(e.conversion) if e.conversion not in (-1, None) else ""
        return self.B.format_value(self, v, conv, spec)

    def ex_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.store_name(e.target.id, v, fr)
        return v

    def ex_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        out = fr.env["_yield"]
        self.note_write(out)
        out.pieces.append(v)
        return None

    def ex_YieldFrom(self, e, fr):
        v = self.ev(e.value, fr)
        out = fr.env["_yield"]
        self.note_write(out)
        out.pieces.extend(self.iter_pieces(v))
        if isinstance(v, GenList) and v.exc is not None:
            raise PyRaise(v.exc)
        return None

    # comprehensions -----------------------------------------------------------------------------
    def comp_pieces(self, e, fr, elt):
        """Pieces of a comprehension."""
        def level(gens, env_frame):
            g = gens[0]
            it = self.ev(g.iter, env_frame)
            if isinstance(it, self.B.EnumIter):
                pieces = self.expanded(self.iter_pieces(it.base))
                if any(isinstance(p, SeqP) for p in pieces):
                    raise Unsupported("comprehension over enumerate of a symbolic list")
                pieces = [(self.B.binop(self, ast.Add(), it.start, i), p)
                        for i, p in enumerate(pieces)]
            elif isinstance(it, self.B.RangeIter):
                pieces = self.B.iter_pieces(self, it)
            else:
                pieces = list(self.iter_pieces(it))

            def body(x):
                sub = Frame(fr.fn, dict(), fr.globals, env_frame)
                sub.closure_vars = {}
                sub.cls = fr.cls
                self.assign(g.target, x, sub)
                for c in g.ifs:
                    if not self.truth(self.ev(c, sub)):
                        return []
                if len(gens) > 1:
                    return level(gens[1:], sub)
                return [elt(sub)]
            return self.hom_concat(pieces, body)
        return level(e.generators, fr)

    def ex_ListComp(self, e, fr):
        return self.new_list(self.comp_pieces(e, fr, lambda sub: self.ev(e.elt, sub)))

    def ex_GeneratorExp(self, e, fr):
        return GenList(self.new_list(self.comp_pieces(e, fr, lambda sub: self.ev(e.elt, sub))))

    def ex_SetComp(self, e, fr):
        ps = self.comp_pieces(e, fr, lambda sub: self.ev(e.elt, sub))
        return self.B.make_set(self, ps)

    def ex_DictComp(self, e, fr):
        ps = self.comp_pieces(e, fr, lambda sub: (self.ev(e.key, sub), self.ev(e.value, sub)))
        d = MDict(self)
        for p in ps:
            if isinstance(p, SeqP):
                raise Unsupported("dict comprehension over a symbolic list")
            self.B.setitem(self, d, p[0], p[1])
        return d

    def comp_lazy(self, e, fr):
        """A generator expression as an argument of a fold (any, all, sum, join ...)."""
        return LazyComp(self, e, fr)


class LazyComp(GenList):
    """A generator expression that has not been evaluated yet."""

    def __init__(self, E, node, fr):
        self.E = E
        self.node = node
        self.fr = fr
        self.exc = None
        self._mlist = None

    @property
    def mlist(self):
        if self._mlist is None:
            self._mlist = self.E.new_list(self.E.comp_pieces(self.node, self.fr,
                lambda sub: self.E.ev(self.node.elt, sub)))
        return self._mlist

    def fold(self, kind):
        """any/sum over the elements as a term."""
        E, fr = self.E, self.fr

        def level(gens, env_frame):
            g = gens[0]
            it = E.ev(g.iter, env_frame)
            if isinstance(it, E.B.EnumIter):
                pieces = [(E.B.binop(E, ast.Add(), it.start, i), p)
                        for i, p in enumerate(E.expanded(E.iter_pieces(it.base)))]
                if any(isinstance(p[1], SeqP) for p in pieces):
                    raise Unsupported("fold over enumerate of a symbolic list")
            else:
                pieces = list(E.iter_pieces(it))
            if isinstance(it, GenList) and it.exc is not None:
                raise Unsupported("fold over a generator that raises")

            def fn(x):
                sub = Frame(fr.fn, dict(), fr.globals, env_frame)
                sub.closure_vars = {}
                sub.cls = fr.cls
                E.assign(g.target, x, sub)

                def inner():
                    for c in g.ifs:
                        if not E.truth(E.ev(c, sub)):
                            return False if kind == "any" else 0
                    if len(gens) > 1:
                        t = level(gens[1:], sub)
                        return SBool(t) if kind == "any" else SInt(t)
                    v = E.ev(self.node.elt, sub)
                    if kind == "any":
                        return SBool(E.truth_term(v))
                    return v
                return inner()
            return E.hom(kind, pieces, fn)
        return level(self.node.generators, fr)

    def fold_all(self):
        """all(...) as not any(not ...)."""
        E = self.E
        node = ast.GeneratorExp(elt=ast.UnaryOp(op=ast.Not(), operand=self.node.elt),
                generators=self.node.generators)
        c = LazyComp(E, node, self.fr)
        return z3.Not(c.fold("any"))


class ConstTy(Ty):
    """A location holding a particular host object."""

    def __init__(self, value):
        self.value = value
        self.name = f"const {id(value)}"


def obj_fields(cell):
    return getattr(cell, "fields", {})
