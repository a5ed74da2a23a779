"""C05: tests of strings."""

import itertools
import re

from contracts.common import Contract, Concrete, outcome
from contracts import harness
from contracts.c12 import described, matches, parts, specified
from libff.exceptions import ExpressionError, UsageError
from libff.ignore import Glob
from libff.parser import Parser
from libff import type as types

CASES = ["smart", "ignore", "sensitive"]


# ------------------------------------------------------------------------------------ concrete runs
def ignores(pattern, case):
    return case == "ignore" or case == "smart" and not any(c != c.lower() for c in pattern)


def holds(op, pattern, value, case, path=None):
    """Whether the test holds for a string, None where nothing is promised. path: the name and
       whether it is a directory, if the attribute is a path."""
    low = ignores(pattern, case)
    fold = str.lower if low else str
    if op == "=":
        return fold(value) == fold(pattern)
    if op == ":":
        return fold(pattern) in fold(value)
    if op == "~":
        return re.search(pattern, value, re.I if low else 0) is not None
    if not specified(pattern) or path is None and "/" in pattern or not (pattern + value).isascii():
        return None
    include, anchored, directory, body = described(pattern)
    name, is_dir = path or (value, False)
    m = matches(parts(body), value.lstrip("/") if anchored else name, low) and (is_dir or not directory)
    return m == include


def valid(op, pattern):
    if op == "~":
        try:
            re.compile(pattern)
        except (re.error, RecursionError):
            return False
    return True


KINDS = {"f_str": "str", "n_path": "path", "s_list": "list"}


def run(inp):
    """[attribute, operator, pattern, value, case]; the value is a list of strings for f_list"""
    attr, op, pattern, value, case = inp
    kind = KINDS[attr]
    if not pattern or pattern != pattern.lstrip() or pattern.startswith("{") or op == "=" and \
            pattern.startswith("=") or "\0" in pattern:
        return None
    k, m = outcome(harness.matcher, [f"{attr}{op}{pattern}"], case=case)
    if not valid(op, pattern):
        return f"{pattern!r} is accepted as a regular expression" if k == "return" else None
    if k == "raise":
        return f"{attr}{op}{pattern} is rejected: {m!r}"
    if kind == "list":
        # The elements may be in a list or a set.
        exp = [holds(op, pattern, v, case) for v in value]
        if None in exp:
            return None
        exp, values = any(exp), [value, set(value)]
    elif kind == "path":
        exp = holds(op, pattern, value, case, (value.rsplit("/", 1)[-1], False))
        values = [value]
    else:
        exp, values = holds(op, pattern, value, case), [value]
    if exp is None:
        return None
    for v in values:
        entry = harness.FakeEntry({attr: v}, name=value.rsplit("/", 1)[-1] if kind == "path" else "x",
            type="file")
        k, r = outcome(m.test, entry)
        if k == "raise":
            return f"{attr}{op}{pattern} on {v!r} raised {r!r}"
        if bool(r) != exp:
            return f"{attr}{op}{pattern} on {v!r} is {r} with --case {case}"
    return None


PIECES = ["a", "A", "b", "B", "ab", "aB", "é", "É", "ß", "İ", "i", " ", ".", "x", "1", "_", "/", "\n"]
REGEX = ["\\D", "\\d", "\\W", "\\w", "\\S", "\\s", "[A-Z]", "[a-z]", "[^A]", "[^a-z]", "a", "A", "b", "B", "^", "$",
    ".", "*", "+", "?", "(?i:a)", "(a|B)", "\\B", "\\b", "\\Z", "\\A", "é", "É", "(?P<N>a)", "{2}", "1", "_", "\\.", "[@-_]"]
GLOB = ["a", "A", "b", "B", "*", "?", "[a-c]", "[A-C]", "[!A]", "[!a]", "[A-z]", "[Z-a]", ".", "/", "_", "1", "!", "[_A]", "[@-_]"]
OPS = ["=", ":", "~", "%"]


def flip(rng, s):
    return "".join(c.swapcase() if rng.random() < 0.4 and len(c.swapcase()) == 1 else c for c in s)


def gen(rng):
    op = rng.choice(OPS)
    attr = rng.choice(list(KINDS))
    pattern = "".join(rng.choice(REGEX if op == "~" else GLOB if op == "%" else PIECES)
        for _ in range(rng.choice([1, 1, 2, 3, 4])))

    def value():
        k = rng.randrange(4)
        if k == 0:
            return flip(rng, pattern)
        v = "".join(rng.choice(PIECES) for _ in range(rng.randint(0, 4)))
        return v if k == 1 else v + flip(rng, pattern if op in "=:" else rng.choice("aAbB_1")) if k == 2 else flip(rng, v)
    return [attr, op, pattern, [value() for _ in range(rng.randint(0, 3))] if KINDS[attr] == "list" else value(),
        rng.choice(CASES)]


PAIRS = [("=", "a", "A"), ("=", "A", "a"), ("=", "A", "A"), ("=", "a", "ab"), (":", "a", "bAb"), (":", "B", "abc"),
    (":", "aB", "xab"), (":", "İ", "İ"), ("=", "İ", "İ"), ("~", "\\D", "1"), ("~", "\\D", "a"), ("~", "\\d", "a"),
    ("~", "\\D", "A"), ("~", "[A-Z]", "a"), ("~", "[A-z]", "_"), ("~", "^a$", "A"), ("~", "^a$", "ba"), ("~", "b", "abc"),
    ("~", "B", "abc"), ("~", "\\S", " "), ("~", "\\Bb", "ab"), ("~", "İ", "İ"), ("~", "(", "("), ("~", "(?P<N>a)", "A"),
    ("%", "a*", "AB"), ("%", "A*", "ab"), ("%", "[A-z]", "_"), ("%", "[Z-a]", "_"), ("%", "[A-C]", "b"), ("%", "!a", "A"),
    ("%", "!A", "a"), ("%", "a", "ba"), (":", "b", ""), ("~", "a", "xA"), ("=", "ab", "AB"), ("=", "É", "é"), ("=", "é", "É"),
    (":", "a\nb", "A\nB"), ("=", " ", " "), ("~", "a.b", "A\nB"), (":", ".", "a"), (":", "a.", "ab"), ("~", "^[@-_]$", "a"),
    ("%", "[@-_]", "b"), ("~", "^[^@-_]$", "a"), ("=", "a", "a\n"), ("=", "a", "a "), ("~", "^1$", "1"), ("=", "1", "1")]
DIRECTED = [[a, op, p, [v] if KINDS[a] == "list" else v, c] for op, p, v in PAIRS for a in KINDS for c in CASES] + [
    ["s_list", op, "a", v, c] for op in OPS for v in ([], ["b", "A"], ["a", "b"], ["b", "c"], ["xa", "b"]) for c in CASES] + [
    ["s_list", op, f"b{j}c", ["b", "c"], c] for op in "=:~%" for j in ("\n", " ", ",", "", ", ", "\t") for c in CASES]

STRINGS, NUMBERS = {"=", ":", "~", "%"}, {"+=", "-=", ">=", "<=", "+", "-", "<", ">", "="}
TYPES = {"str": (STRINGS, "a"), "path": (STRINGS, "a"), "list": (STRINGS, "a"), "num": (NUMBERS, "1"), "size": (NUMBERS, "1"),
    "time": (NUMBERS, "2020-01-01"), "dur": (NUMBERS, "1"), "mode": ({"=", ":", "~"}, "644"), "flag": ({"="}, "true"),
    "kind": ({"="}, "f")}


def run_operator(inp):
    attr, op = inp
    ops, value = TYPES[attr]
    tokens = [f"f_{attr}{op}{value}"]
    k, m = outcome(harness.matcher, tokens)
    if op in ops and k == "raise":
        return f"{tokens} is rejected: {m!r}"
    if op not in ops and k == "return":
        return f"{tokens} is accepted"
    return None


def run_ff(inp):
    """The program, on names: [operator, pattern, names, case or None]"""
    op, pattern, names, case = inp
    if not pattern.strip() or pattern != pattern.lstrip() or pattern.startswith("{") or op == "=" and \
            pattern.startswith("=") or not valid(op, pattern):
        return None
    want = [holds(op, pattern, n, case or "smart", (n, False)) for n in names]
    if None in want:
        return None
    root = harness.scratch("c05")
    try:
        harness.tree(root, {n: "" for n in names})
        st, out, err = harness.ff(["--no-cache", "-0"] + (["-c", case] if case else []) + [f"name{op}{pattern}"], root)
        got = sorted(out.split("\0")[:-1])
        want = sorted(n for n, w in zip(names, want) if w)
        if st or err or got != want:
            return f"name{op}{pattern} finds {got} instead of {want} (exit {st}) {err[-300:]}"
        return None
    finally:
        harness.remove(root)


def gen_ff(rng):
    op = rng.choice(OPS)
    pattern = "".join(rng.choice(REGEX if op == "~" else GLOB if op == "%" else PIECES)
        for _ in range(rng.choice([1, 1, 2, 3])))
    names = {flip(rng, "".join(rng.choice(["a", "A", "b", "B", "_", "1", ".x", "é"]) for _ in range(rng.randint(1, 3))))
        for _ in range(12)}
    return [op, pattern, sorted(names), rng.choice(CASES + [None])]


CONCRETE = [Concrete("tests", run, gen, DIRECTED, count=30000),
    Concrete("operators", run_operator, None, [[a, o] for a in TYPES for o in sorted(STRINGS | NUMBERS)], count=1),
    Concrete("ff", run_ff, gen_ff, [["~", "\\D", ["1", "a", "A"], "ignore"], [":", "a", ["A", "b"], None],
        [":", "A", ["A", "a"], None], ["=", "a", ["A", "a"], "sensitive"]], timeout=60)]


# ---------------------------------------------------------------------------------------- contracts
def finds(pattern, nocase, text):
    raise NotImplementedError


def glob(pattern, paths, nocase, path, name, is_dir):
    raise NotImplementedError


def inverted(pattern):
    raise NotImplementedError


def nocase(pattern, case):
    return case == "ignore" or case == "smart" and pattern == pattern.lower()


def expected_equal(r, p, case, v, name, is_dir):
    return bool(r) == (v.lower() == p.lower() if nocase(p, case) else v == p)


def expected_in(r, p, case, v, name, is_dir):
    return bool(r) == (p.lower() in v.lower() if nocase(p, case) else p in v)


def expected_find(r, p, case, v, name, is_dir):
    return bool(r) == finds(p, nocase(p, case), v)


def expected_string(r, p, case, v, name, is_dir):
    return bool(r) == (glob(p, False, nocase(p, case), v, v, False) != inverted(p))


def expected_path(r, p, case, v, name, is_dir):
    return bool(r) == (glob(p, True, nocase(p, case), v, name, is_dir) != inverted(p))


def some_equal(r, p, case, vs, name, is_dir):
    return bool(r) == (any(v.lower() == p.lower() for v in vs) if nocase(p, case) else any(v == p for v in vs))


def some_in(r, p, case, vs, name, is_dir):
    return bool(r) == (any(p.lower() in v.lower() for v in vs) if nocase(p, case) else any(p in v for v in vs))


def some_find(r, p, case, vs, name, is_dir):
    n = nocase(p, case)
    return bool(r) == any(finds(p, n, v) for v in vs)


def some_glob(r, p, case, vs, name, is_dir):
    n, i = nocase(p, case), inverted(p)
    return bool(r) == any(glob(p, False, n, v, v, False) != i for v in vs)


EXPECTED = {("=", 0): expected_equal, (":", 0): expected_in, ("~", 0): expected_find, ("%", 0): expected_string,
    ("=", 1): some_equal, (":", 1): some_in, ("~", 1): some_find, ("%", 1): some_glob, ("=", 2): expected_equal,
    (":", 2): expected_in, ("~", 2): expected_find, ("%", 2): expected_path}


def world(E):
    """Regular expressions and globs with an unknown meaning."""
    import z3
    from pyvc.values import BOOL, STR, Opaque, SBool, SData
    S, B = z3.StringSort(), z3.BoolSort()
    search = z3.Function("search", S, B, S, B)
    globs = z3.Function("glob", S, B, B, S, S, B, B)
    inv = z3.Function("inverted", S, B)
    bad = z3.Function("bad_regex", S, B)
    E.model(finds, lambda E, p, n, t: SBool(search(STR.unwrap(E, p), E.as_bool_term(n), STR.unwrap(E, t))))
    E.model(glob, lambda E, p, paths, n, t, name, d: SBool(globs(STR.unwrap(E, p), E.as_bool_term(paths),
        E.as_bool_term(n), STR.unwrap(E, t), STR.unwrap(E, name), E.as_bool_term(d))))
    E.model(inverted, lambda E, p: SBool(inv(STR.unwrap(E, p))))
    made = {}

    def compile_(E, pattern, flags=0):
        p = STR.unwrap(E, pattern)
        if E.branch(bad(p)):
            E.throw(re.error, "bad")
        n = z3.BoolVal(bool(flags & re.IGNORECASE))
        match = Opaque("Match")
        ty = Opaque(f"Regex{len(made)}", methods={"search": lambda E, o, t: SData(z3.Const("match", match.sort()),
            match) if E.branch(search(p, n, STR.unwrap(E, t))) else None})
        made[len(made)] = ty
        return SData(z3.Const("regex", ty.sort()), ty)

    def glob_(E, pattern, path_pattern=True, ignore_case=False):
        p, paths = STR.unwrap(E, pattern), E.as_bool_term(path_pattern)
        n = z3.BoolVal(False) if ignore_case is None else E.as_bool_term(ignore_case)
        ty = Opaque(f"Glob{len(made)}", attrs={"include": lambda E, o: SBool(z3.Not(inv(p)))}, methods={"match":
            lambda E, o, path, basename, is_dir: SBool(globs(p, paths, n, STR.unwrap(E, path), STR.unwrap(E, basename),
            E.as_bool_term(is_dir)))})
        made[len(made)] = ty
        return SData(z3.Const("glob", ty.sort()), ty)
    E.model(re.compile, compile_)
    E.model(Glob, glob_)
    return bad


def c_test(cls, op, kind):
    """create_test together with the test method of the type."""
    def body(E):
        import z3
        from pyvc.values import BOOL, STR, Opaque, SBool, SData, SObj
        bad = world(E)
        case = CASES[E.choice(3)]
        E.inputs["case"] = case
        p = E.input("pattern", STR)
        v = E.list_input("values", STR) if kind == 1 else E.input("value", STR)
        name, is_dir = E.input("name", STR), E.input("is_dir", BOOL)
        args = Opaque("Args", attrs={"case": lambda E, o: case})
        registry = Opaque("Registry", methods={"get_attribute_type": lambda E, o, a: cls})
        parser = SObj(E, Parser, {"registry": SData(z3.Const("registry", registry.sort()), registry), "args": SData(
            z3.Const("args", args.sort()), args)})
        k, t = E.call_outcome(Parser.create_test, parser, "attribute", op, None, p)
        if k == "raise":
            E.ensure("only malformed regular expressions are rejected", SBool(bad(p.t)) if op == "~" else False)
            return
        if op == "~":
            E.ensure("malformed regular expressions are rejected", SBool(z3.Not(bad(p.t))))
        entry = Opaque("Entry", attrs={"name": lambda E, o: name}, methods={"is_dir": lambda E, o: is_dir})
        entry = SData(z3.Const("entry", entry.sort()), entry)
        k, r = E.call_outcome(E.getattr(E.getattr(t, "type"), "test"), entry, t, v)
        E.ensure("testing never fails", k == "return")
        if k == "return":
            E.ensure("the test holds exactly for the strings it describes", E.call(EXPECTED[op, kind], [r, p, case, v, name,
                is_dir]))
    return body


def c_operators(cls, ops):
    """Operators the type does not support are rejected whatever the value is."""
    def body(E):
        import z3
        from pyvc.values import STR, Opaque, SData, SObj
        world(E)
        others = sorted((STRINGS | NUMBERS) - ops - {">", "<", ">=", "<="})
        op = others[E.choice(len(others))]
        registry = Opaque("Registry", methods={"get_attribute_type": lambda E, o, a: cls})
        parser = SObj(E, Parser, {"registry": SData(z3.Const("registry", registry.sort()), registry)})
        k, r = E.call_outcome(Parser.create_test, parser, "attribute", op, None, E.input("value", STR))
        E.ensure("other operators are rejected", k == "raise" and E.is_exc(r, ExpressionError))
    return body


def from_model(attr, op):
    def f(label, i):
        v = i.get("values") if attr == "s_list" else i.get("value")
        yield [attr, op, i.get("pattern"), v, i.get("case", "smart")]
        yield from (d for d in DIRECTED if d[0] == attr and d[1] == op)
    return f


CONTRACTS = [Contract(f"{cls.__name__}/{op}", c_test(cls, op, kind), "tests", from_model(attr, op)) for cls, kind, attr in
    ((types.String, 0, "f_str"), (types.ListOfStrings, 1, "s_list"), (types.Path, 2, "n_path")) for op in OPS] + [
    Contract(f"operators/{cls.__name__}", c_operators(cls, ops), "operators") for cls, ops in ((types.String, STRINGS), (
        types.Path, STRINGS), (types.ListOfStrings, STRINGS), (types.Number, NUMBERS), (types.Size, NUMBERS), (types.Time,
        NUMBERS), (types.Duration, NUMBERS), (types.Boolean, {"="}), (types.FileType, {"="}), (types.Mode, {"=", ":", "~"}))]
cleanup = harness.cleanup
