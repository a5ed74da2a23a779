"""C10: search options."""

import argparse
import itertools
import os

from contracts.common import Contract, Concrete, outcome
from contracts import harness
from pyvc.spec import in_re
from libff import arguments
from libff.argparse import type_ranges
from libff.arguments import ArgumentsPostProcessor
from libff.exceptions import UsageError


# ------------------------------------------------------------------------------------ concrete runs
def digits(s):
    return s != "" and all(c in "0123456789" for c in s)


def reference_ranges(text):
    """The ranges denoted by a text, or None if it is malformed."""
    result = []
    for part in text.split(","):
        part = part.strip()
        if digits(part):
            result.append((int(part), int(part)))
        elif part.count("-") == 1:
            a, b = part.split("-")
            if (a and not digits(a)) or (b and not digits(b)):
                return None
            a, b = int(a) if a else 0, int(b) if b else None
            result.append((min(a, b), max(a, b)) if b is not None else (a, b))
        else:
            return None
    return result


def inside(depth, ranges):
    return any(a <= depth and (b is None or depth <= b) for a, b in ranges)


def run_ranges(text):
    exp = reference_ranges(text)
    k, v = outcome(type_ranges, text)
    if exp is None:
        if k == "return" and not any(c.isdigit() and not digits(c) for c in text):
            return f"{text!r} is accepted as {v}"
        return None
    if k == "raise":
        return f"{text!r} is rejected: {v!r}"
    for d in {0, 1} | {x + y for r in exp for x in r if x is not None for y in (-1, 0, 1)}:
        if d >= 0 and inside(d, v) != inside(d, exp):
            return f"{text!r} is parsed as {v}, denotes {exp}"
    return None


def gen_ranges(rng):
    n = lambda: rng.choice(["", str(rng.randrange(4)), str(rng.randrange(30))])
    s = ",".join(rng.choice([n, lambda: n() + "-" + n()])() for _ in range(rng.choice([1, 1, 2,
        3])))
    if rng.random() < .1:
        i = rng.randrange(len(s) + 1)
        s = s[:i] + rng.choice([" ", "x", "-", ",", ".", "\n"]) + s[i:]
    return s


def processed(tests=(), directories=(), **flags):
    """Arguments after post-processing with the real code."""
    args = argparse.Namespace(**{**harness.DEFAULTS, "exclude": [], **flags})
    args.tests, args.directories = list(tests), list(directories)
    args.output, args.newline = ["path"], "\n"
    ArgumentsPostProcessor(args).process()
    return args


USER = {"": [], "a": ["f_num=1"], "or": ["f_num=1", "OR", "s_num=1"],
    "not": ["not", "{{", "f_num=1", "or", "s_num=1", "}}"]}


def user_holds(which, f, s):
    return {"": True, "a": f, "or": f or s, "not": not (f or s)}[which]


def run_depth(inp):
    """The tests made from --depth, applied to entries."""
    text, which, depths = inp
    ranges = reference_ranges(text)
    if ranges is None:
        return None
    k, args = outcome(processed, USER[which], ["."], depth=type_ranges(text))
    if k == "raise":
        return f"-d {text} raised {args!r}"
    m, x = harness.matcher(args.tests), harness.excluder(args.exclude)
    for d in depths:
        for f, s in itertools.product((False, True), repeat=2):
            entry = harness.FakeEntry({"f_num": int(f), "s_num": int(s)}, depth=d, type="file")
            want = inside(d, ranges) and user_holds(which, f, s)
            if bool(m.test(entry)) != want:
                return f"-d {text} {USER[which]}: depth {d}, tests {f}, {s}: is {not want}"
            if want and x.test(entry):
                return f"-d {text}: an entry in depth {d} is excluded"
            deeper = [b for _, b in ranges]
            if x.test(entry) and (None in deeper or d <= max(deeper)):
                return f"-d {text}: a directory in depth {d} is pruned"
    return None


def gen_depth(rng):
    return [gen_ranges(rng), rng.choice(list(USER)), sorted({rng.randrange(6), rng.randrange(35),
        0})]


def flag_entries():
    """Entries with every combination of hidden, ignored, on another device and an attribute."""
    root = harness.scratch("c10f")
    with open(os.path.join(root, ".gitignore"), "w", encoding="utf-8") as f:
        f.write("ign\n")
    paths = [os.path.join(root, ".gitignore")]
    for h, i, same, num in itertools.product((False, True), repeat=4):
        name = "ign" if i else "other"
        yield (h, i, same, num), harness.FakeEntry({"n_num": int(num)}, hide=h, hidden=h,
            samedev=same, depth=3, type="file", ignore_paths=paths, name=name, path=name,
            abspath=os.path.join(root, name))
    harness.remove(root)


def run_flags(inp):
    """--hide, --ignore and --one-file-system, on entries with all combinations."""
    hide, ignore, one, given = inp
    k, args = outcome(processed, [], ["."], hide=hide, ignore=ignore, one_file_system=one,
        exclude=["n_num=1"] if given else [])
    if k == "raise":
        return f"raised {args!r}"
    x = harness.excluder(args.exclude)
    for (h, i, same, num), entry in flag_entries():
        want = (hide and h) or (ignore and i) or (one and not same) or (given and num)
        if bool(x.test(entry)) != bool(want):
            return f"options {inp}: entry hidden={h} ignored={i} samedev={same}: " \
                f"excluded {not want}"
    return None


def run_directories(inp):
    """Which arguments become start directories."""
    argv, dirs = inp
    saved = os.path.isdir
    arguments.os.path.isdir = lambda p: p in dirs
    try:
        k, args = outcome(processed, argv)
    finally:
        arguments.os.path.isdir = saved
    is_dir = [x in dirs and "/" in x for x in argv]
    a = 0
    while a < len(argv) and is_dir[a]:
        a += 1
    b = len(argv)
    while b > a and is_dir[b - 1]:
        b -= 1
    found = [os.path.normpath(x) for x in argv[:a] + argv[b:]] or ["."]
    full = sorted({os.path.abspath(x) for x in found})
    nested = any(x != y and (y + "/").startswith(x.rstrip("/") + "/") for x in full for y in full)
    if k == "raise":
        if isinstance(args, UsageError) and (nested or len(set(found)) != len(full)):
            return None
        return f"{argv} with directories {dirs}: {args!r}"
    if nested:
        return f"{argv}: nested start directories {found} are accepted"
    if args.tests != argv[a:b]:
        return f"{argv} with directories {dirs}: tests {args.tests}, should be {argv[a:b]}"
    if sorted(set(args.directories)) != sorted(set(found)):
        return f"{argv} with directories {dirs}: start directories {args.directories}"
    return None


def gen_directories(rng):
    p = lambda: rng.choice(["./", "/", "a/", "a/b", "./a", "a", "b", "../x", "/u/v", "/u", "a//b/",
        "x=1", "y=1", "or", "path=./a", "/u/vw", "x/..", "a-b/c", "/u/"])
    argv = [p() for _ in range(rng.randrange(6))]
    return [argv, sorted({x for x in argv if rng.random() < .6})]


def run_nested(argv):
    """Start directories given with -D."""
    k, args = outcome(processed, [], argv)
    full = sorted({os.path.abspath(x) for x in argv})
    nested = any(x != y and (y + "/").startswith(x.rstrip("/") + "/") for x in full for y in full)
    if k == "raise" and isinstance(args, UsageError):
        return None if nested or len(full) != len(set(argv)) else f"{argv} is rejected: {args}"
    if k == "raise":
        return f"{argv} raised {args!r}"
    if nested:
        return f"nested start directories {argv} are accepted"
    return None if sorted(args.directories) == sorted(argv) else f"{argv} became {args.directories}"


TREE = {"a/b/c/d": "", "a/b/e": "", "f": "", "g/.h/i": "", "g/j": "", ".k": "", "g/.gitignore":
    "j\n", "l/m/n/o/p": ""}


def run_ff(inp):
    """The real program: -d, -H, -I and directory arguments on a small tree."""
    argv, kind, arg = inp
    root = harness.scratch("c10")
    try:
        harness.tree(root, TREE)
        entries = {}
        for base, dirs, files in os.walk(root):
            for n in dirs + files:
                rel = os.path.relpath(os.path.join(base, n), root)
                entries[rel] = rel.count("/")
        st, out, err = harness.ff(["--no-cache", "-j", "2", "--color", "never"] + argv, root)
        got = sorted(out.split("\n")[:-1])
        hidden = lambda p: any(c.startswith(".") for c in p.split("/"))
        if kind == "depth":
            want = [p for p, d in entries.items() if inside(d, reference_ranges(arg))]
        elif kind == "hide":
            want = [p for p in entries if not hidden(p)]
        elif kind == "ignore":
            want = [p for p in entries if p != "g/j"]
        elif kind == "below":
            want = [p for p in entries if any(p.startswith(x + "/") for x in arg)]
        elif kind == "error":
            return None if st not in (0, 1, 3) and out == "" and err else f"ff {argv}: exit status {st}, {got}"
        else:
            want = list(entries)
        if st != 0 or got != sorted(want):
            return f"ff {argv}: exit status {st}, {got}, expected {sorted(want)} {err[-300:]}"
        return None
    finally:
        harness.remove(root)


FLAGS = [list(x) for x in itertools.product((False, True), repeat=4)]
FF = [[["-d" + r], "depth", r] for r in ("0", "1-2", "2-", "-1", "3-1", "0,2", "4,0-1", "9")] + [
    [["-H"], "hide", None], [["-I"], "ignore", None], [[], "all", None],
    [["--one-file-system"], "all", None], [["./a", "./l"], "below", ["a", "l"]],
    [["./a", "path~("], "error", None], [["./g", "depth>=0"], "below", ["g"]],
    [["depth>=0", "./g"], "below", ["g"]], [["./a", "a/b"], "error", None],
    [["-d1", "depth=1", "}}", "or", "{{", "depth=0"], "error", None]]
CONCRETE = [
    Concrete("ranges", run_ranges, gen_ranges, ["1", "1-2", "2-1", "-", "1-", "-1", "", ",", "1,2",
        "1, 2-", "1-2-3", "a", "-1-", "1,", "3-0,7", "1 - 2", "1\n", "0-0"], count=20000),
    Concrete("depth", run_depth, gen_depth, [[t, w, list(range(8))] for w in USER for t in ("1",
        "1-2", "2-", "-1", "3-1", "0,2", "4,0-1", "1,3-", "2,5,7", "0")], count=3000),
    Concrete("flags", run_flags, None, FLAGS),
    Concrete("directories", run_directories, gen_directories, [
        [["a/", "x=1", "./b"], ["a/", "./b"]], [["a/", "x=1", "./b", "x=2"], ["a/", "./b"]],
        [["a/", "b/", "x=1"], ["a/", "b/"]], [["x=1", "a/", "x=2", "a/"], ["a/"]],
        [["a", "x=1"], ["a"]], [["a/", "a/b"], ["a/", "a/b"]], [["/u", "/u/v"], ["/u", "/u/v"]],
        [["/u/v", "/u/vw"], ["/u/v", "/u/vw"]]], count=5000),
    Concrete("nested", run_nested, lambda rng: [rng.choice(["a", "a/b", "a-b", "a/b/c", "/", "/x",
        "/x/y", "/x-y", ".", "..", "b", "./a"]) for _ in range(rng.randrange(1, 4))],
        [["a", "a/b"], ["a", "ab"], ["a/b", "a"], ["/", "/x"], [".", "a"], ["a", "./a/b"]],
        count=5000),
    Concrete("ff", run_ff, None, FF, timeout=60),
]


# ---------------------------------------------------------------------------------------- contracts
NUM = "[0-9]+"


class Args:
    """The namespace of arguments in the contracts."""



def c_ranges_form(E):
    """One range: accepted exactly if it is N, N-, -N, N-M or -."""
    from pyvc.values import STR
    E.regex_ascii = True
    text = E.input("text", STR)
    E.assume(E.spec(lambda t: in_re(t, "[!-+\\x2d-~]*"), text))
    k, v = E.call_outcome(type_ranges, text)
    ok = E.spec(in_re, text, "[0-9]+|[0-9]*-[0-9]*")
    E.ensure("exactly the texts of the form N or START-STOP are accepted", ok if k == "return" else
        E.spec(lambda x: not x, ok))


def c_ranges(kind):
    def body(E):
        from pyvc.values import STR, INT
        E.regex_ascii = True
        a = b = ""
        if kind != "-b" and kind != "-":
            a = E.input("a", STR)
            E.assume(E.spec(in_re, a, NUM))
        if kind in ("a-b", "-b"):
            b = E.input("b", STR)
            E.assume(E.spec(in_re, b, NUM))
            # what the solver does not see by itself: a string of digits is no negative number
            E.assume(E.spec(lambda b: int(b) >= 0, b))
        text = a if kind == "a" else E.spec(lambda a, b: a + "-" + b, a, b)
        k, v = E.call_outcome(type_ranges, text)
        E.ensure("a range is accepted", k == "return")
        if k != "return":
            return
        d = E.input("d", INT)
        E.assume(E.spec(lambda d: d >= 0, d))
        E.ensure("there is one range", len(v.pieces) == 1)
        lo, hi = v.pieces[0]
        got = E.spec(lambda d, lo: d >= lo, d, lo) if hi is None else E.spec(
            lambda d, lo, hi: lo <= d and d <= hi, d, lo, hi)
        want = E.spec({"a": exact, "a-b": between, "a-": at_least, "-b": at_most, "-": any_depth}[
            kind], d, a, b)
        E.ensure("the range contains exactly the depths it denotes",
            E.spec(lambda g, w: g == w, got, want))
    return body


def exact(d, a, b):
    return d == int(a)


def between(d, a, b):
    x, y = int(a), int(b)
    return (x <= d and d <= y) or (y <= d and d <= x)


def at_least(d, a, b):
    return d >= int(a)


def at_most(d, a, b):
    return d <= int(b)


def any_depth(d, a, b):
    return True


# The tokens made by the code are interpreted as the documentation says (C01 and C04 are about the
# code that does it): a depth test compares, tests side by side must all hold, OR separates
# alternatives, brackets group.
OPS = {"=": lambda d, n: d == n, "+=": lambda d, n: d >= n, ">=": lambda d, n: d >= n,
    "-=": lambda d, n: d <= n, "<=": lambda d, n: d <= n, "+": lambda d, n: d > n,
    ">": lambda d, n: d > n, "-": lambda d, n: d < n, "<": lambda d, n: d < n}


class Malformed(Exception):
    pass


class Text:
    def __init__(self, t):
        self.t = t


def atom(token, d, user):
    """The meaning of one test token."""
    import z3
    if isinstance(token, str):
        if token in user:
            return user[token]
        raise Malformed(token)
    t = z3.simplify(token.t)
    if t.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(t.arg(0), atom(Text(t.arg(1)), d, user), atom(Text(t.arg(2)), d, user))
    parts = list(t.children()) if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [t]
    flat = []
    for p in parts:
        if p.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            flat += p.children()
        else:
            flat.append(p)
    if len(flat) >= 2 and all(z3.is_string_value(p) for p in flat[:-1]):
        head = "".join(p.as_string() for p in flat[:-1])
        num = flat[-1]
        if head.startswith("file."):
            head = head[5:]
        if head.endswith("-") and num.decl().name() == "str.from_int" and \
                head[5:-1] in OPS and head.startswith("depth"):
            # a negative number is not a number of directories
            return d == -1
        if head.startswith("depth") and head[5:] in OPS:
            if num.decl().name() == "str.from_int":
                return OPS[head[5:]](d, num.arg(0))
    raise Malformed(str(t))


def formula(tokens, d, user):
    """The meaning of a list of tokens as a formula (reference parser)."""
    import z3
    toks = list(tokens)

    def group():
        alts, conj, some = [], [], False
        while toks:
            t = toks[0]
            up = t.upper() if isinstance(t, str) else None
            if up in (")", "}}"):
                break
            toks.pop(0)
            if up in ("(", "{{"):
                conj.append(group())
                if not toks:
                    raise Malformed("unclosed")
                toks.pop(0)
            elif up == "AND":
                continue
            elif up == "OR":
                alts.append(conj)
                conj = []
            elif up == "NOT":
                if toks and toks[0] in ("(", "{{"):
                    toks.pop(0)
                    conj.append(z3.Not(group()))
                    toks.pop(0)
                else:
                    conj.append(z3.Not(atom(toks.pop(0), d, user)))
            else:
                conj.append(atom(t, d, user))
        alts.append(conj)
        if len(alts) > 1 and not all(alts):
            raise Malformed("empty")
        return z3.Or(*[z3.And(*c) for c in alts])
    f = group()
    if toks:
        raise Malformed("superfluous")
    return f


TEMPLATES = [[], ["A"], ["A", "OR", "B"], ["A", "B"], ["not", "(", "A", "or", "B", ")"],
    ["A", "}}", "or", "{{", "B"], ["A", ")", "or", "(", "B"]]


def c_depth(n, template):
    def body(E):
        from pyvc.values import SBool, SObj, INT, BOOL
        import z3
        ranges, spec = [], []
        d = E.input("d", INT)
        E.assume(E.spec(lambda d: d >= 0, d))
        for i in range(n):
            a = E.input(f"a{i}", INT)
            E.assume(E.spec(lambda a: a >= 0, a))
            kind = E.choice(3)
            if kind == 0:
                ranges.append((a, None))
                spec.append(d.t >= a.t)
            elif kind == 1:
                ranges.append((a, a))
                spec.append(d.t == a.t)
            else:
                b = E.input(f"b{i}", INT)
                E.assume(E.spec(lambda a, b: a <= b, a, b))
                ranges.append((a, b))
                spec.append(z3.And(d.t >= a.t, d.t <= b.t))
        A, B = E.input("A", BOOL), E.input("B", BOOL)
        user = {"A": A.t, "B": B.t}
        args = SObj(E, Args, {"depth": E.new_list(ranges), "exclude": E.new_list([]),
            "tests": E.new_list(list(template))})
        p = SObj(E, ArgumentsPostProcessor, {"args": args})
        k, v = E.call_outcome(ArgumentsPostProcessor.process_depth_argument, p)
        try:
            want_user = formula(template, d.t, user)
        except Malformed:
            want_user = None
        if k == "raise":
            E.ensure("only malformed tests are rejected", want_user is None and E.is_exc(v,
                UsageError))
            return
        tokens = tokens_of(E, E.getattr(args, "tests"))
        try:
            got = formula(tokens, d.t, user)
        except Malformed as e:
            E.ensure(f"the tests are well-formed if those given are ({e})", want_user is None)
            return
        if want_user is None:
            E.ensure("malformed tests stay malformed", False)
            return
        inside = z3.Or(*spec)
        E.ensure("an entry matches exactly if it is in a range and matches the given tests",
            SBool(got == z3.And(inside, want_user)))
        bounded = [r for r in ranges if r[1] is not None]
        for tok in tokens_of(E, E.getattr(args, "exclude")):
            out = atom(tok, d.t, {})
            may = z3.BoolVal(len(bounded) < n)
            for r in bounded:
                may = z3.Or(may, d.t <= r[1].t)
            E.ensure("no directory above the end of a range is pruned",
                SBool(z3.Implies(out, z3.Not(may))))
    return body


def tokens_of(E, lst):
    from pyvc.values import SStr, Unsupported
    out = []
    for p in lst.pieces:
        if not isinstance(p, (str, SStr)):
            raise Unsupported("tokens of unknown number")
        out.append(p)
    return out


def c_flags(E):
    """process_arguments: what is excluded with every combination of the options."""
    from pyvc.values import SObj, BOOL
    flags = {f: bool(E.choice(2)) for f in ("hide", "ignore", "one_file_system")}
    given = ["n_num=1"] if E.choice(2) else []
    rest = {"json": None, "depth": None, "count": None, "color": "auto", "absolute_path": False}
    args = SObj(E, Args, {**rest, **flags, "exclude": E.new_list(list(given)),
        "tests": E.new_list(["n_num=2"])})
    p = SObj(E, ArgumentsPostProcessor, {"args": args})
    k, v = E.call_outcome(ArgumentsPostProcessor.process_arguments, p)
    E.ensure("processing the options never fails", k == "return")
    if k != "return":
        return
    E.ensure("the tests stay as they are",
        tokens_of(E, E.getattr(args, "tests")) == ["n_num=2"])
    tokens = [str(t) for t in tokens_of(E, E.getattr(args, "exclude"))]
    ok = True
    x = harness.excluder(tokens)
    for (h, i, same, num), entry in flag_entries():
        want = (flags["hide"] and h) or (flags["ignore"] and i) or (
            flags["one_file_system"] and not same) or (bool(given) and num)
        ok = ok and bool(x.test(entry)) == bool(want)
    E.ensure("exactly the entries the options speak of are excluded", ok)


def c_directories(n):
    """process_directories: n arguments, each a directory or not."""
    def body(E):
        from pyvc.values import SObj, STR, SStr, SBool
        import z3
        isdir_f = z3.Function("isdir", z3.StringSort(), z3.BoolSort())
        norm_f = z3.Function("normpath", z3.StringSort(), z3.StringSort())
        E.model(os.path.isdir, lambda E, p: E.mkbool(isdir_f(STR.unwrap(E, p))))
        E.model(os.path.normpath, lambda E, p: SStr(norm_f(STR.unwrap(E, p))))
        no_nesting(E)
        tests = [E.input(f"argument{i}", STR) for i in range(n)]
        is_dir = [z3.And(isdir_f(t.t), z3.Contains(t.t, z3.StringVal("/"))) for t in tests]
        args = SObj(E, Args, {"directories": E.new_list([], ty=STR), "tests": E.new_list(list(
            tests), ty=STR), "one_file_system": False})
        p = SObj(E, ArgumentsPostProcessor, {"args": args})
        k, v = E.call_outcome(ArgumentsPostProcessor.process_directories, p)
        E.ensure("finding the directories never fails", k == "return")
        if k != "return":
            return
        # which arguments are directories at an end
        picked = [E.truth(SBool(z3.Or(z3.And(*is_dir[:i + 1]), z3.And(*is_dir[i:]))))
            for i in range(n)]
        mid = [t for t, q in zip(tests, picked) if not q]
        got = E.getattr(args, "tests").pieces
        E.ensure("the other arguments stay tests", len(got) == len(mid))
        if len(got) == len(mid):
            E.ensure("the tests stay in their order", SBool(z3.And(*[STR.unwrap(E, a) == b.t
                for a, b in zip(got, mid)])))
        want = [norm_f(t.t) for t, q in zip(tests, picked) if q] or [z3.StringVal(".")]
        dirs = [STR.unwrap(E, x) for x in E.getattr(args, "directories").pieces]
        E.ensure("every directory at an end is searched", SBool(z3.And(*[z3.Or(*[w == x for x in
            dirs]) for w in want])))
        E.ensure("nothing else is searched", SBool(z3.And(*[z3.Or(*[w == x for w in want]) for x
            in dirs])))
    return body


def no_nesting(E):
    """Nested directories are the subject of another contract."""
    E.model(os.path.commonpath, lambda E, paths: "//never")
    E.model(os.path.abspath, lambda E, p: "/x")


def c_nested(n):
    def body(E):
        from pyvc.values import SObj, STR, SStr, SBool
        import z3
        abs_f = z3.Function("abspath", z3.StringSort(), z3.StringSort())
        slash = z3.StringVal("/")

        def within(a, s):
            return z3.Or(a == s, z3.PrefixOf(z3.If(s == slash, s, z3.Concat(s, slash)), a))

        def absolute(E, p):
            t = abs_f(STR.unwrap(E, p))
            E.fact(z3.Or(t == slash, z3.And(z3.PrefixOf(slash, t),
                z3.Not(z3.SuffixOf(slash, t)))))
            return SStr(t)

        def commonpath(E, paths):
            a, b = [STR.unwrap(E, x) for x in paths.pieces]
            c = E.fresh_const("common", z3.StringSort())
            E.fact((c == a) == within(b, a))
            E.fact((c == b) == within(a, b))
            return SStr(c)
        E.model(os.path.abspath, absolute)
        E.model(os.path.commonpath, commonpath)
        dirs = [E.input(f"directory{i}", STR) for i in range(n)]
        args = SObj(E, Args, {"directories": E.new_list(list(dirs), ty=STR), "tests":
            E.new_list([], ty=STR), "one_file_system": False})
        p = SObj(E, ArgumentsPostProcessor, {"args": args})
        k, v = E.call_outcome(ArgumentsPostProcessor.process_directories, p)
        nested = z3.Or(*[z3.And(x.t != y.t, within(abs_f(x.t), abs_f(y.t))) for x in dirs for y in
            dirs if x is not y])
        if k == "return":
            E.ensure("nested start directories are rejected", SBool(z3.Not(nested)))
            got = [STR.unwrap(E, x) for x in E.getattr(args, "directories").pieces]
            E.ensure("the start directories stay as they are", SBool(z3.And(
                *[z3.Or(*[x == d.t for x in got]) for d in dirs],
                *[z3.Or(*[x == d.t for d in dirs]) for x in got])))
        else:
            E.ensure("nested start directories are a usage error", E.is_exc(v, UsageError))
            E.ensure("only nested start directories are rejected", SBool(nested))
    return body


def model_text(label, i):
    if "text" in i:
        yield i["text"]
    elif "d" in i:
        a, b = i.get("a"), i.get("b")
        yield "-".join([x for x in (a, b) if x is not None])
        yield f"{a or ''}-{b or ''}"


def model_depth(label, i):
    parts = []
    for n in range(3):
        if f"a{n}" in i:
            a, b = i[f"a{n}"], i.get(f"b{n}")
            parts.append([f"{a}-", f"{a}"] if b is None else [f"{a}-{b}"])
    for combo in itertools.product(*parts):
        for which in USER:
            yield [",".join(combo), which, [i["d"]]]


CONTRACTS = [Contract("type_ranges/form", c_ranges_form, "ranges", model_text)] + [
    Contract(f"type_ranges/{k}", c_ranges(k), "ranges", model_text) for k in ("a", "a-b", "a-",
        "-b", "-")] + [
    Contract(f"process_depth_argument/{n}/{' '.join(t) or 'no tests'}", c_depth(n, t), "depth",
        model_depth, bounded=f"{n} ranges, tests of the form {' '.join(t) or '(none)'}")
        for n in (1, 2) for t in TEMPLATES] + [
    Contract("process_depth_argument/3/A OR B", c_depth(3, TEMPLATES[2]), "depth", model_depth,
        bounded="3 ranges, tests of the form A OR B"),
    Contract("process_arguments", c_flags, "flags", lambda label, i: FLAGS)] + [
    Contract(f"process_directories/{n}", c_directories(n), bounded=f"{n} arguments")
        for n in (1, 2, 3, 4)] + [
    Contract(f"process_directories/nested/{n}", c_nested(n), "nested", lambda label, i: [[v for x, v
        in sorted(i.items()) if x.startswith("directory")]], bounded=f"{n} directories")
        for n in (1, 2, 3)]
ASSUMPTIONS = ["digits are ASCII (\\d)", "whether an argument is an existing directory does not "
    "change during the processing of the arguments", "depth tests, AND, OR and brackets in the "
    "produced tests mean what C01 and C04 say"]
cleanup = harness.cleanup
