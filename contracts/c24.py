"""C24: File references compare with the value of the referenced file."""

import json
import os
import re

from pyvc.spec import in_re
from contracts.common import Contract, Concrete, outcome
from contracts import harness
from contracts.c05 import holds, valid
from libff import type as types
from libff.attribute import Attribute
from libff.entry import Entry, StartDirectory
from libff.exceptions import BaseError, ExpressionError, UsageError
from libff.ignore import Glob
from libff.parser import Parser


# ------------------------------------------------------------------------------------ concrete runs
STRINGS, NUMBERS, MODES, FLAGS, KINDS, LISTS = "string", "number", "mode", "flag", "kind", "list"
ATTRS = {"path": STRINGS, "root": STRINGS, "relpath": STRINGS, "dir": STRINGS, "name": STRINGS, "ext": STRINGS, "pathx":
    STRINGS, "namex": STRINGS, "mode": MODES, "type": KINDS, "device": NUMBERS, "inode": NUMBERS, "samedev": FLAGS, "depth":
    NUMBERS, "exec": FLAGS, "size": NUMBERS, "mtime": NUMBERS, "time": NUMBERS, "perm": MODES, "links": NUMBERS, "uid": NUMBERS,
    "gid": NUMBERS, "user": STRINGS, "hide": FLAGS, "hidden": FLAGS, "empty": FLAGS, "link": STRINGS, "target": STRINGS,
    "broken": FLAGS, "mpath": STRINGS, "refs.r_str": STRINGS, "refs.r_path": STRINGS, "refs.r_num": NUMBERS, "refs.r_size":
    NUMBERS, "refs.r_time": NUMBERS, "refs.r_dur": NUMBERS, "refs.r_mode": MODES, "refs.r_flag": FLAGS, "refs.r_kind": KINDS,
    "refs.r_list": LISTS}
PATHS = {"path", "root", "relpath", "dir", "pathx", "namex", "link", "target", "refs.r_path"}
# Attributes that depend on the start directory, of files that are in none of them.
LOOSE = {"path", "root", "relpath", "dir", "pathx", "namex", "name", "ext", "depth", "samedev", "hide", "hidden"}
OPERATORS = {STRINGS: ["=", ":", "~", "%"], NUMBERS: ["+=", "-=", "+", "-", "=", ">", "<", ">=", "<="], MODES: ["=", ":", "~"],
    FLAGS: ["="], KINDS: ["="], LISTS: ["=", ":", "~", "%"]}


def meaning(attr, op, value, other, case, entry):
    """Whether value OP other holds, None where nothing is promised."""
    kind = ATTRS[attr]
    if kind is STRINGS:
        return holds(op, other, value, case, (entry.name, entry.is_dir()) if attr in PATHS else None)
    if kind is MODES:
        a, b = value & 0o7777, other & 0o7777
        return a == b if op == "=" else a & b == b if op == ":" else a & b != 0
    op = op.replace(">", "+").replace("<", "-")
    return {"=": value == other, "+=": value >= other, "-=": value <= other, "+": value > other, "-": value < other}[op]


def value_of(entry, attr):
    """The value of an attribute or None."""
    if not attr.startswith("refs."):
        try:
            return entry.get_attribute(attr)
        except KeyError:
            return None
    if not entry.is_file() or not entry.name.endswith(".json"):
        return None
    with open(entry.path, encoding="utf-8") as f:
        return json.load(f).get(attr[len("refs.r_"):])


def entries(args, directories):
    for d in directories:
        start = StartDirectory(args, d)
        for top, dirs, files in os.walk(d):
            for n in dirs + files:
                p = os.path.join(top, n)
                try:
                    status = os.stat(p, follow_symlinks=args.follow_symlinks)
                except OSError:
                    continue
                yield Entry(start, os.path.relpath(p, d), status)


def build(root, spec):
    for i, (path, content) in enumerate(spec):
        harness.tree(root, {path: json.dumps(content) if isinstance(content, dict) else content})
    for i, (path, content) in enumerate(spec):
        p = os.path.join(root, path)
        if not os.path.islink(p):
            os.chmod(p, [0o644, 0o755, 0o600, 0o4711][i % 4] if content is not None else 0o755)
            os.utime(p, (1000 + i, 1500000000 + i * 7 % 5))


def run(inp):
    """[start directories, attribute, operator, reference attribute or "", referenced file, case, follow links]; the
       program is started in the directory "w" of the tree, @ stands for the tree"""
    directories, attr, op, ref, path, case, follow = inp
    root = harness.scratch("c24")
    before = os.getcwd()
    at = lambda p: p.replace("@", root)
    path, directories = at(path), [at(d) for d in directories]
    what = f"{attr}{op}{{{ref}}}{path}, start directories {directories}"
    try:
        os.makedirs(os.path.join(root, "w"))
        build(root, TREE)
        os.chdir(os.path.join(root, "w"))
        args = dict(case=case, directories=directories, follow_symlinks=follow)
        ctx = harness.context(**args)
        k, m = outcome(harness.matcher, [f"{attr}{op}{{{ref}}}{path}"], **args)
        if k == "raise" and not isinstance(m, BaseError):
            return f"{what} raised {m!r}"
        refattr = ref or attr
        rejected = ATTRS[attr] is not ATTRS[refattr] or ATTRS[refattr] is LISTS
        try:
            status = os.stat(path, follow_symlinks=follow)
        except OSError:
            rejected = True
        if rejected:
            return None if k == "raise" else f"{what} is accepted"
        # The file as the search finds it.
        real = os.path.abspath(path)
        loose = False
        for d in directories:
            if real.startswith(os.path.join(os.path.abspath(d), "")) and real != os.path.abspath(d):
                entry = Entry(StartDirectory(ctx.args, d), os.path.relpath(real, os.path.abspath(d)), status)
                break
        else:
            loose = True
            up, name = os.path.split(path.rstrip("/"))
            entry = Entry(StartDirectory(ctx.args, up or ("/" if real == "/" else ".")), name, status)
        if loose and refattr in LOOSE and not (refattr in ("name", "ext", "depth") and
                os.path.basename(path.rstrip("/")).strip(".")):
            return f"{what} raised {m!r}" if k == "raise" else None
        want = value_of(entry, refattr)
        if want is None:
            return None if k == "raise" else f"{what} is accepted, but the file has no such value"
        if ATTRS[attr] is STRINGS and op == "~" and not valid(op, want):
            return None if k == "raise" else f"{what} is accepted"
        if k == "raise":
            return f"{what} raised {m!r} instead of comparing with {want!r}"
        for e in entries(ctx.args, directories):
            have = value_of(e, attr)
            exp = False if have is None else meaning(attr, op, have, want, case, e)
            k, r = outcome(m.test, e)
            if exp is not None and (k == "raise" or bool(r) != exp):
                return f"{what} is {r!r} for {e.path} ({have!r}, compared with {want!r})"
        return None
    finally:
        os.chdir(before)
        harness.remove(root)


TREE = [["w/a", "xxx"], ["w/b.c", ""], ["w/sub/c", "x"], ["w/sub/in/D", "xy"], ["other/e", "xxx"], ["w/.h", "1"], ["other/f/g/h",
    ""], ["w/l", ["link", "a"]], ["w/broken", ["link", "nope"]], ["w/sub/ld", ["link", "in"]], ["w/dir", None], ["other2/e", "x"],
    ["w/v.json", dict(str="ab", path="sub/c", num=3, size=2, time=1500000001, dur=2, mode=0o644, flag=True, kind="file",
        list=["ab", "c"])],
    ["other/v2.json", dict(str="A[b", path="", num=1, size=0, time=0, dur=-1, mode=0o100755, flag=False, kind="directory",
        list=[])], ["other/v3.json", {}], ["w/sub/in/v4.json", dict(str="AB", num=0, mode=0)], ["w/g*.x", ""]]
REFS = ["a", "b.c", "sub/c", "sub/in/D", "./a", "../other/e", "@/other/e", "@/w/a", "l", "broken", "sub/ld", "sub/ld/D", "dir",
    "dir/", "sub/in/", ".", "..", "sub", "sub/.", "sub/..", "../w", "nope", "a/", "sub/nope", ".h", "v.json", "../other/v2.json",
    "../other/v3.json", "sub/in/v4.json", "../other/f/g/h", "@/other2/e", "/", "../other", "../other/f//", "sub//c", "g*.x"]
STARTS = [["."], ["sub"], ["../other"], ["sub", "../other"], ["@/w"], ["../other", "."], ["dir", "sub"], ["sub/in",
    "dir"], ["../w/sub"], ["sub/.."]]


def gen(rng):
    attr = rng.choice(list(ATTRS))
    refs = [a for a in ATTRS if ATTRS[a] is ATTRS[attr]]
    return [rng.choice(STARTS), attr, rng.choice(OPERATORS[ATTRS[attr]]), rng.choice(["", rng.choice(refs), rng.choice(refs),
        rng.choice(list(ATTRS))]), rng.choice(REFS), rng.choice(["smart", "ignore", "sensitive"]), rng.random() < 0.25]


def directed():
    for d in STARTS:
        for p in REFS:
            yield [d, "size", "=", "", p, "smart", False]
            yield [d, "depth", "+=", "", p, "smart", False]
    for p in ["a", ".h", "sub/in/D", "../other/e", "l", "v.json"]:
        for a in ATTRS:
            for op in OPERATORS[ATTRS[a]]:
                yield [["."], a, op, "", p, "smart", False]
    for a in ATTRS:
        for b in ATTRS:
            yield [["."], a, "=", b, "v.json", "smart", False]
    for c in ("ignore", "sensitive"):
        for op in "=:~%":
            for p in ["a", "sub/in/D", "b.c", "../other/e", "g*.x"]:
                yield [["."], "name", op, "", p, c, False]
    for p in ["l", "sub/ld", "broken", "sub/ld/D"]:
        for a in ["size", "type", "inode", "path", "link", "mode"]:
            for f in (True, False):
                yield [["."], a, "=", "", p, "smart", f]


def run_root(inp):
    """[attribute, value of the files, value of others, start directory "/" first]: only reads /"""
    root = harness.scratch("c24")
    try:
        harness.tree(root, {"a": "x", "b/c": ""})
        ctx = harness.context(directories=["/"])
        e = Entry.as_reference(ctx.args, os.path.join(root, "b/c"))
        want = os.path.join(root, "b/c").count("/") - 1
        if (e.depth, e.relpath, e.root, e.path) != (want, os.path.join(root, "b/c")[1:], "/", os.path.join(root, "b/c")):
            return f"the reference {root}/b/c with the start directory / has depth {e.depth} and path {e.path}"
        k, m = outcome(harness.matcher, [f"depth={{}}{root}/b/c"], directories=["/"])
        if k == "raise":
            return f"a reference with the start directory / raised {m!r}"
        for p, n in (("a", 1), ("b/c", 0)):
            p = os.path.join(root, p)
            if bool(m.test(Entry(StartDirectory(ctx.args, "/"), p[1:], os.lstat(p)))) != (n == 0):
                return f"the depth of {p} is taken for that of {root}/b/c"
        return None
    finally:
        harness.remove(root)


def run_ff(inp):
    """[arguments of ff, exit status, names found]"""
    argv, status, want = inp
    root = harness.scratch("c24")
    try:
        build(root, TREE)
        st, out, err = harness.ff(["--no-cache", "-0"] + argv, os.path.join(root, "w"))
        got = sorted(out.split("\0")[:-1])
        if status and (st == 0 or "Traceback" in err or not err.startswith("ERROR") or got):
            return f"ff {argv} ends with {st} {err[-300:]!r} and finds {got}"
        if not status and (st or err or got != sorted(want)):
            return f"ff {argv} ends with {st} {err[-300:]!r} and finds {got} instead of {sorted(want)}"
        return None
    finally:
        harness.remove(root)


FFS = [[["size={}a", "type=f", "-D", "../other"], 0, ["../other/e"]], [["size={}a", "type=f"], 0, ["a"]],
    [["mtime>={}nope"], 1, None], [["link={}a"], 1, None], [["link={}l"], 0, ["l"]], [["name={size}a"], 1, None],
    [["-D", "sub", "inode={}sub/c"], 0, ["sub/c"]], [["mtime+={}.", "name=nope"], 0, []], [["inode={}sub/", "-Dsub"], 0, []],
    [["inode={}sub/"], 0, ["sub"]], [["-e", "size={}a", "type=f", "size+=2"], 0, ["sub/in/D", "sub/in/v4.json", "v.json"]], [["depth+={}sub/in/D", "type=f"], 0,
        ["sub/in/D", "sub/in/v4.json"]], [["grep.lines={}a"], 1, None], [["-D", "sub", "-e", "inode={}sub/in", "type=f"], 0,
        ["sub/c"]]]


def run_known(inp):
    """Attributes that depend on more than the file: [attribute, file, names found]"""
    attr, path, want = inp
    root = harness.scratch("c24")
    try:
        harness.tree(root, {".gitignore": "*.log\n", "a.log": "", "b.log": "", "c": ""})
        st, out, err = harness.ff(["--no-cache", "-0", f"{attr}={{}}{path}"], root)
        got = sorted(out.split("\0")[:-1])
        if st or err or got != sorted(want):
            return f"{attr}={{}}{path} finds {got} instead of {sorted(want)}, exit {st}"
        return None
    finally:
        harness.remove(root)


CONCRETE = [Concrete("references", run, gen, lambda: list(directed()), weight=3), Concrete("root", run_root, None, [[]]),
    Concrete("ff", run_ff, None, FFS, timeout=60), Concrete("ignored", run_known, None, [["ignored", "a.log", ["a.log", "b.log"]],
        ["ignored", "c", [".gitignore", "c"]]], timeout=60)]


# ---------------------------------------------------------------------------------------- contracts
def eq(a, b):
    return a == b


def plus(a, b):
    return a + b


def absolute(path):
    """os.path.abspath"""
    return os.path.abspath(path)


def joined(a, b):
    return a + b if a.endswith("/") else a + "/" + b


def contains(directory, path):
    """The file is below the directory; both are absolute."""
    return path.startswith(directory) if directory == "/" else path.startswith(directory + "/")


def none_contains(directories, path):
    return not any(contains(absolute(d), path) for d in directories)


def below(directory, relpath, path):
    """directory / relpath is path"""
    return path == ("/" if directory == "/" else directory + "/") + relpath


def same_file(directory, relpath, path):
    """directory / relpath names the same file as path, which may end with a slash"""
    if directory == "." and (path == relpath or path == relpath + "/"):
        return True
    whole = "/" + relpath if directory == "/" else directory + "/" + relpath
    return directory != "" and (path == whole or path == whole + "/")


def is_absolute(path):
    return in_re(path, "/|(/[^/]+)+")


def c_as_reference(case):
    """The file is attributed to the start directory it is in."""
    def body(E):
        import z3
        from pyvc.values import BOOL, STR, Opaque, SData, SObj, SStr
        S = z3.StringSort()
        known = z3.Function("abspath", S, S)
        exact = []

        def abspath(E, p):
            for q, r in exact:
                if STR.unwrap(E, p).eq(q):
                    return r
            r = SStr(known(STR.unwrap(E, p)))
            E.assume(E.spec(is_absolute, r))
            return r
        E.model(os.path.abspath, abspath)
        E.model(absolute, abspath)
        E.model(os.path.join, lambda E, a, b: E.spec(joined, a, b))
        path = E.input("path", STR)
        E.assume(E.spec(lambda p: p != "" and "//" not in p, path))
        follow = E.input("follow", BOOL)
        Status = Opaque("Status")
        stat_of = z3.Function("stat", S, z3.BoolSort(), Status.sort())

        def stat(E, p, **k):
            f = k.pop("follow_symlinks", True)
            E.ensure("the status is asked for in the usual way", not k)
            E.ensure("no file without a name is looked for", E.spec(lambda p: p != "", p))
            if E.choice(2):
                E.throw(FileNotFoundError, 2, "No such file or directory")
            return SData(stat_of(STR.unwrap(E, p), E.as_bool_term(f)), Status)
        E.model(os.stat, stat)

        def start_directory(E, args, root):
            stat(E, root, follow_symlinks=E.getattr(args, "follow_symlinks"))
            return SObj(E, StartDirectory, {"root": root})
        E.model(StartDirectory, start_directory)
        E.model(Entry, lambda E, start, relpath, status, ignore_paths=None: SObj(E, Entry, {"start_directory": start, "relpath":
            relpath, "status": status}))
        before, after = E.list_input("before", STR), E.list_input("after", STR)
        one = E.input("one", STR)
        if case == "outside":
            real = E.spec(absolute, path)
        else:
            root = bool(E.choice(2))
            top, rest = "/" if root else E.input("top", STR), E.input("rest", STR)
            if not root:
                E.assume(E.spec(is_absolute, top))
                E.assume(E.spec(lambda t: t != "/", top))
            real = E.spec(plus, top if root else E.spec(plus, top, "/"), rest)
            E.fact(known(one.t) == STR.unwrap(E, top))
            E.fact(known(path.t) == STR.unwrap(E, real))
            exact += [(one.t, top), (path.t, real)]
        # Start directories do not contain one another.
        E.assume(E.spec(none_contains, before, real))
        E.assume(E.spec(none_contains, after, real))
        E.assume(E.spec(lambda o: o != "", one))
        pieces = list(before.pieces)
        if case == "inside":
            pieces += [one] + after.pieces
        args = Opaque("Args", attrs={"directories": lambda E, o: E.new_list(pieces, ty=STR), "follow_symlinks": lambda E, o:
            follow})
        args = SData(z3.Const("args", args.sort()), args)
        k, r = E.call_outcome(Entry.as_reference.__func__, Entry, args, path)
        if k == "raise":
            E.ensure("only files that do not exist are reported", E.is_exc(r, OSError))
            return
        start, rel = E.getattr(E.getattr(r, "start_directory"), "root"), E.getattr(r, "relpath")
        if case == "inside":
            E.ensure("the start directory is the one that contains the file", E.spec(eq, start, one))
            E.ensure("the file is found below the start directory", E.spec(lambda d, rel, p: below(absolute(d), rel, p), start,
                rel, real))
        else:
            E.ensure("a file outside of the start directories is found", E.spec(same_file, start, rel, path))
        E.ensure("the status is that of the file", E.mkbool(E.getattr(r, "status").t == stat_of(path.t, E.as_bool_term(follow))))
    return body


TYPES = [types.String, types.Path, types.Number, types.Size, types.Time, types.Duration, types.Mode, types.FileType,
    types.Boolean, types.ListOfStrings]
FAMILIES = [{types.String, types.Path}, {types.Number, types.Size, types.Time, types.Duration}, {types.Mode}, {types.FileType},
    {types.Boolean}]


def c_reference_value(E):
    """The value is that of the attribute of the file."""
    import z3
    from pyvc.values import STR, Opaque, SData, SObj
    a, b = TYPES[E.choice(len(TYPES))], TYPES[E.choice(len(TYPES))]
    named = E.choice(2)
    if not named and a is not b:
        return
    E.inputs["types"] = [a.__name__, b.__name__, named]
    path = E.input("path", STR)
    attribute, other = Attribute("file", "attr"), Attribute("file", "other")
    Value, Ref = Opaque("Value"), Opaque("Entry")
    value = SData(z3.Const("value", Value.sort()), Value)
    entry = SData(z3.Const("entry", Ref.sort()), Ref)
    args = SObj(E, object, {})

    def as_reference(E, cls, given, p):
        E.ensure("the referenced file is looked at", E.spec(eq, p, path))
        E.ensure("the referenced file is looked at", given is args)
        if E.choice(2):
            E.throw(FileNotFoundError, 2, "No such file or directory")
        return entry
    E.model(Entry.as_reference.__func__, as_reference)

    def setup(E, o, name):
        E.ensure("the named attribute is used", named == 1 and name == "other")
        return other

    def get(E, o, e, attr):
        E.ensure("the value of the referenced file is used", E.spec(eq, e, entry))
        E.ensure("the value of the attribute is used", attr is (other if named else attribute))
        if E.choice(2):
            E.throw(KeyError, "attr")
        return value
    Reg = Opaque("Registry", methods={"setup_attribute": setup, "get_attribute": get, "get_attribute_type": lambda E, o, x: b if x
        is other else a})
    parser = SObj(E, Parser, {"registry": SData(z3.Const("registry", Reg.sort()), Reg), "args": args})
    k, r = E.call_outcome(Parser.get_reference_value, parser, a, attribute, "other" if named else "", path)
    if not any(a in f and b in f for f in FAMILIES):
        E.ensure("attributes that cannot be compared are rejected", k == "raise" and E.is_exc(r, ExpressionError))
        return
    if k == "raise":
        E.ensure("only missing files and values are rejected", E.is_exc(r, OSError) or E.is_exc(r, KeyError))
        return
    E.ensure("the value is the one of the file", E.spec(eq, r, value))


def c_create_test(cls):
    """A test with a reference is the test with the value of the file."""
    def body(E):
        import z3
        from pyvc.values import BOOL, INT, STR, Opaque, SBool, SData, SObj
        op = cls.operators[E.choice(len(cls.operators))]
        case = ["smart", "ignore", "sensitive"][E.choice(3)]
        E.inputs.update(op=op, case=case)
        value = E.input("value", STR if issubclass(cls, (types.String, types.FileType)) else BOOL if cls is types.Boolean else INT)
        bad = z3.Function("bad_regex", z3.StringSort(), z3.BoolSort())

        def compile_(E, pattern, flags=0):
            if E.branch(bad(STR.unwrap(E, pattern))):
                E.throw(re.error, "bad")
            return "regex", pattern, int(flags)
        E.model(re.compile, compile_)
        E.model(Glob, lambda E, pattern, path_pattern=True, ignore_case=False: ("glob", pattern, path_pattern, ignore_case))
        attribute = Attribute("file", "attr")
        fails = E.choice(4)

        def reference(E, parser, type_cls, attr, ref, v):
            E.ensure("the value of the reference is looked up", type_cls is cls and attr is attribute and ref == "other" and v ==
                "path")
            if fails:
                E.throw([ExpressionError, OSError, KeyError][fails - 1], "failure")
            return value
        E.model(Parser.get_reference_value, reference)
        E.model(cls.input.__func__, lambda E, c, v: value)
        registry = Opaque("Registry", methods={"get_attribute_type": lambda E, o, a: cls})
        args = Opaque("Args", attrs={"case": lambda E, o: case})
        parser = SObj(E, Parser, {"registry": SData(z3.Const("registry", registry.sort()), registry), "args": SData(
            z3.Const("args", args.sort()), args)})
        k2, t2 = E.call_outcome(Parser.create_test, parser, attribute, op, None, "literal")
        k1, t1 = E.call_outcome(Parser.create_test, parser, attribute, op, "other", "path")
        if fails:
            E.ensure("a missing file or value is reported", k1 == "raise" and E.is_exc(t1, (UsageError, ExpressionError)))
            return
        E.ensure("a reference is accepted if the value is", k1 == k2)
        if k1 == "raise" or k2 == "raise":
            if k1 == "raise":
                E.ensure("errors are reported as such", E.is_exc(t1, (UsageError, ExpressionError)))
            return
        for f in ("attribute", "operator", "type", "value", "ignore_case"):
            x, y = E.getattr(t1, f), E.getattr(t2, f)
            E.ensure("the test is the one with the value of the file", x is y or E.spec(eq, x, y))
    return body


CONTRACTS = [Contract(f"as_reference/{c}", c_as_reference(c), "references") for c in ("inside", "outside")] + [
    Contract("get_reference_value", c_reference_value, "references")] + [
    Contract(f"create_test/{cls.__name__}", c_create_test(cls), "references") for cls in TYPES[:-1]]
cleanup = harness.cleanup
