"""C11: ignore files."""

import os
import random
import re

from contracts.common import Contract, Concrete, outcome
from contracts import harness
from contracts.c12 import described, matches, parts, specified
from pyvc.spec import foldl, in_re
from libff.ignore import GitIgnore, Glob


# ------------------------------------------------------------------------------------ concrete runs
def decide(files, path, is_dir):
    """Whether the last pattern that applies ignores a path: files is a list of (directory, lines)
       from the outermost to the innermost directory, the paths have no slash at the beginning."""
    ignored, by = False, None
    for i, (dirname, lines) in enumerate(files):
        if dirname and not path.startswith(dirname + "/"):
            continue
        rel = path[len(dirname) + 1:] if dirname else path
        for line in lines:
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            include, anchored, directory, body = described(line)
            if directory and not is_dir:
                continue
            if matches(parts(body), rel if anchored else os.path.basename(path)):
                ignored, by = include, i
    return ignored, by


def write(root, files):
    for i, (dirname, lines) in enumerate(files):
        os.makedirs(os.path.join(root, dirname), exist_ok=True)
        with open(os.path.join(root, dirname, ".ignore"), "wb") as f:
            f.write("".join(x + "\n" for x in lines).encode("utf-8", "surrogateescape"))


def run_match(inp):
    """[files, paths]: the ignore files of one directory and of the directories below it, @ is the
       path of that directory"""
    files, paths = inp
    root = harness.scratch("c11")
    files = [[d.replace("@", root), [x.replace("@", root) for x in y]] for d, y in files]
    paths = [[p.replace("@", root), d] for p, d in paths]
    try:
        write(root, files)
        k, ignores = outcome(lambda: [GitIgnore(os.path.join(root, d) if d else root, ".ignore")
            for d, _ in files])
        if k == "raise":
            return f"failed with {ignores!r}"
        for path, is_dir in paths:
            want, by = decide(files, path, is_dir)
            k, r = outcome(GitIgnore.match, ignores, root + "/" + path, os.path.basename(path), is_dir)
            if k == "raise":
                return f"{path!r} failed with {r!r}"
            by = os.path.join(root, files[by][0], ".ignore") if want else None
            if tuple(r) != (want, by):
                return f"{path!r} (directory: {is_dir}) is {r} instead of {(want, by)}"
        return None
    finally:
        harness.remove(root)


WORDS = ["a", "b", "ab", "b.c", "ü", "a b", "#a", "!a", "[a]"]
GLOBS = ["a", "b", "a*", "*.c", "?", "[ab]", "**/a", "a/**", "*", "ab", "*b", "\\#a", "\\!a", "ü", "a b",
    "a/**/b", "/a", "/*", "a/b", "/a/b", "b/*", "*/a", "/b@/a", "b@/*"]


def lines(rng):
    out = []
    for _ in range(rng.randint(0, 6)):
        x = rng.choice(GLOBS) if rng.random() < 0.9 else rng.choice(["", "#", "# a", "#a", "   ", "\t"])
        if x and x[0] != "#" and x.strip():
            x = ("!" if rng.random() < 0.35 and x[0] != "\\" else "") + x + ("/" if rng.random() < 0.2
                and not x.endswith("*") else "") + (" " if rng.random() < 0.1 else "")
            if not specified(x.strip()):
                continue
        out.append(x)
    return out


def gen_match(rng):
    dirs = [""]
    for _ in range(rng.randint(0, 2)):
        dirs.append((dirs[-1] + "/" if dirs[-1] else "") + rng.choice(WORDS[:3]))
    files = [[d, lines(rng)] for d in dirs]
    if len(files) > 1 and rng.random() < 0.2:
        files.pop(0)
    base = files[-1][0]
    paths = []
    for _ in range(6):
        p = "/".join(rng.choice(WORDS) for _ in range(rng.randint(1, 3)))
        if rng.random() < 0.1:
            p = "b@/" + p
        paths.append([(base + "/" if base else "") + p, rng.random() < 0.5])
    return [files, paths]


PATHS = [[p, d] for p in ("a", "b", "ab", "a/b", "b/a", "a/b/a", "b.c", "x/b.c") for d in (False, True)]
MATCH = [[[["", x]], PATHS] for x in (["a", "!a"], ["!a", "a"], ["a", "!a", "a"], ["*", "!a", "b"],
    ["*", "!a/", "!/b"], ["a/", "!a"], ["/a", "b", "!a/b"], ["#a", "b"], ["", "a", "", "!b"], ["a/b",
    "*"], ["*", "!*/"], ["a/**", "!b"], ["**/b", "!/b"], ["a ", " b"], ["*.c", "!/b.c"], ["a", "b", "!b",
    "a/", "/a", "!/a", "!a/"], ["\udcff", "a"], [])] + [[[["", ["a"]], ["a", ["!a", "b"]]], [["a/a",
    False], ["a/b", False], ["a/b/a", True]]], [[["", ["/b@/a"]], ["a", ["/a@/a/b"]]], [["b@/a", False], ["a@/a/b", False],
    ["a/a@/a/b", False], ["a/a/b", False]]]]


def run_ff(inp):
    """The program, [seed, start directory, options]"""
    seed, start, opts = inp
    rng = random.Random(seed)
    root = harness.scratch("c11")
    try:
        spec, files = {}, {}
        for _ in range(rng.randint(5, 20)):
            spec["p/q/" + "/".join(rng.choice(WORDS) for _ in range(rng.randint(0, 3))) + rng.choice([
                "/x.c", "/b", "/ab", "/a"])] = ""
        dirs = {os.path.dirname(x) for x in spec} | {"", "p", "p/q"}
        spec = {"/".join(y for y in x.split("/") if y): "" for x in spec}
        spec = {x: v for x, v in spec.items() if not any(y.startswith(x + "/") for y in spec)}
        spec["p/q/a/a"] = None
        dirs = {d for x in spec for d in [os.path.dirname(x)]}
        dirs |= {"/".join(d.split("/")[:i]) for d in dirs for i in range(len(d.split("/")))}
        spec = {x: v for x, v in spec.items() if x not in dirs}
        harness.tree(root, spec)
        for d in sorted(dirs):
            if rng.random() < (0.9 if not d.startswith("p/q/") else 0.4):
                files[d] = lines(rng)
        write(root, sorted(files.items()))
        dangling = rng.random() < 0.3 and rng.choice(sorted(dirs))
        if dangling:
            # This one cannot be read, the others still count.
            os.symlink("nosuch", os.path.join(root, dangling, ".fdignore"))
        cwd = root + "/p/q"
        if start.startswith("="):
            cwd, start = root + "/p", start[1:]
        start = start.replace("ROOT", root)
        top = os.path.relpath(os.path.normpath(os.path.join(cwd, start)), root)
        if not os.path.isdir(os.path.join(root, top)):
            return None
        other = "--ignore-files" in opts
        want = []

        def walk(d):
            for n in os.listdir(os.path.join(root, d)):
                p = d + "/" + n
                isdir = os.path.isdir(os.path.join(root, p))
                above = sorted((x, y) for x, y in files.items() if (d + "/").startswith(x + "/" if x
                    else "") and ("--no-parent-ignore" not in opts or (x + "/").startswith(top + "/")))
                if not other and decide(above, p, isdir)[0]:
                    continue
                want.append(os.path.relpath(os.path.join(root, p), os.path.join(root, top)))
                if isdir:
                    walk(p)
        walk(top)
        st, out, err = harness.ff(["--no-cache", "-I", "-a", "-0"] + opts + ["-D", start], cwd,
            timeout=60)
        if st != 0 or (err and not dangling):
            return f"exit {st}: {err[-300:]}"
        real = os.path.normpath(os.path.join(cwd, start))
        got = sorted(os.path.relpath(x, real) for x in out.split("\0")[:-1])
        if got != sorted(want):
            return f"found too many: {sorted(set(got) - set(want))}, too few: {sorted(set(want) - set(got))}"
        return None
    finally:
        harness.remove(root)


STARTS = [".", "a", "a/a", "ROOT/p/q", "ROOT/p/q/a", "..", "=q", "=q/a", "./a", "../q", "=."]
OPTS = [[], [], ["--no-parent-ignore"], ["-j", "1"], ["-j", "4"], ["--ignore-files", ".other"]]
CONCRETE = [Concrete("match", run_match, gen_match, MATCH, count=20000),
    Concrete("ff -I", run_ff, lambda rng: [rng.randint(0, 10 ** 6), rng.choice(STARTS), rng.choice(OPTS)],
        [[i, s, []] for i, s in enumerate(STARTS)], timeout=60)]


# ---------------------------------------------------------------------------------------- contracts
def verdict(v, g, rel, name, is_dir):
    """The verdict after a group of patterns."""
    if is_dir or not g[0].directory:
        if g[1].matches(rel if g[0].anchored else name):
            return g[0].include
    return v


def after(v, ignore, path, name, is_dir):
    """The verdict after all the patterns of an ignore file."""
    rel = path[len(ignore.dirname):].lstrip("/")
    return foldl(lambda x, g: verdict(x, g, rel, name, is_dir), v, ignore.groups)


def file_verdict(v, ignore):
    raise NotImplementedError


def is_after(v, ignore, path, name, is_dir):
    return file_verdict(v, ignore) == after(v, ignore, path, name, is_dir)


def decision(ignores):
    """The verdict after all the ignore files: the one of the last pattern that applies."""
    return foldl(file_verdict, False, ignores)


def inv_files(_done, _any, ignores):
    return _any == decision(_done)


def inv_groups(_done, _before, _any, current, the_path, the_name, the_is_dir):
    rel = the_path[len(current.dirname):].lstrip("/")
    return _any == foldl(lambda x, g: verdict(x, g, rel, the_name, the_is_dir), _before, _done)


def is_decision(r, ignores):
    return r[0] == decision(ignores)


def is_abs(path):
    return path[:1] == "/"


def c_match(E):
    """match: any number of ignore files with any number of groups of patterns."""
    import z3
    from pyvc.values import BOOL, STR, Opaque, SBool, SMaybe, TupT
    S, B = z3.StringSort(), z3.BoolSort()
    key = Opaque("Key", attrs={"include": BOOL, "anchored": BOOL, "directory": BOOL})
    regex = Opaque("Regex")
    f = z3.Function("matches", regex.sort(), S, B)
    test = lambda E, o, string: SMaybe(f(o.t, STR.unwrap(E, string)))
    regex.methods.update(match=test, matches=test)
    group = TupT((key, regex))
    E.model(os.path.isabs, lambda E, p: E.spec(is_abs, p))
    path, name, is_dir = E.input("path", STR), E.input("name", STR), E.input("is_dir", BOOL)
    E.assume(E.spec(is_abs, path))
    ignore = Opaque("Ignore", attrs={"dirname": STR, "path": STR})
    h = z3.Function("file_verdict", B, ignore.sort(), B)
    E.model(file_verdict, lambda E, v, i: SBool(h(BOOL.unwrap(E, v), i.t)))
    groups = z3.Function("groups", ignore.sort(), z3.SeqSort(group.sort()))
    from pyvc.values import SeqP
    content = lambda E, o: E.new_list([SeqP(groups(o.t), group)], ty=group)

    def patterns(E, o):
        E.ghosts["current"] = o
        for v in (False, True):
            E.assume(E.spec(is_after, v, o, path, name, is_dir))
        return content(E, o)
    ignore.attrs.update(groups=content, patterns=patterns)
    ignores = E.list_input("ignores", ignore)
    E.ghosts.update(the_path=path, the_name=name, the_is_dir=is_dir, current=None)
    E.invariants = [inv_files, inv_groups]
    k, r = E.call_outcome(GitIgnore.match, ignores, path, name, is_dir)
    E.ensure("matching never fails", k == "return")
    if k == "return":
        E.ensure("the last pattern that applies decides", E.spec(is_decision, r, ignores))


class File:
    """The content of an ignore file."""

    def __init__(self, lines):
        self.lines = lines

    def __enter__(self):
        return self.lines

    def __exit__(self, *exc):
        return None

    def readlines(self):
        return self.lines


def included(s):
    raise NotImplementedError


def is_anchored(s):
    raise NotImplementedError


def for_directories(s):
    raise NotImplementedError


def found(s, text):
    raise NotImplementedError


def last_line(lines, dirname, path, name, is_dir):
    """The last line that applies decides."""
    result = False
    for line in lines:
        s = line.strip()
        if s != "" and s[:1] != "#" and (is_dir or not for_directories(s)):
            if found(s, path[len(dirname):].lstrip("/") if is_anchored(s) else name):
                result = included(s)
    return result


def joined(a, b):
    return a + b


def is_last_line(r, lines, dirname, path, name, is_dir):
    return r[0] == last_line(lines, dirname, path, name, is_dir)


def effective(line):
    return in_re(line, "[!-~]+") and line[:1] != "#"


def plain(line):
    return not is_anchored(line) and not for_directories(line)


def inside(path):
    return in_re(path, "[^/](?:.)*")


def c_lines(n):
    """An ignore file with n lines of any content (n patterns, if there is more than one)."""
    def body(E):
        import z3
        from pyvc.values import BOOL, STR, Opaque, SBool, SMaybe, SObj, SStr
        S, B = z3.StringSort(), z3.BoolSort()
        flags = {}
        for fn in (included, is_anchored, for_directories):
            flags[fn] = z3.Function(fn.__name__, S, B)
            E.model(fn, lambda E, s, f=flags[fn]: SBool(f(STR.unwrap(E, s))))
        source = z3.Function("source", S, S)
        hit = z3.Function("found", S, S, B)
        E.model(found, lambda E, s, t: SBool(hit(source(STR.unwrap(E, s)), STR.unwrap(E, t))))

        def glob(E, pattern, path_pattern=True):
            s = STR.unwrap(E, pattern)
            return SObj(E, Glob, {"pattern": pattern, "regex_pattern": SStr(source(s)), "include":
                SBool(flags[included](s)), "anchored": SBool(flags[is_anchored](s)), "directory":
                SBool(flags[for_directories](s))})
        E.model(Glob, glob)
        regex = Opaque("Compiled")
        compiled = {}

        def pieces(t):
            # the alternatives of a regular expression
            out = []
            for c in t.children() if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [t]:
                if z3.is_string_value(c):
                    assert c.as_string() == "|"
                else:
                    out += pieces(c) if c.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [c]
            return out

        def compile_(E, text, *flags):
            t = STR.unwrap(E, text)
            c = z3.Const(f"compiled{len(compiled)}", regex.sort())
            compiled[c.get_id()] = c, pieces(t)
            return regex.wrap(E, c)
        E.model(re.compile, compile_)

        def match(E, o, string):
            t = STR.unwrap(E, string)
            return SMaybe(z3.Or([hit(p, t) for p in compiled[o.t.get_id()][1]]))
        regex.methods.update(match=match)
        E.model(os.path.isabs, lambda E, p: E.spec(is_abs, p))
        path, name, is_dir = E.input("path", STR), E.input("name", STR), E.input("is_dir", BOOL)
        if n > 1:
            E.assume(E.spec(inside, path))
            path = E.spec(joined, "/d/", path)
        dirname = E.input("dirname", STR) if n < 2 else "/d"
        E.assume(E.spec(is_abs, path))
        E.assume(E.spec(is_abs, dirname))
        lines = [E.input(f"line{i}", STR) for i in range(n)]
        if n > 1:
            for x in lines:
                E.assume(E.spec(effective, x))
        if n > 2:
            for x in lines:
                E.assume(E.spec(plain, x))
        E.model(open, lambda E, *args, **kw: E.call(File, [E.new_list(list(lines))]))
        k, g = E.call_outcome(GitIgnore, dirname, ".ignore")
        E.ensure("an ignore file is read without failures", k == "return")
        if k == "return":
            k, r = E.call_outcome(GitIgnore.match, E.new_list([g]), path, name, is_dir)
            E.ensure("matching never fails", k == "return")
            if k == "return":
                E.ensure("the last line that applies decides", E.spec(is_last_line, r, E.new_list(list(
                    lines)), dirname, path, name, is_dir))
    return body


def exists(path):
    raise NotImplementedError


def files_above(parts, names):
    """The ignore files in the directories above a path."""
    out, d = [], ""
    for i in range(len(parts)):
        for name in names:
            p = d + "/" + name
            if exists(p):
                out.append(p)
        d = d + "/" + parts[i]
    return out


def without_slash(s):
    return in_re(s, "[^/]+")


def slashed(parts):
    return "/" + "/".join(parts)


def same(a, b):
    return a == b


def c_parents(n):
    """The ignore files above a path of n components."""
    def body(E):
        import z3
        from pyvc.values import STR, SBool
        S = z3.StringSort()
        f = z3.Function("exists", S, z3.BoolSort())
        E.model(exists, lambda E, p: SBool(f(STR.unwrap(E, p))))
        for fn in (os.path.exists, os.path.isfile, os.path.lexists):
            E.model(fn, lambda E, p: SBool(f(STR.unwrap(E, p))))
        parts = [E.input(f"part{i}", STR) for i in range(n)]
        for p in parts:
            E.assume(E.spec(without_slash, p))
        path = E.input("path", STR)
        E.model(os.path.abspath, lambda E, p: E.spec(slashed, E.new_list(list(parts))))
        E.model(os.path.dirname, lambda E, p: E.spec(slashed, E.new_list(list(parts[:-1]))))
        names = E.new_list([".gitignore", ".ignore"])
        k, r = E.call_outcome(GitIgnore.from_parent_directories, names, path)
        E.ensure("looking for ignore files never fails", k == "return")
        if k == "return":
            E.ensure("exactly the ignore files of all directories above the path count, from the "
                "outermost to the innermost", E.spec(same, r, E.call(files_above, [E.new_list(list(
                parts)), names])))
    return body


CONTRACTS = [Contract("match", c_match, "match")] + [Contract(f"lines/{n}", c_lines(n), "match", bounded=
    "ignore files of " + ("no line", "one line of any content", "two patterns without white space",
    "three patterns that apply to all names, without white space")[n]) for n in (0, 1, 2, 3)] + [Contract(f"parents/{n}",
    c_parents(n), "ff -I", bounded=f"paths of {n} components") for n in (2, 3)]
cleanup = harness.cleanup
