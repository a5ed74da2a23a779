"""C12: glob patterns."""

import inspect
import itertools
import os
import re

from contracts.common import Contract, Concrete, outcome
from contracts import harness
from pyvc.spec import in_re
from libff.ignore import Glob
from libff.type import String, Path
from libff.parser import Test


# ---------------------------------------------------------------------------------------- reference
def parts(body):
    """The pattern as a list of (kind, text)."""
    i, out = 0, []
    while i < len(body):
        for w in ("/**/", "**/", "/**", "*", "?"):
            if body.startswith(w, i):
                out.append((w, w))
                i += len(w)
                break
        else:
            end = body.find("]", i + 2 + (body.startswith("[!", i) and body[i + 2:i + 3] != "]"))
            if body[i] == "[" and end > 0:
                out.append(("[]", body[i + 1:end]))
                i = end + 1
            else:
                out.append(("c", body[i]))
                i += 1
    return out


def listed(chars):
    """(negated, set of the (low, high) ranges listed)"""
    neg = chars.startswith("!") and len(chars) > 1
    chars = chars[neg:]
    ranges, i = [], 0
    while i < len(chars):
        if i + 2 < len(chars) and chars[i + 1] == "-":
            ranges.append((chars[i], chars[i + 2]))
            i += 3
        else:
            ranges.append((chars[i], chars[i]))
            i += 1
    return neg, [r for r in ranges if r[0] <= r[1]]


def matches(ps, s, nocase=False):
    """The whole text is described by the parts (by trying all the ways to divide the text)."""
    variants = (lambda c: {c, c.lower(), c.upper()}) if nocase else (lambda c: {c})
    todo, seen = [(0, 0)], set()
    while todo:
        i, j = todo.pop()
        if (i, j) in seen:
            continue
        seen.add((i, j))
        if i == len(ps):
            if j == len(s):
                return True
            continue
        kind, text = ps[i]
        if kind == "c":
            if text in variants(s[j:j + 1]):
                todo.append((i + 1, j + 1))
        elif kind == "?":
            if j < len(s) and s[j] != "/":
                todo.append((i + 1, j + 1))
        elif kind == "*":
            todo.append((i + 1, j))
            if j < len(s) and s[j] != "/":
                todo.append((i, j + 1))
        elif kind == "[]":
            neg, ranges = listed(text)
            if j < len(s) and any(a <= c <= b for a, b in ranges for c in variants(s[j])) != neg:
                todo.append((i + 1, j + 1))
        elif kind == "/**/":
            if s[j:j + 1] == "/":
                todo.append((i + 1, j + 1))
                todo += [(i + 1, k + 1) for k in range(j + 2, len(s)) if s[k] == "/"]
        elif kind == "**/":
            todo.append((i + 1, j))
            todo += [(i + 1, k + 1) for k in range(j + 1, len(s)) if s[k] == "/"]
        else:
            todo.append((i + 1, j))
            if s[j:j + 1] == "/":
                todo += [(i + 1, k) for k in range(j + 2, len(s) + 1)]
    return False


def described(pattern, path_pattern=True):
    """(include, anchored, directory, body), or None where the meaning is not specified."""
    if pattern.startswith("\\#"):
        pattern = pattern[1:]
    include = not pattern.startswith("!")
    if not include:
        pattern = pattern[1:]
    if pattern.startswith("\\!"):
        pattern = pattern[1:]
    anchored = path_pattern and "/" in pattern[:-1]
    if anchored:
        pattern = pattern.lstrip("/")
    directory = pattern.endswith("/")
    if directory:
        pattern = pattern[:-1]
    return include, anchored, directory, pattern


def specified(pattern):
    d = described(pattern)
    body = d[3]
    rest = re.sub(r"(^|(?<=/))\*\*(?=/|$)", "", body)
    # ** next to something else than a slash, [^...], brackets without characters, patterns of slashes only
    return "[]" not in body and "[!]" not in body and "**" not in rest and "[^" not in body and "//" not in pattern and body != "" and \
        not re.search(r"\[[^\]]*/", body)


# ------------------------------------------------------------------------------------ concrete runs
def run_match(inp):
    pattern, path, is_dir = inp[:3]
    if not specified(pattern):
        return None
    include, anchored, directory, body = described(pattern)
    k, g = outcome(Glob, pattern)
    if k == "raise":
        return f"{pattern!r} is rejected: {g!r}"
    base = os.path.basename(path)
    k, r = outcome(g.match, path, base, is_dir)
    if k == "raise":
        return f"{pattern!r} on {path!r} raised {r!r}"
    want = matches(parts(body), path.lstrip("/") if anchored else base) and (
        is_dir or not directory)
    if bool(r) != want:
        return f"{pattern!r} on {path!r} (directory: {is_dir}) is {r}"
    if bool(g.include) != include:
        return f"{pattern!r}: include is {g.include}"
    return None


def run_test(inp):
    """The % operator on an entry, with and without upper case letters."""
    pattern, path, is_dir, case = inp[:4]
    attr = "f_str" if inp[4:] else "path"
    if inp[4:]:
        if "/" in pattern:
            return None
        is_dir = False
    if not specified(pattern) or pattern.startswith("{") or "\n" in pattern or \
            pattern.strip() != pattern:
        return None
    include, anchored, directory, body = described(pattern)
    name = path if inp[4:] else os.path.basename(path)
    k, m = outcome(harness.matcher, [f"{attr}%{pattern}"], case=case)
    if k == "raise":
        return f"{attr}%{pattern} is rejected: {m!r}"
    entry = harness.FakeEntry({"f_str": path} if inp[4:] else {}, path=path, name=name, type="directory" if is_dir else "file")
    k, r = outcome(m.test, entry)
    if k == "raise":
        return f"{attr}%{pattern} on {path!r} raised {r!r}"
    low = case == "ignore" or case == "smart" and pattern == pattern.lower()
    if low and any(len(c.lower()) != 1 for c in path + pattern):
        return None
    want = matches(parts(body), path.lstrip("/") if anchored else name, low) and (
        is_dir or not directory)
    if bool(r) != (want == include):
        return f"{attr}%{pattern} on {path!r} (directory: {is_dir}, case {case}) is {r}"
    return None


ALPHABET = ["a", "b", "A", ".", "*", "*", "?", "/", "**/", "/**/", "/**", "[ab]", "[!a]", "[a-c]",
    "[!a-b]", "\\", "+", "(", ")", "|", "^", "$", "{", "[", "]", "-", "!", "#", "[b-a]", "[a\\]",
    "[.]", "[-a]", "[a-]", "é"]


def gen_match(rng):
    pattern = rng.choice(["", "", "", "!", "/", "\\#", "\\!"]) + "".join(rng.choice(ALPHABET)
        for _ in range(rng.choice([1, 2, 3, 4, 6]))) + rng.choice(["", "", "", "/"])
    if rng.random() < .6:
        # a path that resembles the pattern
        path = ""
        for kind, text in parts(described(pattern)[3]):
            path += {"c": text, "?": rng.choice("ab./"), "*": rng.choice(["", "a", "ab", ".", "/",
                "\n"]), "[]": rng.choice(["a", "b", "c", "-", "!", "\\", text[0]]), "/**/":
                rng.choice(["/", "/a/", "/a/b/", "/\n/", "//"]), "**/": rng.choice(["", "a/",
                "a/b/", "/"]), "/**": rng.choice(["", "/a", "/a/b", "/"])}[kind]
        if rng.random() < .3:
            path += rng.choice(["a", "\n", "/", "b", "A"])
        if rng.random() < .4:
            path = rng.choice(["a/", "/", "x/y/"]) + path
    else:
        path = "".join(rng.choice(["a", "b", "A", ".", "/", "!", "#", "\\", "\n", "é", "-", "["])
            for _ in range(rng.randrange(6)))
    return [pattern, path, rng.random() < .5]


DIRECTED = [[p, s, d] for p, s in [("*.txt", "a.txt"), ("*.txt", "a.txt\n"), ("*.txt", "atxt"),
    ("a/**", "a/b\nc"), ("**/a", "x\ny/a"), ("**/a", "a"), ("a/**/b", "a/b"), ("a/**/b", "a/x/b"),
    ("a/**/b", "axb"), ("/a", "a"), ("/a", "/a"), ("/a", "b/a"), ("a", "b/a"), ("a/", "a"),
    ("a/", "b/a"), ("a/b", "x/a/b"), ("?", "/"), ("?", "\n"), ("*", "\n"), ("[a\\]", "\\"),
    ("[b-a]", "a"), ("x[b-a]", "x"), ("[!b-a]", "a"), ("[\\d]", "1"), ("[\\d]", "d"), ("!a", "a"),
    ("!a/", "a"), ("\\!a", "!a"), ("\\#a", "#a"), ("a+", "aa"), ("a|b", "b"), ("(a", "(a"),
    ("[[a]", "["), ("[a", "[a"), ("a]", "a]"), ("[]", "[]"), ("[!]", "!"), ("a{2}", "aa"),
    ("a/*", "a/b/c"), ("a/*", "a/b"), ("*/b", "a/b"), ("*/b", "x/a/b"), ("a*/b", "a/c/b")]
    for d in (False, True)]
CONCRETE = [
    Concrete("match", run_match, gen_match, DIRECTED, count=60000),
    Concrete("test", run_test, lambda rng: gen_match(rng) + [rng.choice(["smart", "ignore",
        "sensitive"])] + rng.choice([[], ["str"]]), [d + [c] + x for x in ([], ["str"]) for d in
        DIRECTED for c in ("smart", "ignore", "sensitive")] + [d + [c] for d in DIRECTED for c in ("smart", "ignore", "sensitive")] + [
        ["A*", "ab", False, "ignore"], ["A*", "ab", False, "smart"], ["a*", "AB", False, "smart"],
        ["a*", "AB", False, "sensitive"], ["/X/a*", "x/AB", False, "ignore"]], count=6000),
]


# ---------------------------------------------------------------------------------------- contracts
def as_regex(body):
    """The reference as a regular expression (only used with names as a whole)."""
    out = ""
    for kind, text in parts(body):
        if kind == "c":
            out += re.escape(text)
        elif kind == "[]":
            neg, ranges = listed(text)
            if not ranges:
                out += "." if neg else "(?!)"
            else:
                out += "[" + "^" * neg + "".join(re.escape(a) + "-" + re.escape(b)
                    for a, b in ranges) + "]"
        else:
            out += {"?": "[^/]", "*": "[^/]*", "/**/": "/(?:.+/)?", "**/": "(?:.+/)?",
                "/**": "(?:/.+)?"}[kind]
    return out


TOKENS = ["a", ".", "/", "*", "?", "**/", "/**/", "/**", "[ab]", "[!a]", "[a-c]", "[b-a]",
    "[a\\]", "\\", "+", "(", "^", "$", "|", "é"]
FEW = ["a", "/", "*", "?", "**/", "/**/", "/**", "[!a]", "."]


def patterns(first):
    for n in (0, 1):
        for t in itertools.product(TOKENS, repeat=n):
            yield first + "".join(t)
            yield first + "".join(t) + "/"
    if first in FEW:
        for t in itertools.product(FEW, repeat=2):
            yield first + "".join(t)
        for t in itertools.product(FEW[:4], repeat=2):
            yield "!" + first + "".join(t)
            yield "/" + first + "".join(t) + "/"


def c_language(firsts):
    def body(E):
        from pyvc.values import STR, BOOL
        E.regex_exists = True
        todo = [p for f in firsts for p in dict.fromkeys(patterns(f)) if specified(p)]
        pattern = todo[E.choice(len(todo))]
        E.inputs["pattern"] = pattern
        path, name, is_dir = E.input("path", STR), E.input("name", STR), E.input("is_dir", BOOL)
        E.assume(E.spec(lambda p: not p.startswith("/"), path))
        E.model(str.lstrip, lambda E, s, chars=None: s)
        k, g = outcome(Glob, pattern)
        E.ensure("every pattern is understood", k == "return")
        if k == "raise":
            return
        include, anchored, directory, text = described(pattern)
        k, r = E.call_outcome(match_of(g), path, name, is_dir)
        E.ensure("matching never fails", k == "return")
        if k != "return":
            return
        want = E.spec(in_re, path if anchored else name, as_regex(text))
        if directory:
            want = E.spec(both, want, is_dir)
        E.ensure("a pattern matches exactly the names it describes", E.spec(same, r, want))
        E.ensure("a leading ! inverts", bool(g.include) == include)
    return body


def match_of(g):
    def call(path, name, is_dir):
        return g.match(path, name, is_dir)
    return call


def both(a, b):
    return a and b


def same(r, want):
    return bool(r) == want


PREFIXES = ["", "\\#", "!", "\\!", "!\\!"]
SHAPES = {"name": ("[^/]+", "", None), "name/": ("[^/]+", "/", None), "/": ("", "/", None),
    "/path": ("", "/", "[^/]"), "/path/": ("", "/", "[^/]/"), "name/path": ("[^/]+", "/", "[^/]"),
    "name/path/": ("[^/]+", "/", "[^/]/")}


def c_flags(path_pattern, shape):
    """translate: what kind of pattern a text is."""
    def body(E):
        import z3
        from pyvc.values import STR, Opaque, SData
        found = Opaque("Found", methods={"__bool__": lambda E, o: True})
        first, slash, last = SHAPES[shape]
        prefix = PREFIXES[E.choice(len(PREFIXES))]
        pattern = slash
        if first:
            a = E.input("a", STR)
            E.assume(E.spec(in_re, a, first))
            E.assume(E.spec(plain_start, a))
            pattern = E.spec(concat, a, pattern)
        if last:
            b, c = E.input("b", STR), E.input("c", STR)
            E.assume(E.spec(in_re, c, "[^/]"))
            if not first:
                E.assume(E.spec(lambda b: not b.startswith("/"), b))
            pattern = E.spec(concat, pattern, E.spec(concat, b, E.spec(concat, c, last[4:])))
        pattern = E.spec(concat, prefix, pattern)
        E.model(re.split, lambda E, *a, **k: E.list_input("parts", STR))
        E.model(re.findall, lambda E, *a, **k: E.list_input("found", STR))
        E.model(re.escape, lambda E, pattern: E.input("escaped", STR))
        E.model(re.fullmatch, lambda E, *a, **k: SData(z3.Const("found", found.sort()), found)
            if E.choice(2) else None)
        if hasattr(Glob, "translate_class"):
            E.model(Glob.translate_class, lambda E, *a, **k: "x")
        k, r = E.call_outcome(Glob.translate, pattern, path_pattern)
        E.ensure("translating a pattern never fails", k == "return")
        if k == "return":
            E.ensure("a leading ! inverts", E.spec(same, r[1], not prefix.startswith("!")))
            E.ensure("an inner or leading slash anchors", E.spec(same, r[2], path_pattern and
                "path" in shape))
            E.ensure("a trailing slash stands for a directory", E.spec(same, r[3],
                shape.endswith("/")))
    return body


def concat(a, b):
    return a + b


def plain_start(a):
    return not a.startswith("!") and not a.startswith("\\#") and not a.startswith("\\!")


def c_match(E):
    """match: what the regular expression is applied to."""
    from pyvc.values import STR, BOOL, Opaque, SData, SMaybe
    import z3
    f = z3.Function("regex_matches", z3.StringSort(), z3.BoolSort())

    def matching(E, o, string):
        return SMaybe(f(STR.unwrap(E, string)))
    regex_ty = Opaque("Regex", methods={"match": matching, "fullmatch": matching})
    regex = SData(z3.Const("regex", regex_ty.sort()), regex_ty)
    E.model(re.compile, lambda E, *a, **k: regex)
    E.global_model(applies, lambda E, s: E.mkbool(f(STR.unwrap(E, s))))
    path, name, is_dir = E.input("path", STR), E.input("name", STR), E.input("is_dir", BOOL)
    E.assume(E.spec(lambda p: in_re(p, "(/[^/]+)+|([^/]+(/[^/]+)*)"), path))
    anchored, directory = E.input("anchored", BOOL), E.input("directory", BOOL)
    again = E.choice(2)
    E.model(Glob.translate.__func__ if hasattr(Glob.translate, "__func__") else Glob.translate,
        lambda E, *a, **k: ("r", E.input("include", BOOL), anchored, directory))
    g = E.call(Glob, ["p"])
    if again:
        E.call_outcome(Glob.match, g, E.input("path0", STR), E.input("name0", STR), E.input("is_dir0", BOOL))
    k, r = E.call_outcome(Glob.match, g, path, name, is_dir)
    E.ensure("matching never fails", k == "return")
    if k == "return":
        E.ensure("anchored patterns are applied to the relative path, all others to the name, "
            "those for directories only to directories", E.spec(match_ok, r, path, name, is_dir,
            anchored, directory))


def applies(s):
    raise NotImplementedError


def match_ok(r, path, name, is_dir, anchored, directory):
    rel = path[1:] if path.startswith("/") else path
    return bool(r) == (applies(rel if anchored else name) and (is_dir or not directory))


def c_operator(cls, nocase):
    """The % operator of strings and paths."""
    def body(E):
        from pyvc.values import STR, BOOL, Opaque, SData, SObj
        import z3
        f = z3.Function("glob_matches", z3.StringSort(), z3.StringSort(), z3.BoolSort(),
            z3.BoolSort())

        def matching(E, *args, **kwargs):
            _, path, name, is_dir = inspect.signature(Glob.match).bind(*args, **kwargs).args
            return E.mkbool(f(STR.unwrap(E, path), STR.unwrap(E, name), BOOL.unwrap(E, is_dir)))
        E.model(Glob.match, matching)
        E.global_model(glob_matches, lambda E, p, n, d: E.mkbool(f(STR.unwrap(E, p), STR.unwrap(E,
            n), BOOL.unwrap(E, d))))
        value, name, is_dir = E.input("value", STR), E.input("name", STR), E.input("is_dir", BOOL)
        include = E.input("include", BOOL)
        g = SObj(E, Glob, {"include": include})
        entry_ty = Opaque("Entry", attrs={"name": lambda E, o: name}, methods={
            "is_dir": lambda E, o: is_dir})
        entry = SData(z3.Const("entry", entry_ty.sort()), entry_ty)
        test = Test(None, "%", cls, g, nocase)
        k, r = E.call_outcome(cls.test, entry, test, value)
        E.ensure("testing never fails", k == "return")
        if k == "return":
            E.ensure("a pattern selects what it matches, an inverted one everything else",
                E.spec({(Path, True): path_case, (Path, False): path_case, (String, True):
                string_case, (String, False): string_case}[cls, nocase], r, value, name, is_dir,
                include))
    return body


def glob_matches(path, name, is_dir):
    raise NotImplementedError


def path_case(r, v, n, d, inc):
    return bool(r) == (glob_matches(v, n, d) == inc)


def string_case(r, v, n, d, inc):
    return bool(r) == (glob_matches(v, v, False) == inc)


def from_model(label, i):
    if "pattern" in i and "path" in i:
        for d in (False, True):
            yield [i["pattern"], i["path"], d]
            yield [i["pattern"], i.get("name", ""), d]
    elif "a" in i or "b" in i:
        for prefix, lead, end in itertools.product(PREFIXES, ("", "/"), ("", "/")):
            pattern = prefix + i.get("a", "") + lead + i.get("b", "") + i.get("c", "") + end
            for path in ("a", "a/b", "x/a/b", described(pattern)[3]):
                for d in (False, True):
                    yield [pattern, path, d]
    else:
        for d in DIRECTED:
            yield d


def from_test(label, i):
    for d in DIRECTED:
        for c in ("smart", "ignore", "sensitive"):
            yield d + [c]
            yield d + [c, "str"]


GROUPS = [TOKENS[i:i + 1] for i in range(8)] + [TOKENS[8:9], TOKENS[9:10], TOKENS[10:15],
    TOKENS[15:]]
CONTRACTS = [Contract(f"translate/{n}/{x}", c_flags(p, x), "match", from_model)
        for n, p in (("paths", True), ("strings", False)) for x in SHAPES] + [
    Contract("match", c_match, "match", from_model)] + [
    Contract(f"operator/{c.__name__}/{'ignore' if n else 'sensitive'}", c_operator(c, n), "test",
        from_test) for c in (Path, String) for n in (False, True)] + [
    Contract(f"language/{' '.join(g)}", c_language(g), "match", from_model,
        bounded="all names; the patterns of up to three of the listed tokens")
        for g in GROUPS]
ASSUMPTIONS = ["Python's re implements the regular languages its parser describes"]
cleanup = harness.cleanup
