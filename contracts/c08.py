"""C08: path attributes."""

import os
import stat

from contracts.common import Contract, Concrete, outcome
from contracts import harness
from pyvc.spec import in_re
from libff.path import split, splitext, join
from libff.entry import Entry


# ------------------------------------------------------------------------------------ concrete runs
class Start:
    def __init__(self, root):
        self.root = root
        self.absroot = os.path.abspath(root)
        self.device = 1


class Status:
    st_dev, st_ino, st_size, st_nlink, st_uid, st_gid = 1, 2, 3, 1, 0, 0
    st_mtime = st_ctime = st_atime = 5.0

    def __init__(self, mode=0o100644):
        self.st_mode = mode


def extension(name):
    """What follows the last dot, if something else than dots precedes it."""
    i = name.rfind(".")
    return name[i:] if i > 0 and name[:i].strip(".") else ""


KINDS = {0o040000: "directory", 0o100000: "file", 0o140000: "socket", 0o010000: "fifo",
    0o020000: "char", 0o060000: "block"}


def run_entry(inp):
    root, rel = inp[0], inp[1]
    mode = inp[2] if len(inp) > 2 else 0o100644
    k, e = outcome(Entry, Start(root), rel, Status(mode))
    if k == "raise":
        return f"raised {e!r}"
    parts = rel.split("/")
    want = {"relpath": rel, "depth": len(parts) - 1, "root": root,
        "path": rel if root == "." else root + ("" if root == "/" else "/") + rel,
        "name": parts[-1], "hide": parts[-1][:1] == ".",
        "type": KINDS.get(mode & 0o170000, "other")}
    path = want["path"]
    want["dir"] = path[:len(path) - len(parts[-1])]
    if want["dir"] != "/":
        want["dir"] = want["dir"][:-1]
    ext = extension(parts[-1])
    want["ext"] = ext[1:]
    want["pathx"] = path[:len(path) - len(ext)]
    want["namex"] = parts[-1][:len(parts[-1]) - len(ext)]
    want["hidden"] = any(p[:1] == "." for p in path.split("/"))
    want["abspath"] = os.path.abspath(root).rstrip("/") + "/" + rel
    for name, exp in want.items():
        k, v = outcome(e.get_attribute, name)
        if k == "raise" or v != exp:
            return f"{name} of {path!r} is {v!r}, not {exp!r}"
    if join(want["dir"], want["name"]) != path:
        return "directory and name do not give back the path"
    return None


NAMES = ["a", "a.txt", ".a", "..a", "a.", "a..", ".a.b", "..", "...", "....x", "a.b.c", "a..b",
    " ", "a b.c d", "ä.ö", ".x.", "-", "x" * 30 + ".y", "\udcff.\udcfe", "a\nb.c"]
ROOTS = [".", "/", "/x", "x", "../y", "a.b/c", ".h", "/a/.b", "x y"]


def gen_entry(rng):
    name = lambda: "".join(rng.choice("ab.. -") for _ in range(rng.randint(1, 6)))
    return [rng.choice(ROOTS), "/".join((name() if rng.random() < .7 else rng.choice(NAMES))
        for _ in range(rng.choice([1, 1, 2, 3, 4]))), rng.choice(list(KINDS)) | 0o644]


def run_path(p):
    """The path functions on any text."""
    k, v = outcome(splitext, p)
    if k == "raise":
        return f"splitext raised {v!r}"
    ext = extension(p.rsplit("/", 1)[-1])
    if tuple(v) != (p[:len(p) - len(ext)], ext):
        return f"splitext is {v!r}"
    k, v = outcome(split, p)
    if k == "raise" or "/" in v[1] or not p.endswith(v[1]):
        return f"split gives {v!r}"
    return None


def run_ff(inp):
    root = harness.scratch("c08")
    try:
        harness.tree(root, {"t/a.txt": "", "t/.h/b.tar.gz": "", "t/c/d/.e.f": "", "t/c/g.": ""})
        st, out, err = harness.ff(["--no-cache", "--color", "never", "-S", "path", "-o",
            "path,dir,name,pathx,namex,depth,hide,hidden,ext", "--sep", "|"] + inp, root + "/t"
            if not inp else root)
        pre = "" if not inp else "t/"
        rows = [".h|%s|.h|.h|.h|0|true|true|", ".h/b.tar.gz|%s/.h|b.tar.gz|.h/b.tar|b.tar|1|false|"
            "true|gz", "a.txt|%s|a.txt|a|a|0|false|false|txt", "c|%s|c|c|c|0|false|false|",
            "c/d|%s/c|d|c/d|d|1|false|false|", "c/d/.e.f|%s/c/d|.e.f|c/d/.e|.e|2|true|true|f",
            "c/g.|%s/c|g.|c/g|g|1|false|false|"]
        exp = []
        for r in rows:
            f = r.split("|")
            f[0], f[3] = pre + f[0], pre + f[3]
            f[1] = f[1] % pre.rstrip("/")
            if not pre:
                f[1] = f[1].lstrip("/")
            exp.append("|".join(f))
        if st != 0 or sorted(out.split("\n")[:-1]) != sorted(exp):
            return f"exit {st}: {out!r} instead of {exp!r} {err[-300:]}"
        return None
    finally:
        harness.remove(root)


CONCRETE = [
    Concrete("entry", run_entry, gen_entry, [[r, n] for r in ROOTS for n in NAMES] +
        [[".", "d/" + n, k] for n in NAMES for k in KINDS], count=40000),
    Concrete("path", run_path, lambda rng: "".join(rng.choice("ab./") for _ in range(
        rng.randint(0, 9))), ["", "/", ".", "/.", "a/.b", "a.b/c", "a/..c"] + NAMES, count=40000),
    Concrete("ff -o", run_ff, None, [[], ["t/"]], timeout=60),
]


# ---------------------------------------------------------------------------------------- contracts
def c_split(E):
    from pyvc.values import STR
    p = E.input("path", STR)
    # not two leading slashes without another one, nothing after the last slash missing
    E.assume(E.spec(lambda p: not in_re(p, "//[^/]*") and not p.endswith("/"), p))
    k, r = E.call_outcome(split, p)
    E.ensure("splitting never fails", k == "return")
    if k != "return":
        return
    d, n = r
    E.ensure("the name has no slash", E.spec(lambda n: "/" not in n, n))
    E.ensure("the name is the end of the path", E.spec(lambda n, p: p.endswith(n), n, p))
    k, j = E.call_outcome(join, d, n)
    E.ensure("joining never fails", k == "return")
    if k == "return":
        E.ensure("directory and name give back the path", E.spec(lambda j, p: j == p, j, p))


def c_join(E):
    from pyvc.values import STR
    a, b = E.input("a", STR), E.input("b", STR)
    k, r = E.call_outcome(join, a, b)
    E.ensure("joining never fails", k == "return")
    if k == "return":
        E.ensure("the parts are joined by one slash", E.spec(join_spec, r, a, b))


def join_spec(r, a, b):
    if a == "":
        return r == b
    if b == "":
        return r == a
    if a == "/":
        return r == a + b
    return r == a + "/" + b


def inv_dots(path, _any):
    """A position such that only dots are between the last slash and it."""
    sep = path.rfind("/")
    return sep < _any and _any <= path.rfind(".") and in_re(path[sep + 1:_any], "[.]*")


def c_splitext(E):
    from pyvc.values import STR
    p = E.input("path", STR)
    E.invariants = [inv_dots]
    k, r = E.call_outcome(splitext, p)
    E.ensure("splitting never fails", k == "return")
    if k != "return":
        return
    stem, ext = r
    E.ensure("the path without extension and the extension give back the path",
        E.spec(lambda a, b, p: a + b == p, stem, ext, p))
    E.ensure("an extension is the last dot of the name and what follows",
        E.spec(lambda e: e == "" or in_re(e, "[.][^./]*"), ext))
    E.ensure("something other than dots precedes an extension",
        E.spec(lambda a, e: e == "" or in_re(a, "(.*/)?[^/]*[^./][^/]*"), stem, ext))
    E.ensure("a name has an extension if something other than dots precedes its last dot",
        E.spec(lambda p, e: e != "" or not in_re(p, "(.*/)?[^/]*[^./][^/]*[.][^./]*"), p, ext))


KIND_TESTS = {"S_ISDIR": 0o040000, "S_ISREG": 0o100000, "S_ISLNK": 0o120000, "S_ISSOCK": 0o140000,
    "S_ISFIFO": 0o010000, "S_ISCHR": 0o020000, "S_ISBLK": 0o060000}


def entry(E, root, absroot, rel, mode):
    """Entry.__init__ of anything but a symbolic link."""
    from pyvc.values import SObj
    for name, kind in KIND_TESTS.items():
        E.model(getattr(stat, name), kind_test(kind))
    for name in ("S_ISDOOR", "S_ISPORT", "S_ISWHT"):
        E.model(getattr(stat, name), lambda E, m: False)
    start = SObj(E, Start, {"root": root, "absroot": absroot, "device": 1})
    status = SObj(E, Status, {"st_mode": mode})
    k, e = E.call_outcome(Entry, start, rel, status)
    E.ensure("an entry can be created", k == "return")
    return (lambda n: E.getattr(e, n)) if k == "return" else None


def c_entry_path(E):
    from pyvc.values import STR
    root, absroot, rel = E.input("root", STR), E.input("absroot", STR), E.input("rel", STR)
    E.assume(E.spec(well_formed, root, rel))
    E.assume(E.spec(lambda a: in_re(a, "/([^/]+/)*[^/]+|/"), absroot))
    f = entry(E, root, absroot, rel, 0o100644)
    if f is None:
        return
    E.ensure("the path is the start directory and the relative path joined by a slash",
        E.spec(path_spec, f("path"), root, rel))
    E.ensure("the absolute path is below the absolute start directory",
        E.spec(join_spec, f("abspath"), absroot, rel))
    E.ensure("the name is what follows the last slash of the path",
        E.spec(name_spec, f("name"), f("path")))
    E.ensure("directory and name give back the path",
        E.spec(lambda d, n, p: join_spec(p, d, n), f("dir"), f("name"), f("path")))
    E.ensure("an entry is hidden itself exactly when its name starts with a dot",
        E.spec(lambda h, n: h == n.startswith("."), f("hide"), f("name")))


def c_entry_type(E):
    from pyvc.values import Bits
    mode = E.input("mode", Bits(16))
    E.assume(E.spec(lambda m: m & 0o170000 != 0o120000, mode))
    f = entry(E, "t", "/t", "d/n", mode)
    if f is not None:
        E.ensure("the type is the one in the mode", E.spec(type_spec, f("type"), mode))


def kind_test(kind):
    def of_kind(m):
        return m & 0o170000 == kind
    return lambda E, m: E.spec(of_kind, m)


def well_formed(root, rel):
    return in_re(rel, "([^/]+/)*[^/]+") and in_re(root, "/|/?([^/]+/)*[^/]+")


def path_spec(path, root, rel):
    if root == ".":
        return path == rel
    return join_spec(path, root, rel)


def name_spec(name, path):
    return path.endswith(name) and in_re(name, "[^/]+") and (path == name or path.endswith("/" +
        name))


def type_spec(t, mode):
    kind = mode & 0o170000
    for k in KINDS:
        if kind == k:
            return t == KINDS[k]
    return t == "other"


def c_hidden(E):
    from pyvc.values import STR, SObj, Opaque, SData
    import z3
    parts = E.list_input("parts", STR)
    ty = Opaque("PathText", methods={"split": lambda E, s, sep: parts})
    e = SObj(E, Entry, {"path": SData(z3.Const("path", ty.sort()), ty)})
    k, r = E.call_outcome(get_hidden, e)
    E.ensure("asking for hidden never fails", k == "return")
    if k == "return":
        E.ensure("an entry is hidden exactly when a component of its path starts with a dot",
            E.spec(hidden_spec, r, parts))


def get_hidden(e):
    return e.hidden


def hidden_spec(r, parts):
    return r == any(p.startswith(".") for p in parts)


def c_extension(E):
    from pyvc.values import STR, SObj, Unsupported
    p = E.input("path", STR)
    E.assume(E.spec(lambda p: in_re(p, "/?([^/]+/)*[^/]+"), p))
    E.model(os.path.basename, lambda E, p: E.run(last_part, p))
    stem, dot = E.input("stem", STR), E.input("dotext", STR)

    def splitext_(E, q):
        # proved below
        if not E.truth(E.spec(lambda q, p: q == p, q, p)):
            raise Unsupported("the extension of something else")
        return stem, dot
    E.model(splitext, splitext_)
    E.assume(E.spec(lambda a, b, p: a + b == p, stem, dot, p))
    E.assume(E.spec(lambda e: e == "" or in_re(e, "[.][^./]*"), dot))
    E.assume(E.spec(lambda p, e: (e != "") == in_re(p, "(.*/)?[^/]*[^./][^/]*[.][^./]*"), p, dot))
    d = SObj(E, Entry, {"path": p, "name": E.spec(last_part, p)})
    k, r = E.call_outcome(get_parts, d)
    E.ensure("asking for the extension never fails", k == "return")
    if k != "return":
        return
    ext, pathx, namex = r
    E.ensure("the path without extension and the extension with its dot give back the path",
        E.spec(lambda p, x, e: p == x + "." + e or p == x and e == "", p, pathx, ext))
    E.ensure("the extension is what follows the last dot",
        E.spec(lambda e: in_re(e, "[^./]*"), ext))
    E.ensure("there is one exactly if something other than dots precedes the last dot of the name",
        E.spec(lambda p, x: in_re(p, "(.*/)?[^/]*[^./][^/]*[.][^./]*") == (p != x), p, pathx))
    E.ensure("the name without extension is the last component of the path without extension",
        E.spec(lambda n, x: in_re(n, "[^/]*") and (n == x or x.endswith("/" + n)), namex, pathx))


def last_part(p):
    if "/" in p:
        return p[p.rfind("/") + 1:]
    return p


def get_parts(e):
    return e.ext, e.pathx, e.namex


def c_depth(E):
    """A relative path of any number of components."""
    from pyvc.values import STR, SObj, SData, Opaque, Unsupported
    import z3
    parts = E.list_input("parts", STR)
    E.assume(E.spec(lambda p: len(p) > 0, parts))

    def count(E, s, sep):
        if sep != "/":
            raise Unsupported("count of something else")
        return E.spec(lambda p: len(p) - 1, parts)

    def split_(E, s, sep):
        if sep != "/":
            raise Unsupported("split at something else")
        return E.new_list(list(parts.pieces), ty=STR)
    ty = Opaque("PathText", methods={"split": split_, "count": count})
    e = SObj(E, Entry, {"relpath": SData(z3.Const("relpath", ty.sort()), ty)})
    k, r = E.call_outcome(get_depth, e)
    E.ensure("asking for the depth never fails", k == "return")
    if k == "return":
        E.ensure("the depth is the number of directories between", E.spec(lambda r, p:
            r == len(p) - 1, r, parts))


def get_depth(e):
    return e.depth


CONTRACTS = [
    Contract("Entry/extension", c_extension, "entry", lambda label, i: [[".", i["path"]]] if
        i["path"][:1] != "/" else [["/", i["path"].lstrip("/")]]),
    Contract("Entry/depth", c_depth, "entry", lambda label, i: [[".", "/".join(i["parts"])]]),
    Contract("Entry/path", c_entry_path, "entry", lambda label, i: [[i["root"], i["rel"]]]),
    Contract("Entry/type", c_entry_type, "entry", lambda label, i: [["t", "d/n", i["mode"]]]),
    Contract("hidden", c_hidden, "entry", lambda label, i: [["/", "/".join(i["parts"])]]),
    Contract("split", c_split, "path", lambda label, i: [i["path"]]),
    Contract("join", c_join),
    Contract("splitext", c_splitext, "path", lambda label, i: [i["path"]]),
]
cleanup = harness.cleanup
