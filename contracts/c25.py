"""C25: mount points."""

import builtins
import io

from contracts.common import Contract, Concrete, outcome
from contracts import harness
from pyvc.spec import in_re
from libff.entry import Mountpoints, Entry, pseudo_fs

PSEUDO = tuple(sorted(pseudo_fs))


# ------------------------------------------------------------------------------------ concrete runs
def escaped(s):
    return "".join("\\%03o" % ord(c) if c in " \t\n\\" else c for c in s)


def table(mounts):
    """A Mountpoints object for the given contents of /proc/mounts."""
    text = "".join(f"{escaped(d)} {escaped(m)} {t} rw,relatime 0 0\n" for m, d, t in mounts)
    data = text.encode("utf-8", "surrogateescape")
    real = builtins.open

    def fake(path, mode="r", *args, **kw):
        if path != "/proc/mounts":
            return real(path, mode, *args, **kw)
        if "b" in mode:
            return io.BytesIO(data)
        kw.pop("buffering", None)
        kw.setdefault("encoding", "utf-8")
        return io.TextIOWrapper(io.BytesIO(data), *args[1:], **kw)
    builtins.open = fake
    try:
        return Mountpoints()
    finally:
        builtins.open = real


def within(path, mount):
    return mount == "/" or path == mount or path.startswith(mount + "/")


def expected(mounts, path):
    best = None
    for m in mounts:
        if within(path, m[0]) and (best is None or len(m[0]) >= len(best[0])):
            best = m
    return best


def run(inp):
    mounts, paths = inp
    k, t = outcome(table, mounts)
    if k == "raise":
        return f"reading the mount points failed with {t!r}"
    for p in paths:
        want = expected(mounts, p)
        if want is None:
            continue
        k, r = outcome(t.get, p)
        if k == "raise":
            return f"{p!r} raised {r!r}"
        r = list(r)
        if (r[0].rstrip("/") or "/") != want[0] or r[1:] != want[1:]:
            return f"{p!r} is on {r!r}, not {want!r}"
    return None


PARTS = ["a", "ab", "b", "a b", "a\\040b", "x\ty", "ä", "\udcff", "a-b", "a.", "0", "a\u00a0b", "a\rb"]


def gen(rng):
    path = lambda: "/" + "/".join(rng.choice(PARTS[:3] if rng.random() < .6 else PARTS)
        for _ in range(rng.choice([1, 1, 2, 3])))
    mounts = [["/", "root", "ext4"]] + [[path(), rng.choice(["/dev/sda1", "none", "a b", "zz", "aa"]),
        rng.choice(["ext4", "tmpfs", "proc"])] for _ in range(rng.randrange(6))]
    if rng.random() < .3:
        mounts.append(["/", "overlay", "overlay"])
    paths = [path() for _ in range(5)] + [m[0] for m in mounts]
    paths += [m[0].rstrip("/") + rng.choice(["/x", "x", "-", "/a/b", "."]) for m in mounts]
    paths = [p if p[0] == "/" else "/" + p for p in paths]
    return [mounts, paths]


class Start:
    root, absroot, device = "/mnt", "/mnt", 1


class Status:
    st_mode, st_dev = 0o40755, 1


def run_entry(inp):
    mounts, paths = inp
    saved = Entry._mountpoints
    Entry._mountpoints = table(mounts)
    try:
        for p in paths:
            if not p.startswith("/mnt/"):
                continue
            e = Entry(Start(), p[5:], Status())
            want = expected(mounts, p)
            r = [e.get_attribute("mpath").rstrip("/") or "/", e.get_attribute("devname"),
                e.get_attribute("fstype")]
            if want is not None and r != want:
                return f"{p!r} is on {r}, not {want!r}"
    finally:
        Entry._mountpoints = saved
    return None


def gen_entry(rng):
    mounts, paths = gen(rng)
    below = lambda p: "/mnt" + (p if p != "/" else "/x")
    return [mounts + [[below(m[0])] + m[1:] for m in mounts], [below(p) for p in paths]]


def run_ff(inp):
    """The attributes of the real program agree with the table of the system."""
    root = harness.scratch("c25")
    try:
        harness.tree(root, {"a": "", "b/c": ""})
        with open("/proc/mounts", encoding="utf-8", errors="surrogateescape", newline="\n") as f:
            mounts = [line.split(" ")[:3] for line in f]
        unescape = lambda s: s.encode("latin-1", "backslashreplace").decode("unicode_escape") \
            if "\\" in s else s
        mounts = [[unescape(m), unescape(d), t] for d, m, t in mounts]
        for start in (root, "/dev", "/"):
            st, out, err = harness.ff(["--no-cache", "--color", "never", "-D", start, "-o",
                "path,mpath,devname,fstype", "--sep", "|", "--depth=0"], root, timeout=120)
            if st != 0:
                return f"exit {st}: {err[-300:]}"
            for line in out.split("\n")[:-1]:
                f = line.split("|")
                want = expected(mounts, f[0])
                if want is not None and [f[1].rstrip("/") or "/"] + f[2:] != want:
                    return f"{f[0]} is on {f[1:]}, not {want}"
        return None
    finally:
        harness.remove(root)


CONCRETE = [
    Concrete("table", run, gen, [
        [[["/", "r", "ext4"], ["/mnt", "m", "nfs"]], ["/mnt", "/mnt/a", "/mntx", "/mn", "/a"]],
        [[["/", "r", "ext4"], ["/a", "1", "x"], ["/a/b", "2", "y"], ["/a/b/c", "3", "z"],
            ["/a-b", "4", "w"]], ["/a", "/a/b", "/a/b/c/d", "/a-b", "/a-b/c", "/a/bc", "/a.b"]],
        [[["/", "r", "ext4"], ["/a", "z", "x"], ["/a", "a", "x"]], ["/a", "/a/b"]]], count=40000),
    Concrete("entry", run_entry, gen_entry, [[[["/", "r", "ext4"], ["/mnt/a", "m", "nfs"],
        ["/mnt/b/c", "n", "tmpfs"]], ["/mnt/a", "/mnt/a/x", "/mnt/b/c", "/mnt/b", "/mnt/ab"]]],
        count=10000),
    Concrete("ff", run_ff, None, [[]], timeout=300),
]


# ---------------------------------------------------------------------------------------- contracts
def inside(path, mount):
    """The directory path is the mount point (ending in a slash) or below it."""
    return (path + "/").startswith(mount[0])


def world(E):
    """Mount points before, one, mount points after; only the one in the middle is the first that
       contains the path."""
    from pyvc.values import STR, TupT, SObj
    ty = TupT([STR, STR, STR])
    path = E.input("path", STR)
    E.assume(E.spec(well_formed, path))
    return path, ty


def well_formed(path):
    return in_re(path, "(/[^/]+)+")


def none_of(mounts, path):
    return not any((path + "/").startswith(m[0]) for m in mounts)


def c_first(E):
    from pyvc.values import SObj
    path, ty = world(E)
    before, after = E.list_input("before", ty), E.list_input("after", ty)
    one = E.input("one", ty)
    E.assume(E.spec(none_of, before, path))
    E.assume(E.spec(inside, path, one))
    t = SObj(E, Mountpoints, {"entries": E.new_list(before.pieces + [one] + after.pieces)})
    k, r = E.call_outcome(Mountpoints.get, t, path)
    E.ensure("looking up a mount point never fails", k == "return")
    if k == "return":
        E.ensure("the first mount point in the table that contains the path is reported",
            E.spec(lambda r, o: r[0] == o[0] and r[1] == o[1] and r[2] == o[2], r, one))


def c_none(E):
    from pyvc.values import SObj
    path, ty = world(E)
    mounts = E.list_input("mounts", ty)
    E.assume(E.spec(none_of, mounts, path))
    t = SObj(E, Mountpoints, {"entries": E.new_list(list(mounts.pieces))})
    k, r = E.call_outcome(Mountpoints.get, t, path)
    E.ensure("looking up a mount point never fails", k == "return")
    if k == "return":
        E.ensure("without a mount point the root directory is reported",
            E.spec(lambda r: r[0] == "/", r))


def c_order(E):
    """The lemma that makes the first one the deepest."""
    from pyvc.values import STR
    path, a, b = E.input("path", STR), E.input("a", STR), E.input("b", STR)
    E.assume(E.spec(lambda p, a, b: p.startswith(a) and p.startswith(b) and a >= b, path, a, b))
    E.ensure("of two prefixes of a path the greater one is the longer one",
        E.spec(lambda a, b: len(a) >= len(b), a, b))


def get_all(e):
    return e.mpath, e.devname, e.fstype, e.pseudofs


def c_entry(E):
    """The attributes of an entry are those of the mount point its absolute path is on."""
    from pyvc.values import STR, SObj, SStr
    import z3
    S = z3.StringSort()
    parts = [z3.Function(n, S, S) for n in ("mount", "device", "type")]
    E.model(Mountpoints.get, lambda E, t, path: tuple(SStr(f(STR.unwrap(E, path))) for f in parts))
    path = E.input("path", STR)
    e = SObj(E, Entry, {"abspath": path, "path": "x", "relpath": "x", "dir": "d", "name": "x"})
    k, r = E.call_outcome(get_all, e)
    E.ensure("asking for the file system never fails", k == "return")
    if k == "return":
        for i, what in enumerate(("mount point", "device", "file system type")):
            E.ensure(f"the {what} is that of the absolute path",
                E.spec(lambda a, b: a == b, r[i], SStr(parts[i](path.t))))
        E.ensure("a pseudo file system is told by its type", E.spec(lambda r, t: bool(r) == (
            t in PSEUDO), r[3], r[2]))


CONTRACTS = [
    Contract("get/first", c_first),
    Contract("get/none", c_none),
    Contract("order", c_order),
    Contract("Entry", c_entry, "entry", lambda label, i: [
        [[["/", "r", "ext4"], ["/mnt/a", "m", "nfs"]], ["/mnt/a", "/mnt/a/b"]]]),
]
cleanup = harness.cleanup
