"""C09: Every entry found is handled exactly once."""

import collections
import os
import queue
import signal
import traceback
import types

from contracts.common import Contract, Concrete, outcome
from contracts import harness
import libff
from libff import Directory, Entries, walk
from libff.entry import Entry
from libff.walk import FilesystemWalker


# ------------------------------------------------------------------------------------ concrete runs
class Item:
    """An entry as the walker sees it."""

    def __init__(self, n, excluded, matches, is_dir):
        self.n, self.excluded, self.matches, self.dir = n, excluded, matches, is_dir
        self.relpath = self.path = self.name = f"e{n}"
        self.abspath = "/d/" + self.path
        self.ignore_paths = [f"i{n}"]
        self.type = "directory" if is_dir else "file"

    def is_dir(self):
        return self.dir

    def is_file(self):
        return not self.dir

    def is_symlink(self):
        return False


class Anything:
    def __getattr__(self, name):
        return lambda *a, **k: None


def walker(jobs, idle, slow, put, process, **args):
    """A FilesystemWalker whose surroundings only record what it does."""
    w = FilesystemWalker.__new__(FilesystemWalker)
    idle = list(idle)
    ctx = types.SimpleNamespace()
    ctx.args = types.SimpleNamespace(jobs=jobs, follow_symlinks=False, ignore_files=[], profile=None)
    vars(ctx.args).update(args)
    ctx.idle_processes = lambda: idle.pop(0) if len(idle) > 1 else idle[0]
    ctx.registry = types.SimpleNamespace(optimize_for_slow_plugins=slow)
    ctx.excluder = types.SimpleNamespace(test=lambda e: e.excluded)
    ctx.matcher = types.SimpleNamespace(test=lambda e: e.matches)
    ctx.processing = types.SimpleNamespace(process=process)
    ctx.logger = Anything()
    w.context = ctx
    for name in ("args", "registry", "excluder", "matcher", "processing", "logger"):
        setattr(w, name, getattr(ctx, name))
    w.processes = []
    w.queue = types.SimpleNamespace(put=put)
    return w


def run_entries(inp):
    """[flags of the entries, jobs, numbers of idle processes, slow plugins]"""
    flags, jobs, idle, slow = inp
    start = types.SimpleNamespace(root="/d")
    parent = Directory(start, "", ["p"])
    items = [Item(i, "x" in f, "m" in f, "d" in f) for i, f in enumerate(flags)]
    handed, queued, todo, bad = collections.Counter(), collections.Counter(), [], []

    def put(chunk):
        if isinstance(chunk, Entries):
            if chunk.parent is not parent:
                bad.append("work is handed over for another directory")
            todo.append(list(chunk.entries))
            return
        if len(chunk) == 0:
            bad.append("an empty chunk is queued")
        for d in chunk:
            if not isinstance(d, Directory) or d.start is not start:
                bad.append(f"{d!r} is queued")
            else:
                queued[d.relpath] += 1
                if list(d.ignore_paths) != ["i" + d.relpath[1:]]:
                    bad.append(f"{d.relpath} is queued with the ignore files {d.ignore_paths}")

    def process(entries):
        for e in entries:
            handed[e.n] += 1
    w = walker(jobs, idle, slow, put, process)
    todo.append(list(items))
    rounds = 0
    while todo:
        rounds += 1
        if rounds > 10 * len(items) + 10:
            return "work is handed over again and again"
        w.process_entries(parent, todo.pop())
    if bad:
        return bad[0]
    for e in items:
        want = int(not e.excluded and e.matches)
        if handed[e.n] != want:
            return f"entry {e.n} ({flags[e.n]!r}) of {len(items)} is handed on {handed[e.n]} times"
        want = int(not e.excluded and e.dir)
        if queued[e.relpath] != want:
            return f"directory {e.n} ({flags[e.n]!r}) of {len(items)} is queued {queued[e.relpath]} times"
    return None


SIZES = [0, 1, 2, 3, 9, 10, 11, 12, 13, 14, 20, 21, 22, 50, 99, 100, 101, 102, 199, 200, 201, 250, 301, 450, 1100, 2400]


def gen_entries(rng):
    n = rng.choice(SIZES)
    kinds = rng.choice([["m"], ["dm"], ["d"], ["", "x", "m", "d", "dm", "dx", "mx", "dmx"]])
    jobs = rng.choice([1, 2, 3, 4, 8, 16])
    return [[rng.choice(kinds) for _ in range(n)], jobs, [rng.randrange(jobs + 1) for _ in range(rng.choice([1, 5, 40]))],
        rng.random() < 0.6]


def directed_entries():
    out = []
    for n in SIZES:
        for k in ("m", "d", "dm"):
            for jobs, idle, slow in ((1, [0], False), (1, [1], True), (4, [2], True), (4, [0], True), (8, [4, 0], True)):
                out.append([[k] * n, jobs, idle, slow])
    return out


ERRORS = {"gone": FileNotFoundError, "denied": PermissionError, "error": OSError, "loop": lambda: OSError(40, "loop")}


def run_scan(inp):
    """[entries {name: kind}, failing {name: error}, directory below the start directory, ignore files]"""
    spec, failing, sub, names = inp
    root = harness.scratch("scan")
    base = os.path.join(root, sub) if sub else root
    os.makedirs(base, exist_ok=True)
    harness.tree(base, spec)
    real_scandir, real_readlink = os.scandir, os.readlink

    class Proxy:
        def __init__(self, d):
            self.d = d

        def __getattr__(self, name):
            return getattr(self.d, name)

        def stat(self, **k):
            if self.d.name in failing:
                raise ERRORS[failing[self.d.name]]()
            return self.d.stat(**k)

    class Scan:
        def __init__(self, path):
            self.it = real_scandir(path)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.it.close()

        def close(self):
            self.it.close()

        def __iter__(self):
            return map(Proxy, self.it)

        def __next__(self):
            return Proxy(next(self.it))

    def readlink(path, *a, **k):
        if os.path.basename(path) in failing and os.path.basename(path) != "a":
            raise ERRORS[failing[os.path.basename(path)]]()
        return real_readlink(path, *a, **k)
    start = types.SimpleNamespace(root=root, absroot=root, device=os.stat(root).st_dev, status=os.stat(root))
    parent = Directory(start, sub, ["/p/.gitignore"])
    w = walker(1, [0], False, None, None, ignore_files=names)
    try:
        # As a link's target is only read when the entry is created, both can fail.
        os.scandir, os.readlink = Scan, readlink
        entries = w.scan_directory(parent)
    finally:
        os.scandir, os.readlink = real_scandir, real_readlink
    got = collections.Counter(e.relpath for e in entries)
    want = collections.Counter(os.path.join(sub, n) for n in spec if n not in failing)
    if got != want:
        return f"scanning {sorted(spec)} with {failing} reports {sorted(got.elements())}"
    for e in entries:
        if e.abspath != os.path.join(base, e.name) or e.start_directory is not start:
            return f"{e.relpath} is reported as {e.abspath}"
        s = os.stat(os.path.join(base, e.name), follow_symlinks=False)
        if (e.status.st_ino, e.status.st_mode) != (s.st_ino, s.st_mode):
            return f"{e.relpath} is reported with the data of another file"
        ign = sorted(["/p/.gitignore"] + [os.path.join(base, n) for n in spec if n in names and n not in failing])
        if sorted(e.ignore_paths) != ign:
            return f"{e.relpath} has the ignore files {e.ignore_paths}"
    if parent.ignore_paths != ["/p/.gitignore"]:
        return f"the ignore files of the parent become {parent.ignore_paths}"
    return None


NAMES = ["a", "b", ".c", "d d", "e\n", "f\udcff", ".gitignore", ".ignore", "x" * 200, "-g", "*", "ä"]


def gen_scan(rng):
    names = rng.sample(NAMES, rng.randrange(0, 8)) + [f"n{i}" for i in range(rng.choice([0, 0, 3, 120]))]
    spec = {n: rng.choice(["x", "", None, ["link", "a"], ["link", "/nowhere"]]) for n in names}
    return [spec, {n: rng.choice(list(ERRORS)) for n in names if rng.random() < 0.25}, rng.choice(["", "s", "s/t"]),
        rng.choice([[], [".gitignore"], [".gitignore", ".ignore"]])]


def spec_of(spec):
    return {n: tuple(v) if isinstance(v, list) else v for n, v in spec.items()}


def run_scan_(inp):
    return run_scan([spec_of(inp[0])] + list(inp[1:]))


SCANS = [[{}, {}, "", []], [{"a": "x", "b": None, "c": ["link", "a"], "d": ["link", "/nowhere"]}, {}, "s", [".gitignore"]],
    [{n: "x" for n in NAMES}, {"a": "gone", ".c": "denied", "d d": "error"}, "", [".gitignore", ".ignore"]],
    [{"a": ["link", "b"], "b": ["link", "a"], "c": "x"}, {"a": "gone"}, "s/t", []],
    [{"a": "x", "b": ["link", "a"], "c": ["link", "a"]}, {"b": "gone"}, "s/t", []]]


def run_loop(inp):
    """What the queue gives: [kind, number of objects] for entries (E), directories (D) or commands (X), or
       whether all processes are idle while the queue is empty"""
    events = list(inp)
    did, want = collections.Counter(), collections.Counter()
    start = types.SimpleNamespace(root="/d")
    parent = Directory(start, "", [])
    serial = iter(range(10 ** 6))

    class Ended(BaseException):
        pass

    def get(*a, **k):
        if not events:
            raise Ended
        e = events.pop(0)
        if isinstance(e, bool):
            idle.append(e)
            raise queue.Empty
        kind, n = e
        names = [f"{kind}{next(serial)}" for _ in range(n)]
        want.update(names)
        if kind == "E":
            return Entries(parent, names)
        return [Directory(start, x, []) for x in names] if kind == "D" else [[x, "arg"] for x in names]
    idle = []
    w = walker(1, [0], False, None, None)
    w.queue.get = get
    w.cache = w.context.cache = Anything()
    stopped = []
    w.context.is_stopping = lambda: bool(stopped)
    w.context.barrier_wait = lambda: idle.pop()
    w.context.set_exitcode = lambda c: None
    w.context.stop = lambda: stopped.append(1)
    w.context.run_exec_process = lambda x: did.update(x[:1])
    w.process_directory = lambda d: did.update([d.relpath])

    def entries(p, es):
        did.update(es if p is parent else ["entries of another directory"])
    w.process_entries = entries
    old = signal.getsignal(signal.SIGINT)
    try:
        w.loop(0)
        ended = False
    except Ended:
        ended = True
    finally:
        signal.signal(signal.SIGINT, old)
    if stopped:
        return "the process stops"
    if did != want:
        return f"not processed: {sorted((want - did).elements())}, surplus: {sorted((did - want).elements())}"
    if ended and True in inp:
        return "the process does not end although all processes are idle"
    if not ended and True not in inp:
        return "the process ends although others are working"
    return None


def gen_loop(rng):
    out = [rng.choice([False, ["E", rng.choice([0, 1, 2, 30])], ["D", rng.choice([1, 2, 11])], ["X", rng.choice([1, 2, 5])]])
        for _ in range(rng.randrange(7))]
    return out + [True] if rng.random() < 0.8 else out


LOOPS = [[], [True], [False, True], [["D", 1], True], [["D", 2], ["E", 2], False, ["X", 3], ["X", 1], True], [["E", 5]]]


def run_tree(inp):
    """[directories, files in each, options]"""
    ndirs, nfiles, argv = inp
    root = harness.scratch("tree")
    want = []
    for i in range(ndirs):
        d = f"d{i}" if i % 3 else f"d{i}/s"
        os.makedirs(os.path.join(root, d))
        if not i % 3:
            want.append(f"d{i}")
        want.append(d)
        for j in range(nfiles):
            with open(os.path.join(root, d, f"f{j}"), "wb"):
                pass
            want.append(f"{d}/f{j}")
    for j in range(nfiles):
        with open(os.path.join(root, f"f{j}"), "wb"):
            pass
        want.append(f"f{j}")
    status, out, err = harness.ff(list(argv), cwd=root)
    got = out.decode().splitlines() if isinstance(out, bytes) else out.splitlines()
    if status or sorted(got) != sorted(want):
        a, b = collections.Counter(got), collections.Counter(want)
        return f"exit status {status}, missing {sorted((b - a).elements())[:5]}, surplus {sorted((a - b).elements())[:5]} {err}"
    return None


TREES = [[25, 4, ["-j2"]], [4, 230, ["-j1"]], [130, 1, ["-j8"]], [3, 150, ["-j4", "type=f", "or", "ignore.ignored=no"]]]


# ------------------------------------------------------------------------------------ contracts
def weight(e):
    """An arbitrary number for every entry; as all numbers are possible, equal sums mean equal entries."""


def weight_dir(d):
    """The same for Directory objects."""


def directory_of(e):
    """The Directory object for an entry."""


def selected(es):
    return sum(weight(e) if not e.excluded and e.matches else 0 for e in es)


def descended(es):
    return sum(weight_dir(directory_of(e)) if not e.excluded and e.dir else 0 for e in es)


def total(es):
    return sum(weight(e) for e in es)


def total_dirs(ds):
    return sum(weight_dir(d) for d in ds)


def plus(a, b):
    return a + b


def eq(a, b):
    return a == b


def inv_matches(all_entries, entries, process, state):
    return selected(all_entries) == total(process) + selected(entries) + state.shared + state.handed


def inv_dirs(all_entries, entries, search, state):
    return descended(all_entries) == total_dirs(search) + descended(entries) + state.shared_dirs + state.queued


def inv_chunks(all_entries, search, state, _i):
    return descended(all_entries) == state.shared_dirs + state.queued + total_dirs(search[_i:])


def inv_handed(all_entries, process, state):
    return selected(all_entries) == total(process) + state.shared + state.handed


def inv_jobs(state):
    return state.queued >= 0 or state.queued <= 0


class World:
    def __init__(self, E):
        import z3
        from pyvc.values import Opaque, SData, SBool, SInt, STR, INT, BOOL
        self.Start = Opaque("Start", attrs={"root": STR, "absroot": STR})
        self.Ignores = Opaque("Ignores")
        self.Dir = Opaque("Dir", attrs={"start": self.Start, "relpath": STR, "ignore_paths": self.Ignores},
            isinstance_=lambda E, v, cls: cls is Directory)
        self.Entry = Opaque("Entry", attrs={"relpath": STR, "ignore_paths": self.Ignores, "dir": BOOL, "matches": BOOL,
            "excluded": BOOL, "name": STR, "abspath": STR, "path": STR},
            methods={"is_dir": lambda E, o: E.getattr(o, "dir")})
        self.mk = z3.Function("directory", self.Start.sort(), z3.StringSort(), self.Ignores.sort(), self.Dir.sort())
        we = z3.Function("weight", self.Entry.sort(), z3.IntSort())
        wd = z3.Function("weight_dir", self.Dir.sort(), z3.IntSort())
        self.start = SData(z3.Const("start", self.Start.sort()), self.Start)
        self.parent = SData(z3.Const("parent", self.Dir.sort()), self.Dir)
        E.assume(E.mkbool(E.getattr(self.parent, "start").t == self.start.t))
        E.model(weight, lambda E, e: SInt(we(e.t)))
        E.model(weight_dir, lambda E, d: SInt(wd(d.t)))
        E.model(directory_of, lambda E, e: self.directory(E, self.start, E.getattr(e, "relpath"),
            E.getattr(e, "ignore_paths")))
        E.model(Directory, lambda E, start, relpath, ignore_paths: self.directory(E, start, relpath, ignore_paths))

    def directory(self, E, start, relpath, ignores):
        from pyvc.values import SData, STR
        return SData(self.mk(start.t, STR.unwrap(E, relpath), ignores.t), self.Dir)


def c_entries(E):
    """Every match is handed on and every directory is queued exactly once."""
    from pyvc.values import Opaque, SData, SObj, STR, INT, BOOL
    import z3
    w = World(E)
    state = SObj(E, types.SimpleNamespace, {"handed": 0, "queued": 0, "shared": 0, "shared_dirs": 0})

    def add(name, v):
        E.setattr(state, name, E.spec(plus, E.getattr(state, name), v))

    def put(E, o, chunk, *a, **k):
        if isinstance(chunk, SObj):
            E.ensure("shared work belongs to the same directory", E.spec(eq, E.getattr(chunk, "parent"), w.parent))
            rest = E.getattr(chunk, "entries")
            add("shared", E.spec(selected, rest))
            add("shared_dirs", E.spec(descended, rest))
        else:
            E.ensure("a chunk of directories is not empty", E.truth(chunk))
            add("queued", E.spec(total_dirs, chunk))

    def process(E, o, chunk):
        add("handed", E.spec(total, chunk))
    E.model(Entries, lambda E, parent, entries: SObj(E, types.SimpleNamespace, {"parent": parent, "entries": entries}))
    none = lambda E, o, *a, **k: None
    thing = lambda n, ty: SData(z3.Const(n, ty.sort()), ty)
    jobs = E.input("jobs", INT)
    E.assume(E.spec(lambda j: j >= 1, jobs))
    Queue = Opaque("Queue", methods={"put": put})
    Processing = Opaque("Processing", methods={"process": process})
    Args = Opaque("Args", attrs={"jobs": lambda E, o: jobs})
    Registry = Opaque("Registry", attrs={"optimize_for_slow_plugins": BOOL})
    idle = [0]

    def idle_processes(E, o):
        idle[0] += 1
        n = E.input(f"idle{idle[0]}", INT)
        E.assume(E.spec(lambda n, j: 0 <= n <= j, n, jobs))
        return n
    Context = Opaque("Context", methods={"idle_processes": idle_processes})
    Excluder = Opaque("Excluder", methods={"test": lambda E, o, e: E.getattr(e, "excluded")})
    Matcher = Opaque("Matcher", methods={"test": lambda E, o, e: E.getattr(e, "matches")})
    Logger = Opaque("Logger", methods={"debug": none, "debug_proc": none, "warning": none})
    obj = SObj(E, FilesystemWalker, {"context": thing("context", Context), "queue": thing("queue", Queue),
        "processing": thing("processing", Processing), "args": thing("args", Args), "registry": thing("registry", Registry),
        "excluder": thing("excluder", Excluder), "matcher": thing("matcher", Matcher), "logger": thing("logger", Logger)})
    entries = E.list_input("entries", w.Entry)
    whole = E.new_list(list(entries.pieces), ty=w.Entry)
    E.ghosts.update(state=state, all_entries=whole)
    E.invariants = [inv_matches, inv_dirs, inv_chunks, inv_handed]
    k, r = E.call_outcome(FilesystemWalker.process_entries, obj, w.parent, entries)
    E.ensure("handling entries never fails", k == "return")
    if k != "return":
        return
    E.ensure("every match is handed on exactly once", E.spec(lambda h, s, es: h + s == selected(es),
        E.getattr(state, "handed"), E.getattr(state, "shared"), whole))
    E.ensure("every directory is queued exactly once", E.spec(lambda q, s, es: q + s == descended(es),
        E.getattr(state, "queued"), E.getattr(state, "shared_dirs"), whole))


class Listing(list):
    """What os.scandir() returns."""

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass


class Paths(list):
    """The ignore files of the directory above."""

    def copy(self):
        r = list(self)
        copied(r)
        return r


def copied(paths):
    pass


def entry_of(d):
    """The entry for something found in a directory."""


def weight_path(p):
    """An arbitrary number for every path."""


def readable(ds):
    return sum(weight(entry_of(d)) if not 1 <= d.failure <= 6 else 0 for d in ds)


def ignore_files_of(ds):
    return sum(weight_path(entry_of(d).abspath) if not 1 <= d.failure <= 6 and d.is_ignore else 0 for d in ds)


def total_paths(ps):
    return sum(weight_path(p) for p in ps)


def inv_scan(entries, _done):
    return total(entries) == readable(_done)


def inv_ignore(ignore_paths, the_parent, _done):
    return total_paths(ignore_paths) == total_paths(the_parent.ignore_paths) + ignore_files_of(_done)


def c_scan(E):
    """Every readable entry is reported exactly once."""
    from pyvc.values import Opaque, SData, SObj, SBool, SInt, STR, INT, BOOL
    import z3
    Start = Opaque("Start", attrs={"root": STR, "absroot": STR})
    Status = Opaque("Status", attrs={"st_mode": INT})
    is_ignore = z3.Function("is_ignore", z3.StringSort(), z3.BoolSort())
    Names = Opaque("Names", methods={"__contains__": lambda E, o, n: SBool(is_ignore(STR.unwrap(E, n)))})
    TheEntry = Opaque("Entry", attrs={"name": STR, "abspath": STR, "dirname": STR})
    of = [None]
    stat_of = [None]

    def direntry_stat(E, o, follow_symlinks=True):
        E.ensure("links are followed exactly if asked for", E.spec(eq, follow_symlinks, follow))
        fail(E, o, (1, 2, 3))
        return SData(stat_of[0](o.t), Status)

    def fail(E, o, codes):
        f = E.getattr(o, "failure")
        for c, exc in zip(codes, (FileNotFoundError, PermissionError, OSError)):
            if E.truth(E.spec(eq, f, c)):
                E.throw(exc, "x")
    Found = Opaque("DirEntry", attrs={"name": STR, "path": STR, "failure": INT, "is_ignore":
        lambda E, o: SBool(is_ignore(STR.unwrap(E, E.getattr(o, "name"))))}, methods={"stat": direntry_stat})
    of[0] = z3.Function("entry_of", Found.sort(), TheEntry.sort())
    stat_of[0] = z3.Function("stat_of", Found.sort(), Status.sort())
    back = z3.Function("origin", Status.sort(), Found.sort())
    we = z3.Function("weight", TheEntry.sort(), z3.IntSort())
    wp = z3.Function("weight_path", z3.StringSort(), z3.IntSort())
    E.model(weight, lambda E, e: SInt(we(e.t)))
    E.model(weight_path, lambda E, p: SInt(wp(STR.unwrap(E, p))))
    E.model(entry_of, lambda E, d: SData(of[0](d.t), TheEntry))
    thing = lambda n, ty: SData(z3.Const(n, ty.sort()), ty)
    start = thing("start", Start)
    follow = E.input("follow", BOOL)
    rel = E.input("relpath", STR)
    before = E.list_input("ignore_paths", STR, cls=Paths)
    copies = []
    E.model(copied, lambda E, paths: copies.append(paths))
    parent = SObj(E, types.SimpleNamespace, {"start": start, "relpath": rel, "ignore_paths": before})
    kept = SObj(E, types.SimpleNamespace, {"ignore_paths": E.new_list(list(before.pieces), ty=STR)})

    def entry(E, st, relpath, status, ignore_paths=None):
        # Found out which of them it is by its status.
        d = SData(back(status.t), Found)
        name = E.getattr(d, "name")
        E.ensure("an entry belongs to the start directory", E.spec(eq, st, start))
        E.ensure("the path of an entry consists of the directory and its name", E.spec(is_joined, relpath, rel, name))
        fail(E, d, (4, 5, 6))
        if copies:
            E.ensure("entries get the list the ignore files are added to", ignore_paths is copies[0])
        e = of[0](d.t)
        E.assume(E.spec(eq, E.getattr(SData(e, TheEntry), "name"), name))
        return SData(e, TheEntry)
    E.model(Entry, entry)
    found = E.list_input("found", Found, cls=Listing)
    x = z3.Const("x", Found.sort())
    E.fact(z3.ForAll([x], back(stat_of[0](x)) == x, patterns=[stat_of[0](x)]))
    root = E.getattr(start, "root")
    fails = E.choice(4)

    def scandir(E, path="."):
        E.ensure("it is the directory itself that is scanned", E.spec(is_joined, path, root, rel))
        if fails:
            E.throw((FileNotFoundError, PermissionError, OSError)[fails - 1], "x")
        return found
    E.model(os.scandir, scandir)
    none = lambda E, o, *a, **k: None
    Args = Opaque("Args", attrs={"follow_symlinks": lambda E, o: follow, "ignore_files": lambda E, o: thing("names", Names)})
    Logger = Opaque("Logger", methods={"debug": none, "debug_proc": none, "warning": none})
    obj = SObj(E, FilesystemWalker, {"args": thing("args", Args), "logger": thing("logger", Logger)})
    E.ghosts.update(the_parent=kept)
    E.invariants = [inv_scan, inv_ignore]
    k, r = E.call_outcome(FilesystemWalker.scan_directory, obj, parent)
    E.ensure("scanning never fails", k == "return")
    if k != "return":
        return
    E.ensure("every readable entry is reported exactly once", E.spec(lambda r, ds: total(r) == readable(ds), r,
        E.new_list([], ty=Found) if fails else found))
    E.ensure("the ignore files of the parent are left alone", E.spec(eq, E.getattr(parent, "ignore_paths"),
        E.getattr(kept, "ignore_paths")))
    if copies and not fails:
        E.ensure("entries get the ignore files of the parent and the ones found", E.spec(lambda p, q, ds: total_paths(p) ==
            total_paths(q) + ignore_files_of(ds), copies[0], E.getattr(kept, "ignore_paths"), found))


def is_joined(path, a, b):
    return path == a + ("" if not a or not b or a == "/" else "/") + b


def c_directory(E):
    """What was found in a directory is processed once."""
    from pyvc.values import Opaque, SData, SObj
    import z3
    w = World(E)
    found = E.list_input("entries", w.Entry)
    calls = []

    def process(E, obj, parent, entries):
        E.ensure("entries are processed for the directory they were found in", E.spec(eq, parent, w.parent))
        E.ensure("exactly the entries found are processed", E.spec(eq, entries, found))
        calls.append(1)

    def scan(E, obj, parent):
        E.ensure("it is the directory itself that is scanned", E.spec(eq, parent, w.parent))
        return found
    E.model(FilesystemWalker.process_entries, process)
    E.model(FilesystemWalker.scan_directory, scan)
    obj = SObj(E, FilesystemWalker, {})
    k, r = E.call_outcome(FilesystemWalker.process_directory, obj, w.parent)
    E.ensure("processing a directory never fails", k == "return")
    E.ensure("entries are processed at most once", len(calls) <= 1)
    if not calls:
        E.ensure("entries are processed if there are any", E.spec(lambda es: len(es) == 0, found))


def work(x):
    """An arbitrary number for every piece of work (entry, directory or command)."""


def total_work(xs):
    return sum(work(x) for x in xs)


def inv_loop(state):
    return state.taken == state.done


def inv_rest(state, _rest):
    return state.taken == state.done + total_work(_rest)


def c_loop(E):
    """What a process takes from the queue it processes exactly once."""
    from pyvc.values import Opaque, SData, SObj, SBool, SInt, STR, INT, BOOL
    import z3
    w = World(E)
    Command = Opaque("Command", isinstance_=lambda E, v, cls: False)
    numbers = {t: z3.Function("work_" + t.name, t.sort(), z3.IntSort()) for t in (w.Dir, w.Entry, Command)}
    E.model(work, lambda E, x: SInt(numbers[x.ty](x.t)))
    state = SObj(E, types.SimpleNamespace, {"taken": 0, "done": 0})

    def add(name, v):
        E.setattr(state, name, E.spec(plus, E.getattr(state, name), v))
    number = [0]

    def get(E, o, *a, **k):
        number[0] += 1
        kind = E.choice(4)
        if kind == 0:
            E.throw(queue.Empty)
        objs = E.list_input(f"objs{number[0]}", (None, w.Entry, w.Dir, Command)[kind])
        add("taken", E.spec(total_work, objs))
        if kind == 1:
            return E.call(Entries, [w.parent, objs], {})
        E.assume(E.spec(lambda xs: len(xs) > 0, objs))
        return objs

    def entries(E, obj, parent, es):
        E.ensure("shared entries are processed for their directory", E.spec(eq, parent, w.parent))
        add("done", E.spec(total_work, es))
    E.model(FilesystemWalker.process_entries, entries)
    E.model(FilesystemWalker.process_directory, lambda E, obj, d: add("done", E.spec(work, d)))
    E.model(FilesystemWalker.process_arguments, lambda E, obj, x: add("done", E.spec(work, x)))
    none = lambda E, o, *a, **k: None
    thing = lambda n, ty: SData(z3.Const(n, ty.sort()), ty)
    any_ = lambda n: lambda E, o, *a, **k: SBool(E.fresh_const(n, z3.BoolSort()))
    Queue = Opaque("Queue", methods={"get": get})
    Args = Opaque("Args", attrs={"profile": lambda E, o: None, "jobs": INT})
    Context = Opaque("Context", methods={"is_stopping": any_("stopping"), "barrier_wait": any_("finished"),
        "set_exitcode": none, "stop": none})
    Cache = Opaque("Cache", methods={"close": none})
    Logger = Opaque("Logger", methods={"debug": none, "debug_proc": none, "warning": none})
    E.model(signal.signal, lambda E, *a: None)
    E.model(traceback.print_exc, lambda E, *a: None)
    obj = SObj(E, FilesystemWalker, {"context": thing("context", Context), "queue": thing("queue", Queue),
        "args": thing("args", Args), "cache": thing("cache", Cache), "logger": thing("logger", Logger)})
    E.ghosts.update(state=state)
    E.invariants = [inv_loop, inv_rest]
    k, r = E.call_outcome(FilesystemWalker.loop, obj, 0)
    E.ensure("a process ends normally", k == "return")
    if k == "return":
        E.ensure("what was taken from the queue was processed exactly once", E.spec(inv_loop, state))


CONTRACTS = [
    Contract("process_entries", c_entries, replay="chunks"),
    Contract("scan_directory", c_scan, replay="scan"),
    Contract("process_directory", c_directory, replay="scan"),
    Contract("loop", c_loop, replay="loop"),
]
CONCRETE = [
    Concrete("chunks", run_entries, gen_entries, directed_entries, weight=3),
    Concrete("scan", run_scan_, gen_scan, SCANS, weight=2),
    Concrete("loop", run_loop, gen_loop, LOOPS),
    Concrete("ff", run_tree, None, TREES, timeout=60),
]
cleanup = harness.cleanup
