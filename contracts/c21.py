"""C21: Caching never changes results."""

import json
import os
import pickle
import sqlite3
import string
import time
import types

from contracts.common import Contract, Concrete, outcome
from contracts import harness
from libff import NoData, cache as cache_module, registry as registry_module
from libff.cache import NODATA, NOTSET, Cache, NullCache
from libff.exceptions import BadPluginError
from libff.registry import Registry


# ------------------------------------------------------------------------------------ concrete runs
def context(path, cls=Cache):
    ctx = types.SimpleNamespace()
    ctx.args = types.SimpleNamespace(cache=path)
    ctx.logger = harness.Log()
    ctx.cache_hits, ctx.cache_misses = Lock(), Lock()
    ctx.cache = cls(ctx)
    return ctx


class Lock:
    value = 0

    def get_lock(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def plugin_class(name, tag=0, **attrs):
    return type(name, (), dict(attrs, name=name, cache_tag=tag, use_cache=True, sql_table_name=f"plugin_{name}_{tag}"))


def plain(v):
    """Values from JSON: lists stand for tuples."""
    return tuple(plain(x) for x in v) if isinstance(v, list) else v


def run_cache(inp):
    """[operations, number of values that are written at once]; paths beginning with @ are below a directory of ours"""
    ops, every = inp
    root = harness.scratch("cache")
    for n in ("e1", "e2", "\udcfe"):
        with open(os.path.join(root, n), "wb"):
            pass
    classes = {n: plugin_class(n) for n in "pq"}

    def opened():
        ctx = context(os.path.join(root, "c.db"))
        c = ctx.cache
        c.commit_every_count = every
        for p in classes.values():
            c.register_plugin(p)
        return c
    c = opened()
    objs = {n: p() for n, p in classes.items()}
    stored, pending = {}, {}
    try:
        for i, op in enumerate(ops):
            what = f"operation {i} of {ops[:i + 1]}"
            if op[0] in ("set", "get"):
                key = op[1], op[2]
                path = op[2].replace("@", root + "/")
            if op[0] == "set":
                tag, value = plain(op[3]), op[4]
                c.set(objs[op[1]], path, tag, NODATA if value == "NODATA" else value)
                pending.setdefault(key, []).append((tag, NODATA if value == "NODATA" else value))
            elif op[0] == "get":
                tag = plain(op[3])
                r = c.get(objs[op[1]], path, tag)
                old = stored.get(key)
                may = [old[1] if old and repr(old[0]) == repr(tag) else NOTSET]
                for t, v in pending.get(key, []):
                    may.append(v if repr(t) == repr(tag) else NOTSET)
                if not any(r is v or r == v and type(r) is type(v) for v in may):
                    return f"{what} gives {r!r} instead of {may!r}"
            else:
                if op[0] == "commit":
                    c.commit()
                elif op[0] == "reopen":
                    c.close()
                    c = opened()
                elif op[0] == "clean":
                    c.commit()
                    c.clean()
                for key, vs in pending.items():
                    stored[key] = vs[-1]
                pending = {}
                if op[0] == "clean":
                    c.close()
                    c = opened()
                    stored = {k: v for k, v in stored.items() if os.path.exists(os.fsencode(k[1].replace("@", root + "/")))}
    finally:
        c.close()
    return None


PATHS = ["@e1", "@e2", "@\udcfe", "@\\udcfe", "@g", "@g_", "@ga", "@g%", "@G", "@ä", "@a\u0308", "@\udcff", "@\\xff", "@ ", "@g\n",
    "@%67", "@.", "@e1/", "@\udcc3\udcff"]
TAGS = [0, 1, -1, 1.5, "1", None, [1, 2], [], True]
VALUES = [0, 1, "", "x", None, [], ["a", 1], {"a": [1]}, {}, "NODATA", "\udcff", False]


def gen_cache(rng):
    paths = rng.sample(PATHS, rng.choice([1, 2, 4, 19]))
    tags = rng.sample(TAGS, rng.choice([1, 2, 3]))
    ops = []
    for _ in range(rng.choice([2, 5, 12, 30])):
        k = rng.choices(["set", "get", "commit", "reopen", "clean"], [5, 6, 1, 1, 1])[0]
        ops.append([k] if k not in ("set", "get") else [k, rng.choice("pq"), rng.choice(paths), rng.choice(tags)] +
            ([rng.choice(VALUES)] if k == "set" else []))
    ops += [["commit"]] + [["get", p, x, t] for p in "pq" for x in paths for t in tags][:40]
    return [ops, rng.choice([1, 2, 3, 500])]


HISTORIES = [
    [[["set", "p", "@\udcff", 1, "a"], ["set", "p", "@\\udcff", 1, "b"], ["commit"], ["get", "p", "@\udcff", 1],
        ["get", "p", "@\\udcff", 1]], 500],
    [[["set", "p", "@\udcff", 1, "a"], ["commit"], ["get", "p", "@\\udcff", 1], ["get", "p", "@\\xff", 1]], 500],
    [[["set", "p", "@e1", 1, "a"], ["set", "p", "@g", 1, "b"], ["set", "q", "@g", 1, "b"], ["set", "q", "@\udcfe", 1, "c"],
        ["clean"], ["get", "p", "@e1", 1], ["get", "p", "@g", 1], ["get", "q", "@g", 1], ["get", "q", "@\udcfe", 1]], 500],
    [[["set", "p", "@e1", 1, "a"], ["set", "p", "@e1", 2, "b"], ["reopen"], ["get", "p", "@e1", 1], ["get", "p", "@e1", 2],
        ["get", "q", "@e1", 2]], 500],
    [[["set", "p", "@e1", 1, "a"], ["commit"], ["set", "p", "@e1", 1, "NODATA"], ["commit"], ["get", "p", "@e1", 1]], 500],
    [[["set", "p", f"@{i}", i, i] for i in range(7)] + [["commit"]] + [["get", "p", f"@{i}", i] for i in range(7)], 3],
    [[["set", "p", f"@g{i}", 1, i] for i in range(40)] + [["set", "p", "@e1", 1, "x"], ["clean"]] +
        [["get", "p", f"@g{i}", 1] for i in range(40)] + [["get", "p", "@e1", 1]], 500],
]


def run_tables(inp):
    """Plugins [name, tag] that are set up one after another with the same database; a new version of a plugin
       begins a new connection."""
    root = harness.scratch("cache")
    path = os.path.join(root, "c.db")
    c = context(path).cache
    versions = {}
    try:
        for i, (name, tag) in enumerate(inp):
            if name in versions:
                c.close()
                c = context(path).cache
            p = plugin_class(name, tag)
            k, r = outcome(c.register_plugin, p)
            if k == "raise":
                return f"setting up {name} {tag} after {inp[:i]} raised {r!r}"
            new = versions.get(name, (None,))[0] != tag
            if new:
                versions[name] = tag, p
                c.set(p(), "/x", 1, [name, tag])
                c.commit()
            for n, (t, q) in versions.items():
                k, r = outcome(c.get, q(), "/x", 1)
                if k == "raise" or r != [n, t]:
                    return f"the data of {n} is {r!r} after setting up {inp[:i + 1]}"
        db = sqlite3.connect(path)
        names = {r[0] for r in db.execute("select name from sqlite_master where type = 'table'")}
        db.close()
        if names != {p.sql_table_name for _, p in versions.values()}:
            return f"the tables are {sorted(names)} after {inp}"
    finally:
        c.close()
    return None


NAMES = ["a", "b", "a_b", "ab", "a1", "a_1", "a_", "_a", "mp3", "mp", "a_b_1", "é"]


def gen_tables(rng):
    names = rng.sample(NAMES, rng.choice([2, 3, 5]))
    return [[rng.choice(names), rng.choice([0, 1, 12, 4294967295])] for _ in range(rng.choice([2, 3, 6, 10]))]


TABLES = [[["a_b", 2], ["a", 1]], [["a", 1], ["a_b", 2], ["a", 3]], [["mp3", 1], ["mp", 3], ["mp3", 2]],
    [["a", 1], ["a", 2], ["a", 1]], [["a_1", 2], ["a", 1]], [["ab", 0], ["a_", 0], ["a", 0]]]


class Thing:
    """A file for the fake plugin."""

    def __init__(self, path, tag, data):
        self.path = self.abspath = path
        self.tag, self.data = tag, data


def fake_plugin(kind):
    def can_handle(self, e):
        return e.data != "unknown"

    def get_tag(self, e):
        return e.tag

    def cache_(self, e):
        self.prepared += 1
        if e.data is None:
            raise NoData
        return {"v": list(e.data) if isinstance(e.data, list) else e.data}

    def process(self, e, cached):
        data = cached if kind != "plain" else {"v": e.data}
        if data is None or data["v"] is None:
            raise NoData
        if data["v"] == "late" or data["v"] == "later" and self.run < 2:
            raise NoData
        r = {"a": json.dumps(data["v"])}
        if isinstance(data["v"], list):
            data["v"].append("changed")
        data["w"] = 1
        return r if kind != "pairs" else iter(r.items())
    return plugin_class("fake", use_cache=kind != "plain", can_handle=can_handle, get_entry_cache_tag=get_tag,
        cache=cache_, process=process, prepared=0, run=0, attributes=[])


def run_registry(inp):
    """[kind of plugin, lookups [path, tag, data]]: the data of an entry does not change unless the tag does"""
    kind, lookups = inp
    root = harness.scratch("cache")
    cls = fake_plugin(kind)
    cls.use_cache = kind != "plain"

    def registry(cache):
        ctx = context(os.path.join(root, "c.db"), Cache if cache else NullCache)
        r = Registry.__new__(Registry)
        r.context = ctx
        r.logger, r.cache = ctx.logger, ctx.cache
        r.attributes = {}
        r.get_attribute_type = lambda a: types.SimpleNamespace(check_type=lambda v: True, name="x")
        r.plugins = {"fake": cls()}
        r.plugins["fake"].run = cache
        if cls.use_cache:
            ctx.cache.register_plugin(cls)
        return r
    truth = {}
    for i in range(3):
        r = registry(i)
        for path, tag, data in lookups:
            # "later": the plugin has no data in the first two runs, for reasons of its own
            data = truth.setdefault((path, json.dumps(tag)), data)
            want = {} if data in (None, "unknown", "late") or data == "later" and i < 2 else {"a": json.dumps(data)}
            e = Thing(path, plain(tag), data)
            for _ in range(2):
                k, got = outcome(r.get_data, e, "fake")
                if k == "raise" or got != want:
                    return f"run {i}: {path} with tag {tag} has {got!r} instead of {want!r} in {lookups}"
            if i == 2 and kind != "plain" and r.plugins["fake"].prepared:
                return f"{path} with tag {tag} was not remembered in {lookups}"
        r.cache.commit() if i else None
        r.cache.close()
        # In the next run there are only the values stored last for a path.
        lookups = list({p: [p, t, d] for p, t, d in lookups}.values())
    return None


def gen_registry(rng):
    paths = rng.sample(PATHS, rng.choice([1, 2, 4]))
    return [rng.choice(["plain", "dict", "pairs", "pairs"]), [[rng.choice(paths), rng.choice(TAGS[:3]),
        rng.choice([None, "unknown", "late", "later", 1, "x", [1], []])] for _ in range(rng.choice([1, 2, 5, 9]))]]


REGISTRY = [["pairs", [["/x", 1, [1]]]], ["dict", [["/x", 1, [1]], ["/y", 1, None], ["/z", 1, "unknown"], ["/l", 1, "late"]]], ["dict", [["/x", 1, "later"]]],
    ["plain", [["/x", 1, [1]]]], ["pairs", [["/\udcff", 1, "a"], ["/\\udcff", 1, "b"]]],
    ["pairs", [["/x", 1, "a"], ["/x", 2, "b"]]], ["pairs", [["/x", 1, None], ["/x", 2, "b"], ["/x", 3, "unknown"]]]]

PLUGIN = '''
from libff.plugin import *
class Cached(Plugin):
    use_cache = True
    cache_tag = 1
    attributes = [("first", String, "x"), ("length", Number, "x")]
    def can_handle(self, entry):
        return entry.is_file() and not entry.name.endswith(".no")
    def get_entry_cache_tag(self, entry):
        return entry.status.st_mtime_ns
    def cache(self, entry):
        with open(entry.path, "rb") as f:
            data = f.read()
        if not data:
            raise NoData
        return data.decode("latin-1")
    def process(self, entry, cached):
        yield "length", len(cached)
        if cached != "-":
            yield "first", cached[0]
class Cached_more(Cached):
    cache_tag = 2
    attributes = [("firstm", String, "x")]
    def process(self, entry, cached):
        return [("firstm", cached[:1] + "m")]
'''


def rows(path):
    db = sqlite3.connect(path)
    try:
        return {(t, os.fsencode(p)) for t, in db.execute("select name from sqlite_master where type = 'table'").fetchall()
            for p, in db.execute(f"select path from {t}")}
    finally:
        db.close()


def run_ff(inp):
    """[contents of the files, changes, clean]: the output is the same with and without cache"""
    files, changes, clean = inp
    root = harness.scratch("ff")
    plugins = harness.scratch("plugins")
    with open(os.path.join(plugins, "cached.py"), "w") as f:
        f.write(PLUGIN)
    harness.tree(root, files)
    db = os.path.join(plugins, "c.db")
    argv = ["-j2", "-Spath", "--sep", " ", "-opath,cached.first,cached.length", "type=f", "cached.length>=0", "or",
        "cached_more.firstm~.", "or", "name=b"]
    env = {"FF_PLUGIN_DIRS": plugins}
    for i in range(4):
        a = harness.ff(["--no-cache"] + argv, cwd=root, env=env)
        b = harness.ff(["--cache", db] + argv, cwd=root, env=env)
        if a != b or a[0]:
            return f"run {i}: {b!r} with the cache, {a!r} without"
        if i == 1:
            for k, v in changes.items():
                if v is None:
                    os.unlink(os.path.join(root, k))
                else:
                    harness.tree(root, {k: v})
        if i == 2 and clean:
            before = rows(db)
            r = harness.ff(["--cache", db, "--clean-cache"], cwd=root, env=env)
            if r[0]:
                return f"cleaning the cache fails: {r!r}"
            want = {(t, p) for t, p in before if os.path.exists(p)}
            if rows(db) != want:
                return f"after cleaning the cache contains {rows(db)} instead of {want}"
    return None


FFS = [[{"a": "xy", "b": "", "c.no": "z", "d/e": "-"}, {"a": "abc", "b": "1"}, True],
    [{"f\udcff": "xy", "f\\udcff": "ab"}, {"f\udcff": None}, True]]


def run_api(inp):
    """Searches with different caches in the same process."""
    root = harness.scratch("api")
    plugins = harness.scratch("plugins")
    with open(os.path.join(plugins, "cached.py"), "w") as f:
        f.write(PLUGIN)
    harness.tree(root, {"a": "xy", "b": "-"})
    code = f"""
import os
from libff.find import Find
for c in {inp!r}:
    print(sorted(e["name"] for e in Find("cached.length>1", directories=[{root!r}], jobs=1,
        cache=c and os.path.join({plugins!r}, c))))
"""
    st, out, err = harness.ff([], plugins, env={"FF_PLUGIN_DIRS": plugins}, program=["-c", code])
    if st or out != "['a']\n" * len(inp):
        return f"searches with the caches {inp} give {out!r} {err[-300:]}"
    return None


# ------------------------------------------------------------------------------------ contracts
class Rows(list):
    """What a query gives."""

    def fetchall(self):
        return list(self)

    def fetchone(self):
        return self[0] if self else None


class VerifPlugin:
    name = "vp"
    use_cache = True
    sql_table_name = "plugin_vp_7"


class VerifPlugin2:
    name = "vp_8"
    use_cache = True
    sql_table_name = "plugin_vp_8_9"


def eq(a, b):
    return a == b


def plus(a, b):
    return a + b


class Terms:
    """Paths, tags and values, and what is written into the database for them."""

    def __init__(self, E):
        import z3
        from pyvc.values import Opaque, SData, SStr, STR
        self.Blob = Opaque("Blob")
        self.Obj = Opaque("Obj")
        S = z3.StringSort()
        self.enc = z3.Function("fsencode", S, self.Blob.sort())
        self.dec = z3.Function("fsdecode", self.Blob.sort(), S)
        self.dump = z3.Function("dumps", self.Obj.sort(), self.Blob.sort())
        self.load = z3.Function("loads", self.Blob.sort(), self.Obj.sort())

        def fsencode(E, p):
            t = STR.unwrap(E, p)
            b = self.enc(t)
            E.fact(self.dec(b) == t)
            return SData(b, self.Blob)

        def dumps(E, o, *a, **k):
            b = self.dump(o.t)
            E.fact(self.load(b) == o.t)
            return SData(b, self.Blob)
        E.model(os.fsencode, fsencode)
        E.model(pickle.dumps, dumps)
        E.model(pickle.loads, lambda E, b, *a, **k: SData(self.load(b.t), self.Obj))
        E.model(time.sleep, lambda E, *a: None)
        self.clock = 0

        def now(E):
            self.clock += 1
            return E.input(f"time{self.clock}", __import__("pyvc.values").values.INT)
        E.model(time.time, now)
        none = lambda E, o, *a, **k: None
        self.Logger = Opaque("Logger", methods={"debug": none, "warning": none})
        self.logger = SData(z3.Const("logger", self.Logger.sort()), self.Logger)


def cache_object(E, t, conn, **fields):
    from pyvc.values import SObj, MDict, INT
    f = {"conn": conn, "logger": t.logger, "num_cached_rows": 0, "last_commit": E.input("last", INT),
        "cached_rows": MDict(E, {}), "registered": MDict(E, {}), "hits": 0, "misses": 0}
    f.update(fields)
    return SObj(E, Cache, f)


def statement(sql):
    """The kind of a statement, the table, and the columns of the condition."""
    import re
    if not isinstance(sql, str):
        from pyvc.values import Unsupported
        raise Unsupported("an SQL statement that is not known")
    m = re.fullmatch(r"\s*select\s+(data|path)\s+from\s+(\w+)(?:\s+where\s+(\w+) = \?(?: and (\w+) = \?)?)?\s*", sql, re.I)
    if m:
        return "select " + m[1].lower(), m[2], [c.lower() for c in m.groups()[2:] if c]
    m = re.fullmatch(r"\s*insert or replace into\s+(\w+)\s+values\s*\(\?, ?\?, ?\?\)\s*", sql, re.I)
    if m:
        return "insert", m[1], []
    m = re.fullmatch(r"\s*delete from\s+(\w+)\s+where\s+path = \?\s*", sql, re.I)
    if m:
        return "delete", m[1], ["path"]
    if re.fullmatch(r"\s*vacuum\s*", sql, re.I):
        return "vacuum", None, []
    if re.fullmatch(r"\s*select\s+name\s+from\s+sqlite_master\s+where\s+type = 'table'\s*", sql, re.I):
        return "tables", None, []
    from pyvc.values import Unsupported
    raise Unsupported(f"SQL statement {sql!r}")


def c_lookup(E):
    """A lookup after a value was stored."""
    from pyvc.values import Opaque, SData, SObj, SBool, STR, BOOL, MDict
    import z3
    t = Terms(E)
    # What was in the database before, for every path.
    S = z3.StringSort()
    has = z3.Function("has", S, z3.BoolSort())
    tag_of = z3.Function("tag_of", S, t.Obj.sort())
    value_of = z3.Function("value_of", S, t.Obj.sort())
    new = []
    committed = []
    table = VerifPlugin.sql_table_name

    def execute(E, o, sql, params=()):
        kind, name, cols = statement(sql)
        if kind != "select data" or name != table:
            E.ensure("values are looked up in the table of the plugin", False)
            return E.new_list([], cls=Rows)
        given = dict(zip(cols, E.B.iter_pieces(E, params)))
        for col in cols:
            E.ensure("values are looked up by path and tag", col in ("path", "tag"))
        if "path" not in given:
            E.ensure("values are looked up by path", False)
            return E.new_list([], cls=Rows)
        key = given["path"].t
        for p, g, d in reversed(new):
            if E.branch(p == key):
                row = (g, d)
                break
        else:
            path = t.dec(key)
            if not E.branch(has(path)):
                return E.new_list([], cls=Rows)
            row = t.dump(tag_of(path)), t.dump(value_of(path))
            E.fact(t.load(row[0]) == tag_of(path))
            E.fact(t.load(row[1]) == value_of(path))
        if "tag" in given and not E.branch(row[0] == given["tag"].t):
            return E.new_list([], cls=Rows)
        return E.new_list([(SData(row[1], t.Blob),)], cls=Rows)

    def executemany(E, o, sql, rows):
        kind, name, _ = statement(sql)
        E.ensure("values are stored in the table of the plugin", kind == "insert" and name == table)
        for row in E.B.iter_pieces(E, rows):
            new.append([x.t for x in E.B.iter_pieces(E, row)])

    def commit(E, o):
        committed.append(len(new))
    Conn = Opaque("Conn", methods={"execute": execute, "executemany": executemany, "commit": commit})
    obj = cache_object(E, t, SData(z3.Const("conn", Conn.sort()), Conn))
    plugin = SObj(E, VerifPlugin, {})
    path, path2 = E.input("path", STR), E.input("path2", STR)
    thing = lambda n: SData(z3.Const(n, t.Obj.sort()), t.Obj)
    tag, tag2, value = thing("tag"), thing("tag2"), thing("value")
    k, r = E.call_outcome(Cache.set, obj, plugin, path, tag, value)
    E.ensure("storing never fails", k == "return")
    k, r = E.call_outcome(Cache.commit, obj)
    E.ensure("writing never fails", k == "return")
    E.ensure("what was written is committed", committed and committed[-1] == len(new) or not new)
    E.ensure("nothing remains to be written", E.spec(eq, E.getattr(obj, "num_cached_rows"), 0))
    k, r = E.call_outcome(Cache.get, obj, plugin, path2, tag2)
    E.ensure("a lookup never fails", k == "return")
    if k != "return":
        return
    p1, p2 = STR.unwrap(E, path), STR.unwrap(E, path2)
    if r is NOTSET:
        E.ensure("a value that was stored is found", E.mkbool(z3.Not(z3.If(p1 == p2, tag.t == tag2.t, z3.And(has(p2),
            tag_of(p2) == tag2.t)))))
        E.ensure("a miss is counted", E.spec(lambda h, m: h == 0 and m == 1, E.getattr(obj, "hits"), E.getattr(obj, "misses")))
        return
    E.ensure("a lookup gives the value stored last for the path and the tag", isinstance(r, SData))
    E.ensure("a hit is counted", E.spec(lambda h, m: h == 1 and m == 0, E.getattr(obj, "hits"), E.getattr(obj, "misses")))
    if isinstance(r, SData):
        E.ensure("a lookup gives the value stored last for the path and the tag", E.mkbool(z3.If(p1 == p2, z3.And(tag.t ==
            tag2.t, r.t == value.t), z3.And(has(p2), tag_of(p2) == tag2.t, r.t == value_of(p2)))))


def c_commit(E):
    """Everything is written, however often the database is locked."""
    from pyvc.values import Opaque, SData, SObj, MDict, INT, TupT
    import z3
    t = Terms(E)
    row = TupT((t.Blob, t.Blob, t.Blob))
    pending = {p: E.list_input("rows_" + p.name, row) for p in (VerifPlugin, VerifPlugin2)}
    log = []
    names = {p.sql_table_name: p for p in pending}

    def executemany(E, o, sql, rows):
        kind, name, _ = statement(sql)
        E.ensure("values are stored in the table of a plugin", kind == "insert" and name in names)
        fails = E.choice(3)
        if fails:
            E.throw(sqlite3.OperationalError, ["database is locked", "disk I/O error"][fails - 1])
        if name in names:
            p = names[name]
            E.ensure("all values of a plugin are written", E.spec(eq, rows, E.ghosts["pending_" + p.name]))
            log.append(p.name)

    def commit(E, o):
        if E.choice(2):
            E.throw(sqlite3.OperationalError, "database is locked")
        log.append("commit")
    Conn = Opaque("Conn", methods={"executemany": executemany, "commit": commit})
    obj = cache_object(E, t, SData(z3.Const("conn", Conn.sort()), Conn), num_cached_rows=E.input("count", INT),
        cached_rows=MDict(E, dict(pending)))
    E.ghosts.update({"pending_" + p.name: E.new_list(list(v.pieces), ty=row) for p, v in pending.items()})
    k, r = E.call_outcome(Cache.commit, obj)
    if k == "raise":
        E.ensure("only errors of the database are reported", E.is_exc(r, sqlite3.OperationalError))
        return
    # What is in the log was done in the last turn of the loop that tries again, or outside of it.
    E.ensure("all values are written", all(p.name in log and "commit" in log[log.index(p.name):] for p in pending))
    E.ensure("nothing remains to be written", E.spec(eq, E.getattr(obj, "num_cached_rows"), 0))
    E.ensure("nothing remains to be written", E.spec(lambda d: len(d) == 0, E.getattr(obj, "cached_rows")))


def c_set(E):
    """A value that is stored is added to the pending ones."""
    from pyvc.values import Opaque, SData, SObj, MDict, INT, STR, TupT
    import z3
    t = Terms(E)
    row = TupT((t.Blob, t.Blob, t.Blob))
    rows = E.list_input("rows", row)
    there = E.choice(2)
    if not there:
        rows = E.new_list([], ty=row)
    old = E.new_list(list(rows.pieces), ty=row)
    other = E.list_input("others", row)
    other_old = E.new_list(list(other.pieces), ty=row)
    committed = []
    plugin, plugin2 = SObj(E, VerifPlugin, {}), SObj(E, VerifPlugin2, {})
    n = E.input("count", INT)
    pending = MDict(E, {plugin: rows, plugin2: other} if there else {plugin2: other})
    obj = cache_object(E, t, None, num_cached_rows=n, cached_rows=pending)
    path = E.input("path", STR)
    thing = lambda n: SData(z3.Const(n, t.Obj.sort()), t.Obj)
    tag, value = thing("tag"), thing("value")
    new = tuple(SData(x, t.Blob) for x in (t.enc(path.t), t.dump(tag.t), t.dump(value.t)))

    def stored():
        E.ensure("the value is added to the pending ones", E.spec(lambda d, p, rows: d[p] == rows, pending, plugin,
            E.new_list(list(old.pieces) + [new], ty=row)))
        E.ensure("the values of other plugins are left alone", E.spec(lambda d, p, rows: d[p] == rows, pending, plugin2,
            other_old))

    def commit(E, o):
        committed.append(1)
        stored()
        E.setattr(obj, "num_cached_rows", 0)
    E.model(Cache.commit, commit)
    k, r = E.call_outcome(Cache.set, obj, plugin, path, tag, value)
    E.ensure("storing never fails", k == "return")
    if not committed:
        stored()
        E.ensure("values that are pending are counted", E.spec(lambda a, n: a == n + 1, E.getattr(obj, "num_cached_rows"), n))


def c_close(E):
    """What is pending is written at the latest on close."""
    from pyvc.values import Opaque, SData, SObj, INT
    import z3
    t = Terms(E)
    log = []
    Conn = Opaque("Conn", methods={"close": lambda E, o: log.append("close")})
    E.model(Cache.commit, lambda E, o: log.append("commit"))
    n, hits, misses = E.input("count", INT), E.input("hits", INT), E.input("misses", INT)
    E.assume(E.spec(lambda n: n >= 0, n))
    total = [SObj(E, Lock, {"value": 0}) for _ in range(2)]
    obj = cache_object(E, t, SData(z3.Const("conn", Conn.sort()), Conn), num_cached_rows=n, hits=hits, misses=misses,
        context=SObj(E, types.SimpleNamespace, {"cache_hits": total[0], "cache_misses": total[1]}))
    k, r = E.call_outcome(Cache.close, obj)
    E.ensure("closing never fails", k == "return")
    E.ensure("the connection is closed at the end", log and log[-1] == "close")
    E.ensure("what is pending is written", E.spec(lambda n, c: c or n == 0, n, "commit" in log))
    E.ensure("hits and misses are counted", E.spec(lambda a, b, h, m: a == h and b == m, E.getattr(total[0], "value"),
        E.getattr(total[1], "value"), hits, misses))


def gone(rows):
    return sum(0 if exists(r) else weight(r) for r in rows)


def exists(path):
    """Whether a file exists."""


def weight(path):
    """An arbitrary number for every path."""


def inv_clean(state, _done):
    return state.deleted == state.base + sum(0 if exists(r[0]) else weight(r[0]) for r in _done)


def inv_listed(missing, _done):
    return sum(weight(r[0]) for r in missing) == sum(0 if exists(r[0]) else weight(r[0]) for r in _done)


def c_clean(E):
    """Exactly the rows of files that do not exist are removed."""
    from pyvc.values import Opaque, SData, SObj, SBool, SInt, TupT
    import z3
    t = Terms(E)
    row = TupT((t.Blob,))
    tables = {n: E.list_input("rows_" + n, row, cls=Rows) for n in ("plugin_vp_7", "plugin_vp_8_9")}
    there = z3.Function("exists", t.Blob.sort(), z3.BoolSort())
    weights = {n: z3.Function("weight_" + n, t.Blob.sort(), z3.IntSort()) for n in tables}
    current = ["plugin_vp_7"]
    E.model(os.path.exists, lambda E, p: SBool(there(p.t)))
    E.model(os.path.lexists, lambda E, p: SBool(there(p.t)))
    E.model(exists, lambda E, p: SBool(there(p.t)))
    E.model(weight, lambda E, p: SInt(weights[current[0]](p.t)))
    state = SObj(E, types.SimpleNamespace, {"deleted": 0, "base": 0, "open": False})

    def execute(E, o, sql, params=()):
        kind, name, cols = statement(sql)
        if kind == "tables":
            return E.new_list([(n,) for n in tables], cls=Rows)
        if kind == "vacuum":
            if E.truth(E.getattr(state, "open")):
                E.throw(sqlite3.OperationalError, "cannot VACUUM from within a transaction")
            return E.new_list([], cls=Rows)
        if kind == "select path" and not cols:
            current[0] = name
            E.setattr(state, "base", E.getattr(state, "deleted"))
            return E.new_list(list(tables[name].pieces), cls=Rows, ty=row)
        if kind == "delete":
            E.setattr(state, "open", True)
            w = weights[name](next(iter(E.B.iter_pieces(E, params))).t)
            E.setattr(state, "deleted", E.spec(plus, E.getattr(state, "deleted"), SInt(w)))
            return E.new_list([], cls=Rows)
        from pyvc.values import Unsupported
        raise Unsupported(f"SQL statement {sql!r}")

    def executemany(E, o, sql, rows):
        kind, name, cols = statement(sql)
        if kind != "delete":
            from pyvc.values import Unsupported
            raise Unsupported(f"SQL statement {sql!r}")
        current[0] = name
        E.setattr(state, "open", True)
        E.setattr(state, "deleted", E.spec(plus, E.getattr(state, "deleted"), E.spec(lambda rows: sum(weight(r[0]) for r in
            rows), rows)))

    def commit(E, o):
        E.setattr(state, "open", False)
    Conn = Opaque("Conn", methods={"execute": execute, "commit": commit, "executemany": executemany})
    obj = cache_object(E, t, SData(z3.Const("conn", Conn.sort()), Conn))
    E.ghosts.update(state=state)
    E.invariants = [inv_clean, inv_listed]
    k, r = E.call_outcome(Cache.clean, obj)
    E.ensure("cleaning never fails", k == "return")
    if k != "return":
        return
    total = 0
    for n, rows in tables.items():
        current[0] = n
        total = E.spec(plus, total, E.spec(lambda rows: sum(0 if exists(r[0]) else weight(r[0]) for r in rows), rows))
    E.ensure("exactly the rows of files that do not exist are removed", E.spec(eq, E.getattr(state, "deleted"), total))
    E.ensure("the changes are committed", E.spec(eq, E.getattr(state, "open"), False))


def c_protocol(E):
    """What a plugin is asked for and what is stored."""
    from pyvc.values import Opaque, SData, SObj, SBool, STR, BOOL, MDict
    import z3
    t = Terms(E)
    thing = lambda n: SData(z3.Const(n, t.Obj.sort()), t.Obj)
    abspath = E.input("abspath", STR)
    Entry = Opaque("Entry", attrs={"abspath": lambda E, o: abspath, "path": STR})
    entry = SData(z3.Const("entry", Entry.sort()), Entry)
    tag, prepared, remembered = thing("tag"), thing("prepared"), thing("remembered")
    can, use = E.input("can_handle", BOOL), E.input("use_cache", BOOL)
    log = []
    fails = E.choice(3)         # the plugin has no data: not at all, when it prepares it or when it gives it
    found = E.choice(3)         # the cache has nothing, remembers that there is nothing, or has a value
    value = E.input("value", STR)
    is_entry = lambda E, e: E.ensure("a plugin is asked about the entry", E.spec(eq, e, entry))

    def can_handle(E, o, e):
        is_entry(E, e)
        return can

    def get_tag(E, o, e):
        is_entry(E, e)
        return tag

    def prepare(E, o, e):
        is_entry(E, e)
        log.append("prepare")
        if fails == 1:
            E.throw(NoData)
        return prepared

    def process(E, o, e, cached=None):
        is_entry(E, e)
        log.append("process")
        log.append(cached)
        if fails == 2:
            E.throw(NoData)
        return MDict(E, {"a": value})

    def get(E, o, p, path, tg):
        E.ensure("a value is looked up for the plugin, the path and the tag of the entry", E.spec(lambda a, b, c, d, e, f: a == b and
            c == d and e == f, p, plugin, path, abspath, tg, tag))
        log.append("get")
        return (NOTSET, NODATA, remembered)[found]

    def set_(E, o, p, path, tg, v):
        E.ensure("a value is stored for the plugin, the path and the tag of the entry", E.spec(lambda a, b, c, d, e, f: a == b and
            c == d and e == f, p, plugin, path, abspath, tg, tag))
        log.append("set")
        log.append(v)
    ThePlugin = Opaque("Plugin", attrs={"use_cache": lambda E, o: use, "name": lambda E, o: "fake"},
        methods={"can_handle": can_handle, "get_entry_cache_tag": get_tag, "cache": prepare, "process": process})
    plugin = SData(z3.Const("plugin", ThePlugin.sort()), ThePlugin)
    TheCache = Opaque("Cache", methods={"get": get, "set": set_})
    yes = Opaque("Type", attrs={"name": STR}, methods={"check_type": lambda E, o, v: True})
    E.model(Registry.get_attribute_type, lambda E, o, a: SData(z3.Const("type", yes.sort()), yes))
    obj = SObj(E, Registry, {"cache": SData(z3.Const("cache", TheCache.sort()), TheCache), "logger": t.logger,
        "plugins": MDict(E, {"fake": plugin})})
    k, r = E.call_outcome(Registry.get_data.__wrapped__, obj, entry, "fake")
    E.ensure("missing data is no error", k == "return")
    if k != "return":
        return
    handled, cached = E.truth(can), E.truth(use)
    want, data = [], False
    if handled:
        given = None
        if cached:
            want = ["get"]
            given = (None, NODATA, remembered)[found]
            if found == 0:
                given = NODATA if fails == 1 else prepared
                want += ["prepare", "set", given]
        if given is not NODATA:
            want += ["process", given]
            data = fails != 2
    E.ensure("the plugin and the cache are asked as they should", len(log) == len(want))
    for a, b in zip(log, want):
        E.ensure("the plugin and the cache are asked as they should", E.spec(eq, a, b) if isinstance(a, SData) and
            isinstance(b, SData) else a is b or isinstance(a, str) and a == b)
    E.ensure("without data there are no attributes", E.spec(lambda r, n: len(r) == n, r, 1 if data else 0))
    if data:
        E.ensure("the attributes are the ones of the plugin", E.spec(lambda r, v: r["a"] == v, r, value))


def c_attribute(E):
    """An attribute is the one of the entry or of the data of its plugin."""
    from pyvc.values import Opaque, SData, SObj, STR, MDict
    import z3
    value, other = E.input("value", STR), E.input("other", STR)
    name = "a"
    plugin = ("file", "fake")[E.choice(2)]
    Entry = Opaque("Entry", methods={"get_attribute": lambda E, o, n: value if n == name else other})
    entry = SData(z3.Const("entry", Entry.sort()), Entry)
    there = E.choice(2)

    def get_data(E, obj, e, p):
        E.ensure("the data is the one of the plugin for the entry", E.spec(eq, e, entry))
        E.ensure("the data is the one of the plugin for the entry", p == plugin)
        return MDict(E, {"b": other, "a": value} if there else {"b": other})
    obj = SObj(E, Registry, {})
    E.setattr(obj, "get_data", None)
    E.model(Registry.get_data, get_data)
    obj = SObj(E, Registry, {})
    k, r = E.call_outcome(Registry.get_attribute, obj, entry, registry_module.Attribute(plugin, name))
    if plugin == "file" or there:
        E.ensure("an attribute is found", k == "return")
        if k == "return":
            E.ensure("an attribute has its value", E.spec(eq, r, value))
    else:
        E.ensure("an attribute that is missing is reported", k == "raise" and E.is_exc(r, KeyError))


CONTRACTS = [
    Contract("lookup", c_lookup, replay="cache"),
    Contract("set", c_set, replay="cache"),
    Contract("commit", c_commit, replay="cache"),
    Contract("close", c_close, replay="cache"),
    Contract("clean", c_clean, replay="cache"),
    Contract("get_data", c_protocol, replay="registry"),
    Contract("get_attribute", c_attribute, replay="registry"),
]
CONCRETE = [
    Concrete("cache", run_cache, gen_cache, HISTORIES, weight=3),
    Concrete("tables", run_tables, gen_tables, TABLES),
    Concrete("registry", run_registry, gen_registry, REGISTRY, weight=2),
    Concrete("ff", run_ff, None, FFS, timeout=60),
    Concrete("api", run_api, None, [["c1", "c2"], [None, "c1", None], ["c1", "c1"]], timeout=60),
]
cleanup = harness.cleanup
