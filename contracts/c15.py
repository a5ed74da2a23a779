"""C15: --count."""

import collections
import contextlib
import functools
import io
import json
import os

from contracts.common import Contract, Concrete, outcome
from contracts import harness
from pyvc.spec import foldl
from libff import type as types
from libff.field import CountFields, Field
from libff.processing import CollectiveMixin

TYPES = {"str": types.String, "path": types.Path, "num": types.Number, "size": types.Size,
    "time": types.Time, "dur": types.Duration, "mode": types.Mode, "flag": types.Boolean,
    "kind": types.FileType}
TOTALLED = ("size", "dur")


# ------------------------------------------------------------------------------------ concrete runs
def run(inp):
    """inp: [fields, json, chunks of rows]"""
    fields, form, chunks = inp
    ctx = harness.context(json=form)
    ctx.args.count = CountFields(ctx, ["f_" + f for f in fields])

    class Holder(CollectiveMixin):
        def __init__(self):
            self.walker = None
            super().__init__(ctx)

        args = property(lambda self: ctx.args, lambda self, v: None)
        registry = property(lambda self: ctx.registry, lambda self, v: None)
        logger = property(lambda self: ctx.logger, lambda self, v: None)
        walker = property(lambda self: None, lambda self, v: None)
    k, h = outcome(Holder)
    if k == "raise":
        raise h
    n = 0
    rows = []
    out = io.StringIO()
    try:
        for chunk in chunks:
            entries = []
            for row in chunk:
                n += 1
                rows.append(row)
                entries.append(harness.FakeEntry({"f_" + a: v for a, v in row.items()},
                    path=f"e{n}", name=f"e{n}", abspath=f"/e{n}"))
            k, r = outcome(h.collect_count, entries)
            if k == "raise":
                return f"counting failed with {r!r}"
        with contextlib.redirect_stdout(out):
            k, r = outcome(h.print_count)
        if k == "raise":
            return f"printing the counts failed with {r!r}"
    finally:
        h.out_queue.close()
    want = {"_total": len(rows)}
    for f in fields:
        name, _, mod = f.partition(":")
        values = [row[name] for row in rows if name in row]
        if not values:
            continue
        fmt = lambda v: TYPES[name].output(ctx.args, mod or None, v)
        if name in TOTALLED:
            v = sum(values)
            want["f_" + name] = fmt(v) if mod else v
        else:
            want["f_" + name] = dict(collections.Counter(map(fmt, values)))
    if form:
        k, got = outcome(json.loads, out.getvalue())
        if k == "raise" or got != want:
            return f"reported {out.getvalue()!r}, not {want}"
        return None
    lines = []
    for k, v in want.items():
        lines += [f"{k}[{a}]={b}" for a, b in v.items()] if isinstance(v, dict) else [f"{k}={v}"]
    got = out.getvalue()
    if sorted(got.split("\n")) != sorted("\n".join(lines + [""]).split("\n")):
        return f"reported {got!r}, not {lines}"
    return None


VALUES = {str: ["", "a", "b", "A", "1", "01", "10", "²", "٣", "x=y", "a]", "ä", "\udcff", "a\nb"],
    int: [0, 1, 2, 59, 60, 61, 1000, 1023, 1024, 10 ** 9], bool: [True, False]}


def gen(rng):
    names = [rng.choice(list(TYPES)) for _ in range(rng.choice([1, 1, 2, 3]))]
    names = list(dict.fromkeys(names))
    fields = []
    for n in names:
        t = TYPES[n]
        mods = ["", "", ":h"] + ([":x", ":o"] if n not in ("str", "path", "flag", "kind") else [])
        fields.append(n + rng.choice(mods))
    if rng.random() < .2:
        fields.append(rng.choice(fields))
    chunks = []
    for _ in range(rng.randint(0, 4)):
        chunk = []
        for _ in range(rng.choice([0, 1, 1, 2, 5])):
            row = {}
            for n in names:
                if rng.random() < .7:
                    row[n] = rng.choice(VALUES[str if n in ("str", "path", "kind") else bool if n ==
                        "flag" else int])
            chunk.append(row)
        chunks.append(chunk)
    return [fields, rng.choice([None, "json"]), chunks]


DIRECTED = [[["str"], f, []] for f in (None, "json")] + [[["size", "kind"], f, c] for f in (None,
    "json") for c in ([[]], [[{}]], [[{"size": 1, "kind": "file"}], [{"size": 2}], [{"kind":
    "file"}, {"kind": "directory", "size": 3}]])] + [
    [["str"], None, [[{"str": "a"}, {"str": "1"}, {"str": "²"}, {"str": "10"}, {"str": "9"}]]],
    [["time:h"], None, [[{"time": 0}], [{"time": 1}, {"time": 0}]]],
    [["size", "size"], None, [[{"size": 3}], [{"size": 4}]]],
    [["size:h", "dur:h"], "json", [[{"size": 3}], [{"size": 4000, "dur": 61}]]],
    [["num"], None, [[{"num": 0}, {"num": 10}, {"num": 9}, {}]]],
    [["flag"], "json", [[{"flag": True}, {"flag": False}, {}], [{"flag": True}]]]]


def run_ff(inp):
    files, argv, want = inp
    root = harness.scratch("c15")
    try:
        harness.tree(root, files)
        st, out, err = harness.ff(["--no-cache", "-j", "2"] + argv, root)
        if st != 0 or sorted(out.split("\n")[:-1]) != sorted(want):
            return f"exit {st}, {out!r} instead of {want} {err[-400:]}"
        return None
    finally:
        harness.remove(root)


FILES = {f"d{i % 7}/f{i}.{'abc'[i % 3]}": "x" * i for i in range(100)}
FF = [[FILES, ["--count", "type,size", "type=file"], ["_total=100", "size=4950", "type[file]=100"]],
    [FILES, ["--count", "ext", "type=f"], ["_total=100", "ext[a]=34", "ext[b]=33", "ext[c]=33"]],
    [FILES, ["--count", "type"], ["_total=107", "type[directory]=7", "type[file]=100"]],
    [FILES, ["--count", "type", "name=nothing"], ["_total=0"]],
    [FILES, ["--count", "size,size,file.size", "type=f"], ["_total=100", "size=4950"]],
    [FILES, ["--count", "depth,link"], ["_total=107", "depth[0]=7", "depth[1]=100"]],
    [{"a.²": "", "b.x": "", "c.1": ""}, ["--count", "ext"], ["_total=3", "ext[1]=1", "ext[x]=1",
        "ext[²]=1"]],
    [FILES, ["--count", "ext", "--json", "type=f"],
        ['{"_total": 100, "ext": {"a": 34, "b": 33, "c": 33}}']],
    [FILES, ["--count", "ext", "--json", "size=5000"], ['{"_total": 0}']]]


CONCRETE = [
    Concrete("count", run, gen, DIRECTED, count=20000),
    Concrete("ff --count", run_ff, None, FF, timeout=60),
]


# ---------------------------------------------------------------------------------------- contracts
@functools.lru_cache(None)
def field(name):
    return Field("t." + name, TYPES[name], None, None)


def world(E, fields):
    """An instance with the given fields to count; what entries provide is not known."""
    from pyvc.values import Opaque, SData, SObj, SBool, STR, INT
    import z3
    entry = Opaque("Entry")
    has, value = {}, {}
    for name in fields:
        ty = INT if name in TOTALLED else STR
        has[name] = z3.Function(f"has_{name}", entry.sort(), z3.BoolSort())
        value[name] = (ty, z3.Function(f"value_{name}", entry.sort(), ty.sort()))

    def get(E, reg, e, attribute):
        name = attribute[2:]
        if not E.branch(has[name](e.t)):
            E.throw(KeyError, attribute)
        ty, f = value[name]
        return ty.wrap(E, f(e.t))
    reg = Opaque("Registry", methods={"get_attribute": get})
    args = Opaque("Args", attrs={"count": lambda E, o: E.new_list([field(n) for n in fields])})
    ctx = Opaque("Context", attrs={"args": lambda E, o: SData(z3.Const("args", args.sort()), args),
        "registry": lambda E, o: SData(z3.Const("registry", reg.sort()), reg)})
    obj = SObj(E, CollectiveMixin, {"context": SData(z3.Const("context", ctx.sort()), ctx)})
    E.model(provided, lambda E, e, name: SBool(has[name](e.t)))
    E.model(provides, lambda E, e, name: value[name][0].wrap(E, value[name][1](e.t)))
    return obj, entry


def provided(entry, name):
    raise NotImplementedError


def provides(entry, name):
    raise NotImplementedError


def summed(name):
    def step(acc, e):
        return acc + provides(e, name) if provided(e, name) else acc
    return step


def counted(name, key):
    def step(acc, e):
        return acc + 1 if provided(e, name) and provides(e, name) == key else acc
    return step


def inv_total(counts, total0, _done):
    return counts["_total"] == total0 + len(_done)


def inv_sum(counts, summing, _done):
    key, step, start = summing
    return counts[key] == foldl(step, start, _done)


def inv_count(byvalue, counting, _done):
    value, step, start = counting
    return byvalue[value] == foldl(step, start, _done)


def total_is(counts, start, entries):
    return counts["_total"] == start + len(entries)


def c_all(summing, counting):
    """Any number of entries, of which some were counted before."""
    def body(E):
        import collections
        from pyvc.values import MDict, SMap, STR, INT
        import z3
        obj, entry = world(E, [summing, counting])
        entries = E.list_input("entries", entry)
        total0, sum0 = E.input("total0", INT), E.input("sum0", INT)
        byvalue = SMap(E, STR, INT, z3.Const("before_dom", z3.ArraySort(z3.StringSort(),
            z3.BoolSort())), z3.Const("before", z3.ArraySort(z3.StringSort(), z3.IntSort())),
            cls=collections.Counter)
        counts = MDict(E, {"_total": total0, field(summing): sum0, field(counting): byvalue},
            cls=collections.Counter)
        obj.fields["count"] = counts
        value = E.input("value", STR)
        start = E.spec(number_of, byvalue, value)
        step1, step2 = summed(summing), counted(counting, value)
        E.ghosts.update(counts=counts, byvalue=byvalue, total0=total0, summing=(field(summing),
            step1, sum0), counting=(value, step2, start))
        E.invariants = [inv_total, inv_sum, inv_count]
        k, r = E.call_outcome(CollectiveMixin.collect_count, obj, entries)
        E.ensure("counting never fails", k == "return")
        if k == "return":
            E.ensure("the total is the number of entries", E.spec(total_is, counts, total0,
                entries))
            E.ensure("a totalled attribute is the sum over the entries that provide it",
                E.spec(same, counts.items[field(summing)], E.spec(foldl, step1, sum0, entries)))
            E.ensure("every value is counted once for each entry that provides it",
                E.spec(same, E.spec(number_of, counts.items[field(counting)], value),
                    E.spec(foldl, step2, start, entries)))
    return body


def number_of(counts, value):
    return counts[value]


def same(a, b):
    return a == b


def c_one(summing, counting):
    """One entry more, whatever was counted before."""
    def body(E):
        import collections
        from pyvc.values import MDict, SMap, STR, INT, SData
        import z3
        obj, entry = world(E, [summing, counting])
        e = SData(z3.Const("entry", entry.sort()), entry)
        total0 = E.input("total0", INT)
        items = {"_total": total0}
        sum0, n0 = 0, 0
        value = E.input("value", STR)
        if E.choice(2):
            sum0 = items[field(summing)] = E.input("sum0", INT)
        if E.choice(2):
            items[field(counting)] = SMap(E, STR, INT, z3.Const("before_dom", z3.ArraySort(
                z3.StringSort(), z3.BoolSort())), z3.Const("before", z3.ArraySort(
                z3.StringSort(), z3.IntSort())), cls=collections.Counter)
            n0 = E.spec(number_of, items[field(counting)], value)
        counts = MDict(E, dict(items), cls=collections.Counter)
        obj.fields["count"] = counts
        k, r = E.call_outcome(CollectiveMixin.collect_count, obj, E.new_list([e]))
        E.ensure("counting never fails", k == "return")
        if k == "return":
            E.ensure("the total grows by one", E.spec(same, counts.items["_total"],
                E.spec(lambda n: n + 1, total0)))
            E.ensure("the sum grows by the value, if there is one", E.spec(reported, counts,
                field(summing), E.spec(summed(summing), sum0, e), E.spec(provided, e, summing),
                field(summing) in items))
            E.ensure("the number of the value grows by one, that of any other value is kept",
                E.spec(reported_value, counts, field(counting), value,
                    E.spec(counted(counting, value), n0, e), E.spec(provided, e, counting),
                    field(counting) in items))
    return body


def reported(counts, key, number, given, before):
    if given or before:
        return key in counts and counts[key] == number
    return key not in counts


def reported_value(counts, key, value, number, given, before):
    if given or before:
        return key in counts and counts[key][value] == number
    return key not in counts


def c_prepare(summing, counting, n):
    """The printed structure for n different values."""
    def body(E):
        import collections
        from pyvc.values import MDict, STR, INT, SStr
        import z3
        S, I = z3.StringSort(), z3.IntSort()
        mods = [None, "h"]
        m1, m2 = mods[E.choice(2)], mods[E.choice(2)]
        f1, f2 = modified(summing, m1), modified(counting, m2)
        ctx = {}
        printed_sum, printed = z3.Function("printed_sum", I, S), z3.Function("printed", S, S)
        E.model(TYPES[summing].output.__func__, lambda E, cls, args, modifier, v:
            SStr(printed_sum(INT.unwrap(E, v))))
        if TYPES[counting].output.__func__ is not TYPES[summing].output.__func__:
            E.model(TYPES[counting].output.__func__, lambda E, cls, args, modifier, v:
                SStr(printed(STR.unwrap(E, v))))
        obj, _ = world(E, [summing, counting])
        values = [E.input(f"value{i}", STR) for i in range(n)]
        if n > 1:
            E.assume(E.mkbool(z3.Distinct(*[v.t for v in values])))
        numbers = [E.input(f"number{i}", INT) for i in range(n)]
        total, all_ = E.input("total", INT), E.input("sum", INT)
        items = {"_total": total}
        if n:
            items[f1] = all_
            items[f2] = MDict(E, dict(zip(values, numbers)), cls=collections.Counter)
        obj.fields["count"] = MDict(E, items, cls=collections.Counter)
        k, r = E.call_outcome(CollectiveMixin.prepare_count, obj)
        E.ensure("preparing the counts never fails", k == "return")
        if k != "return":
            return
        E.ensure("the total is always reported", E.spec(same_item, r, "_total", total))
        E.ensure("an attribute is reported only if an entry provides it", E.spec(size_is, r,
            3 if n else 1))
        if not n:
            return
        E.ensure("the sum is reported, formatted if there is a modifier", E.spec(same_item, r,
            "t." + summing, SStr(printed_sum(all_.t)) if m1 else all_))
        text = E.input("text", STR)
        E.ensure("the number of a printed value is that of all values printed this way",
            E.spec(by_text, r, "t." + counting, text, [(SStr(printed(v.t)), x) for v, x in
                zip(values, numbers)]))
    return body


@functools.lru_cache(None)
def modified(name, mod):
    return Field("t." + name, TYPES[name], None, mod)


def same_item(r, key, value):
    return key in r and r[key] == value


def size_is(r, n):
    return len(r) == n


def by_text(r, key, text, pairs):
    if key not in r:
        return False
    number, found = 0, False
    for t, x in pairs:
        if t == text:
            number, found = number + x, True
    if not found:
        return text not in r[key]
    return text in r[key] and r[key][text] == number


COUNTED = [n for n in TYPES if n not in TOTALLED]
CONTRACTS = [Contract(f"collect_count/{a},{b}", c_all(a, b)) for a, b in (("size", "str"), ("dur",
    "kind"))] + [Contract(f"collect_count/one more/{a},{b}", c_one(a, b), "count") for a in TOTALLED
    for b in COUNTED] + [Contract(f"prepare_count/{n} values/{b}", c_prepare("size", b, n), "count",
    bounded=f"{n} different values") for b in ("str", "kind") for n in range(4)]
cleanup = harness.cleanup
