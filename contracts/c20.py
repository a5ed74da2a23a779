"""C20: JSON output."""

import contextlib
import io
import json
import os
import random
import tarfile

from contracts.common import Contract, Concrete, outcome
from contracts import harness
from contracts.c19 import Row, TYPES, Lock, Shell, text, value
from libff.console import JsonConsole, JsonlConsole
from libff.field import AttributeDict, Field, OutputFields


# ------------------------------------------------------------------------------------ concrete runs
def member(args, row, name, modifier):
    kind, dirname, base, values = row
    if name.startswith("file."):
        return {"name": base, "dir": dirname, "path": os.path.join(dirname, base)}[name[5:]]
    if name not in values:
        return None
    if modifier == "h":
        return TYPES[name].output(args, "h", values[name])
    return values[name]


def label(name):
    return name if name.startswith("file.") else "f_" + name


def run(inp):
    """inp: [fields, rows, the values that are sets]"""
    fields, rows, sets = inp
    ctx = harness.context()
    ctx.args.output = OutputFields(ctx, [f if f.startswith("file.") else "f_" + f for f in fields])
    entries = [Row(k, d, n, {x: set(v) if sets and x == "list" else v for x, v in vs.items()})
        for k, d, n, vs in rows]
    want = []
    for row in rows:
        o = {}
        for f in fields:
            name, _, m = f.partition(":")
            v = member(ctx.args, row, name, m.lstrip("-0123456789"))
            o[label(name)] = v
        want.append(o)
    names = {label("list")}
    for cls in (JsonlConsole, JsonConsole):
        out = io.StringIO()

        def output():
            c = cls(ctx)
            for e in entries:
                c.process(e)
            c.close()
        with contextlib.redirect_stdout(out):
            k, r = outcome(output)
        if k == "raise":
            return f"{cls.__name__} failed with {r!r}"
        t = out.getvalue()
        if cls is JsonConsole:
            k, got = outcome(json.loads, t)
        else:
            k, got = outcome(lambda: [json.loads(x) for x in t.split("\n")[:-1]])
            if t and t[-1] != "\n":
                return f"printed {t!r}"
        if k == "raise":
            return f"{cls.__name__} printed {t!r}"
        if sets:
            norm = lambda os: [{n: sorted(v) if n in names and isinstance(v, list) else sorted(v.split(
                ",")) if n in names and isinstance(v, str) else v for n, v in o.items()} for o in os]
            got, exp = norm(got), norm(want)
        else:
            exp = want
        if got != exp or repr(got) != repr(exp) and not sets and [list(o) for o in got] == [list(o)
                for o in exp]:
            return f"{cls.__name__} printed {t!r} instead of {exp}"
    return None


def gen(rng):
    names = list(TYPES) + ["file.path", "file.name", "file.dir"]
    rng.shuffle(names)
    fields = [n + rng.choice(["", "", ":n", ":h" if n != "list" or rng.random() < 0.3 else "", ":5",
        ":-5h", ":x" if n in ("num", "mode") else ""]) for n in names[:rng.randint(1, 5)]]
    rows = []
    for _ in range(rng.choice([0, 1, 2, 3])):
        have = [n for n in TYPES if rng.random() < 0.7]
        rows.append([rng.choice(["file", "exec", "directory", "link", "orphan"]),
            rng.choice(["", "d", "/"]), rng.choice(["x.txt", "\"\\", "\t\n", "ü\udcff", "a/b"]),
            {n: value(rng, n) for n in have}])
    return [fields, rows, rng.random() < 0.3]


DIRECTED = [[["list", "file.path"], [["file", "", "a", {"list": ["b", "a"]}], ["file", "", "b", {}]], s]
    for s in (False, True)] + [[["num"], [], False]]


def run_ff(inp):
    """The real program: [seed, options, test]"""
    seed, opts, found = inp
    rng = random.Random(seed)
    root = harness.scratch("c20")
    try:
        spec = {}
        for i in range(rng.randint(1, 30)):
            n = "/".join(rng.choice(["a", "b b", "ü", "c\"d"]) for _ in range(rng.randint(0, 3)))
            spec[(n + "/" if n else "") + f"f{i}" + rng.choice(["", ".txt", "\n", "\\"])] = "x" * \
                rng.randint(0, 20000) + "\nü"
        spec["l"] = ("link", sorted(spec)[0])
        harness.tree(root, spec)
        members = ["./m1", "m2", "m 3"]
        with tarfile.open(root + "/t.tar", "w") as t:
            for m in members:
                t.addfile(tarfile.TarInfo(m))
        st, out, err = harness.ff(["--no-cache", "-j", "4", "-o", "path,link,tar.members,lines,size:h"]
            + opts + (["not", "type=d"] if found else ["name=nosuch"]), root, timeout=100)
        if st != 0:
            return f"exit {st}: {err[-300:]}"
        want = {}
        for n, v in spec.items():
            link = isinstance(v, tuple)
            want[n] = {"path": n, "link": v[1] if link else None, "tar.members": None, "lines": None if
                link else io.StringIO(v).readlines()}
        want["t.tar"] = {"path": "t.tar", "link": None, "tar.members": sorted(members)}
        if not found:
            want = {}
        if "--jsonl" in opts:
            k, got = outcome(lambda: [json.loads(x) for x in out.split("\n")[:-1]])
        else:
            k, got = outcome(json.loads, out)
        if k == "raise":
            return f"no JSON: {out[:300]!r}"
        if len(got) != len(want):
            return f"{len(got)} objects instead of {len(want)}"
        if "-S" in opts and [o["path"] for o in got][:1] != [] and sorted(o["size"] is None for o in got
                )[-1]:
            return "a size is missing"
        for o in got:
            if not isinstance(o.pop("size"), str):
                return "the size is not formatted"
            if o["path"].startswith("/"):
                o["path"] = os.path.relpath(o["path"], os.path.realpath(root))
            if o["path"] == "t.tar":
                o.pop("lines")
            o["tar.members"] = o["tar.members"] and sorted(o["tar.members"])
            if want.pop(o["path"], None) != o:
                return f"printed {str(o)[:300]}"
        return None
    finally:
        harness.remove(root)


MODES = [["--json"], ["--jsonl"], ["--jsonl", "-S", "path"], ["--json", "-S", "size", "-R"], ["--json",
    "--limit", ":1000"]]
CONCRETE = [Concrete("console", run, gen, DIRECTED, count=20000),
    Concrete("ff --json", run_ff, lambda rng: [rng.randint(0, 10 ** 6), rng.choice(MODES),
        rng.random() < 0.8], [[i, m, f] for i, m in enumerate(MODES) for f in (True, False)],
        timeout=110)]


# ---------------------------------------------------------------------------------------- contracts
def dump(record):
    raise NotImplementedError


def drive(console, entries):
    for entry in entries:
        console.process(entry)
    console.close()


def array(dumps):
    return "[" + ",".join(dumps) + "]\n"


def dumps(entries):
    return [dump(e) for e in entries]


def inv_text(_all, state):
    return state.text == "[" + ",".join(dumps(_all))


def inv_lines(_all, state):
    return state.text == lines(_all)


def inv_comma(_all, console):
    return console.print_comma == (len(_all) > 0)


def lines(entries):
    return "".join([dump(e) + "\n" for e in entries])


def is_array(state, entries):
    return state.text == array(dumps(entries))


def is_lines(state, entries):
    return state.text == lines(entries)


def c_console(cls):
    """The output for any number of entries."""
    def body(E):
        import sys
        from types import SimpleNamespace
        from pyvc.values import Opaque, SData, SObj, SStr, STR
        import z3
        entry = Opaque("Entry")
        f = z3.Function("dump", entry.sort(), z3.StringSort())
        E.model(dump, lambda E, e: SStr(f(entry.unwrap(E, e))))
        state = SObj(E, SimpleNamespace, {"text": ""})

        def write(E, t):
            E.setattr(state, "text", E.spec(joined, E.getattr(state, "text"), t))

        def print_(E, *args, sep=" ", end="\n", **kw):
            t = ""
            for i, a in enumerate(args):
                t = E.spec(joined, E.spec(joined, t, sep if i else ""), a)
            write(E, E.spec(joined, t, end))
        E.model(print, print_)
        # The record of an entry is represented by the entry.
        to_dict = lambda E, o, e: e
        E.model(json.dump, lambda E, record, file, **kw: write(E, SStr(f(entry.unwrap(E, record)))))
        E.model(json.dumps, lambda E, record, **kw: SStr(f(entry.unwrap(E, record))))
        stdout = Opaque("Stdout", methods={"write": lambda E, o, t: write(E, t), "flush": lambda E, o:
            None})
        E.overrides[(id(sys), "stdout")] = (sys, SData(z3.Const("stdout", stdout.sort()), stdout))
        fields = Opaque("Fields", methods={"to_dict": to_dict})
        args = Opaque("Args", attrs={"output": lambda E, o: SData(z3.Const("fields", fields.sort()),
            fields), "profile": lambda E, o: None})
        ctx = SObj(E, Shell, {"global_lock": SObj(E, Lock, {}), "args": SData(z3.Const("args",
            args.sort()), args)})
        entries = E.list_input("entries", entry)
        k, c = E.call_outcome(cls, ctx)
        E.ensure("creating a console never fails", k == "return")
        if k != "return":
            return
        E.ghosts.update(state=state, console=c)
        E.invariants = [inv_text, inv_comma] if cls is JsonConsole else [inv_lines]
        k, r = E.call_outcome(drive, c, entries)
        E.ensure("printing entries never fails", k == "return")
        if k == "return":
            E.ensure("the output consists of exactly one object per entry, in order", E.spec(is_array
                if cls is JsonConsole else is_lines, state, entries))
    return body


def joined(a, b):
    return a + b


def c_dict(n):
    """The record of an entry for n fields of different attributes."""
    def body(E):
        from pyvc.values import Opaque, SData, SObj, SStr, MList, OptT, STR
        import z3
        S = z3.StringSort()
        val, entry = Opaque("Value"), Opaque("Entry")
        out = z3.Function("output", S, val.sort(), S)

        def output(E, o, a, modifier, x):
            return SStr(out(STR.unwrap(E, modifier), x.t))
        ty = Opaque("Type", methods={"output": output})
        fields, lacking, values = [], [], []
        for i in range(n):
            fields.append(Field(f"attr{i}", SData(z3.Const(f"type{i}", ty.sort()), ty), None,
                E.input(f"modifier{i}", OptT(STR))))
            lacking.append(bool(E.choice(2)))
            values.append(SData(z3.Const(f"value{i}", val.sort()), val))
        e = SData(z3.Const("entry", entry.sort()), entry)

        def get(E, o, x, attribute):
            i = int(attribute[4:])
            if lacking[i]:
                E.throw(KeyError, attribute)
            return values[i]

        def both(E, o, x, attribute):
            return get(E, o, x, attribute), fields[int(attribute[4:])].type
        reg = Opaque("Registry", methods={"get_attribute": get, "get_attribute_and_type": both})
        ctx = Opaque("Context", attrs={"registry": lambda E, o: SData(z3.Const("registry",
            reg.sort()), reg)})
        c = SData(z3.Const("context", ctx.sort()), ctx)
        obj = MList(E, list(fields), cls=OutputFields)
        obj.fields.update(fields=E.new_list([f.attribute for f in fields]), context=c, registry=
            E.getattr(c, "registry"), args=None)
        k, r = E.call_outcome(OutputFields.to_dict, obj, e)
        E.ensure("creating a record never fails", k == "return")
        if k != "return":
            return
        E.ensure("a record has exactly one member per field", E.spec(has_members, r, n))
        for i in range(n):
            if lacking[i]:
                E.ensure("a value that the entry does not provide is null", E.spec(is_null, r,
                    f"attr{i}"))
                continue
            E.ensure("a member is the native value, or its formatted form if that is asked for",
                E.spec(is_member, r, f"attr{i}", fields[i].modifier, values[i], fields[i].type))
    return body


def has_members(r, n):
    return len(r) == n


def is_null(r, name):
    return name in r and r[name] is None


def is_member(r, name, modifier, v, ty):
    if name not in r:
        return False
    if modifier == "h":
        return r[name] == ty.output(None, "h", v)
    return r[name] == v


CONTRACTS = [Contract("console/" + c.__name__, c_console(c), "console") for c in (JsonConsole,
    JsonlConsole)] + [Contract(f"to_dict/{n}", c_dict(n), "console", bounded=f"{n} fields of different "
    "attributes") for n in (0, 1, 2, 3)]
cleanup = harness.cleanup
