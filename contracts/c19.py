"""C19: text output."""

import contextlib
import functools
import io
import os
import random
import re
import types as pytypes

from contracts.common import Contract, Concrete, outcome
from contracts import harness
from libff import type as types
from libff.console import ColorConsole, Console, String
from libff.field import OutputFields

TYPES = {"str": types.String, "path": types.Path, "num": types.Number, "size": types.Size,
    "time": types.Time, "dur": types.Duration, "mode": types.Mode, "flag": types.Boolean,
    "kind": types.FileType, "list": types.ListOfStrings}
ESCAPE = re.compile("\x1b\\[[0-9;]*m")


# ------------------------------------------------------------------------------------ concrete runs
class Row(harness.FakeEntry):
    """An entry of a kind: file, exec, directory, link or orphan."""

    def __init__(self, kind, dirname, name, values):
        path = os.path.join(dirname, name)
        super().__init__({"f_" + k: v for k, v in values.items()}, path=path, name=name,
            dir=dirname, ext=os.path.splitext(name)[1][1:], abspath="/" + path, broken=kind ==
            "orphan", type={"link": "symlink", "orphan": "symlink", "exec": "file"}.get(kind, kind))
        self.kind = kind
        if kind in ("link", "orphan"):
            self.link = self.attrs["link"] = "to/" + name

    def is_symlink(self):
        return self.kind in ("link", "orphan")

    def is_executable(self):
        return self.kind in ("exec", "directory")


def text(args, row, name, modifier):
    kind, dirname, base, values = row
    if name == "file.name":
        return base
    if name == "file.dir":
        return dirname
    if name == "file.path":
        path = os.path.join(dirname, base)
        return path + " -> to/" + base if modifier == "h" and kind in ("link", "orphan") else path
    return TYPES[name].output(args, modifier, values[name])


def records(args, fields, rows):
    out = []
    sep = args.separator.replace("\\t", "\t").replace("\\n", "\n")
    for row in rows:
        record = []
        for f in fields:
            name, _, opts = f.partition(":")
            m = re.fullmatch("(-?[0-9]+)?([a-z])?", opts)
            width, modifier = int(m.group(1) or 0), m.group(2)
            if name.startswith("file.") or name in row[3]:
                t = text(args, row, name, modifier)
            elif args.all or modifier == "n":
                t = ""
            else:
                break
            t = t.ljust(-width) if width < 0 else t.rjust(width)
            record.append(t)
        else:
            out.append(sep.join(record))
    return out


def run(inp):
    """inp: [fields, rows, separator, --all, newline, LS_COLORS or None]"""
    fields, rows, sep, everything, newline, colors = inp
    ctx = harness.context(separator=sep, all=everything, newline=newline)
    ctx.args.output = OutputFields(ctx, [f if f.startswith("file.") else "f_" + f for f in fields])
    entries = [Row(*r) for r in rows]
    want = records(ctx.args, fields, rows)
    got = []
    for cls in (Console, ColorConsole):
        old = os.environ.pop("LS_COLORS", None)
        if colors is not None:
            os.environ["LS_COLORS"] = colors
        out = io.StringIO()

        def output():
            c = cls(ctx)
            for e in entries:
                c.process(e)
            c.close()
        try:
            with contextlib.redirect_stdout(out):
                k, r = outcome(output)
        finally:
            os.environ.pop("LS_COLORS", None)
            if old is not None:
                os.environ["LS_COLORS"] = old
        if k == "raise":
            return f"{cls.__name__} failed with {r!r}"
        t = out.getvalue()
        got.append(t if cls is Console else ESCAPE.sub("", t))
    want = "".join(w + newline for w in want)
    if got[0] != want:
        return f"printed {got[0]!r} instead of {want!r}"
    if got[1] != want:
        return f"printed {got[1]!r} instead of {want!r} with colours"
    return None


def value(rng, name):
    if name in ("str", "path"):
        return rng.choice(["", "a", "ab c", "ü日", "a,b", "x" * 12])
    if name == "list":
        return rng.choice([[], ["a"], ["b", "c d"]])
    if name == "flag":
        return rng.random() < 0.5
    if name == "kind":
        return rng.choice(["file", "directory"])
    if name == "mode":
        return rng.choice([0, 0o644, 0o4755, 0o1777])
    if name == "dur":
        return rng.choice([0, 59, 61, 3600, 100000])
    return rng.choice([0, 1, 9, 10, 1023, 1024, 10 ** 6, 10 ** 10])


COLORS = [None, "", "di=01;34", "di=01;34:ln=target:ex=32:*.txt=33", "rs=0:di=:ln=36:or=31:*.c=1",
    "ex=31:x:=:*.tar.gz=35;1:*=3", "no=00:ln=01;36:or=:*.txt=", "ln=target", "or=31;1:mi=5:*.c=target"]
ROWS = [[k, d, n, {}] for k in ("file", "exec", "directory", "link", "orphan") for d in ("", "d", "/",
    "a/b") for n in ("x.txt", "y", "e.tar.gz")]


def gen(rng):
    names = list(TYPES) + ["file.path", "file.name", "file.dir"]
    fields = []
    for _ in range(rng.randint(1, 4)):
        n = rng.choice(names)
        w = rng.choice(["", "", "5", "-5", "0", "20", "-12", "1"])
        m = rng.choice(["", "n", "h" if n != "list" else ""])
        fields.append(n + (":" + w + m if w or m or rng.random() < 0.2 else ""))
    rows = []
    for _ in range(rng.randint(0, 4)):
        have = [n for n in TYPES if rng.random() < 0.8]
        rows.append([rng.choice(["file", "file", "exec", "directory", "link", "orphan"]),
            rng.choice(["", "", "d", "a/b", "/"]), rng.choice(["x.txt", "y", "e.tar.gz", "z.c",
            ".hid", "ü x"]), {n: value(rng, n) for n in have}])
    return [fields, rows, rng.choice([" ", "\\t", "", ", ", "\\n", "::", "\\\\"]), rng.random() < 0.2,
        rng.choice(["\n", "\n", "\0"]), rng.choice(COLORS)]


DIRECTED = [[["file.path:h", "file.name:-8", "file.dir:6"], ROWS, " ", False, "\n", c] for c in COLORS
    ] + [[["file.path", "num:5n", "str"], ROWS[:2] + [["file", "", "a", {"str": "x", "num": 7}],
    ["file", "", "a", {"num": 7}]], "|", a, "\n", None] for a in (False, True)]


def run_ff(inp):
    """The real program: all records, with and without colour, small and large ones."""
    seed, size, jobs = inp
    rng = random.Random(seed)
    root = harness.scratch("c19")
    try:
        spec, lines = {}, {}
        for i in range(rng.randint(1, 60)):
            n = "/".join(rng.choice(["a", "b b", "ü", "c.d"]) for _ in range(rng.randint(0, 3)))
            n = (n + "/" if n else "") + f"f{i}" + rng.choice(["", ".txt", " x", "\t", "ß"])
            spec[n] = lines[n] = rng.choice(["x", "y"]) * rng.randint(0, size)
        for i in range(rng.randint(0, 3)):
            spec[f"l{i}"] = ("link", rng.choice(list(lines)))
        harness.tree(root, spec)
        env = rng.choice([{}, {"LS_COLORS": "di=1:*.txt=33:ln=target:or=31"}, {"LS_COLORS":
            "ex=5:ln=36"}])
        argv = ["--no-cache", "-j", str(jobs), "type=f", "-o", "path:12,size:5,lines:-3n", "--sep",
            "\\t"]
        want = sorted(f"{n:>12}\t{len(v.encode()):>5}\t{v:<3}" for n, v in lines.items())
        for opts, e in ((["--color", "never"], {}), (["--color", "always"], env), (["-0"], {}),
                (["-S", "path"], {})):
            st, out, err = harness.ff(argv + opts, root, env=e, timeout=100, optimize=rng.random() < 0.5)
            got = out.split("\0" if opts == ["-0"] else "\n")
            if st != 0 or got.pop() != "":
                return f"exit {st} with {opts} {e}: {err[-300:]}"
            if opts[-1] == "always":
                got = [ESCAPE.sub("", g) for g in got]
            if sorted(got) != want:
                bad = [g for g in got if g not in want] or [w for w in want if w not in got]
                return f"with {opts} {e}: {len(got)} records, not {len(want)}: {bad[0][:300]!r}"
        st, out, err = harness.ff(["--no-cache", "-j", str(jobs), "type=l", "-o", "link"], root)
        if sorted(out.split("\n")[:-1]) != sorted(v[1] for v in spec.values() if isinstance(v,
                tuple)):
            return f"the links are reported as {out!r}"
        return None
    finally:
        harness.remove(root)


def run_encoding(inp):
    """The real program with an output that cannot express every name."""
    encoding, names = inp
    root = harness.scratch("c19")
    try:
        harness.tree(root, {n: "" for n in names})
        st, out, err = harness.ff(["--no-cache", "-S", "path"], root, env={"PYTHONIOENCODING":
            encoding}, text=False)
        out = out.decode(encoding)
        want = [n.encode(encoding, "backslashreplace").decode(encoding) for n in names]
        if st != 0 or sorted(out.split("\n")[:-1]) != sorted(want):
            return f"exit {st}, printed {out!r} {err[-300:]!r}"
        return None
    finally:
        harness.remove(root)


CONCRETE = [Concrete("console", run, gen, DIRECTED, count=20000),
    Concrete("ff output", run_ff, lambda rng: [rng.randint(0, 10 ** 6), rng.choice([10, 10, 30000]),
        rng.choice([1, 2, 8])], [[1, 30000, 8], [2, 10, 1]], timeout=110),
    Concrete("encoding", run_encoding, None, [["ascii", ["a", "ü", "日本"]], ["latin-1", ["a", "ü",
        "日"]], ["utf-8", ["a", "ü", "日"]]], timeout=110)]


# ---------------------------------------------------------------------------------------- contracts
def padded(value, length, width):
    """What is printed of a text that looks length characters wide."""
    if width < 0:
        return value + " " * max(0, -width - length)
    return " " * max(0, width - length) + value


def c_pad_string(E):
    from pyvc.values import SObj, STR, INT
    v, n, w = E.input("value", STR), E.input("length", INT), E.input("width", INT)
    s = E.call(String, [v, n], {})
    k, r = E.call_outcome(Console.pad_string, SObj(E, Console, {}), s, w)
    E.ensure("padding never fails", k == "return")
    if k == "return":
        E.ensure("padding adds as many spaces as are missing on the right side", E.spec(is_padded, r,
            v, n, w))


def is_padded(r, v, n, w):
    return r == padded(v, n, w)


def text_of(field):
    raise NotImplementedError


def lacks(field):
    raise NotImplementedError


def blank(field):
    raise NotImplementedError


def may_lack(field, everything):
    return everything or field.modifier == "n"


def part(field):
    """What is printed for a field."""
    return blank(field) if lacks(field) else text_of(field)


def parts(fields):
    return [part(f) for f in fields]


def suppressed(fields, everything):
    return any(lacks(f) and not may_lack(f, everything) for f in fields)


def inv_output(_any, _all):
    return _any == parts(_all)


def inv_suppressed(_all, everything):
    return not suppressed(_all, everything)


def printed(written, fields, separator, everything):
    if suppressed(fields, everything):
        return list(written) == []
    return list(written) == [separator.join(parts(fields))]


class Lock:
    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None


class Shell:
    """Stands for the context."""


def c_process(E):
    """One record for an entry with any fields."""
    from pyvc.values import Opaque, SData, SObj, SBool, SStr, STR, INT, OptT
    import z3
    S = z3.StringSort()
    field = Opaque("Field", attrs={"modifier": OptT(STR), "width": OptT(INT), "attribute": STR})
    text = z3.Function("text_of", field.sort(), S)
    lack = z3.Function("lacks", field.sort(), z3.BoolSort())
    pad = z3.Function("pad", S, z3.IntSort(), z3.IntSort(), S)

    def format_field(E, self, e, f):
        if E.branch(lack(f.t)):
            E.throw(KeyError, "x")
        return SStr(text(f.t))
    E.model(Console.format_field, format_field)
    E.model(Console.pad_string, lambda E, self, string, w: SStr(pad(STR.unwrap(E, E.getattr(string,
        "value")), INT.unwrap(E, E.getattr(string, "length")), INT.unwrap(E, w))))
    E.model(text_of, lambda E, f: SStr(text(field.unwrap(E, f))))
    E.model(lacks, lambda E, f: SBool(lack(field.unwrap(E, f))))

    def blank_(E, f):
        w = E.getattr(f, "width")
        return SStr(pad(z3.StringVal(""), z3.IntVal(0), INT.unwrap(E, E.spec(or_zero, w))))
    E.model(blank, blank_)
    written = E.new_list([], ty=STR)

    def write(E, self, line):
        E.note_write(written)
        written.pieces.append(line)
    E.model(Console._write_line, write)
    fields = E.list_input("fields", field)
    everything, sep = SBool(z3.Bool("all")), E.input("separator", STR)
    args = Opaque("Args", attrs={"all": lambda E, o: everything, "newline": lambda E, o: "\n"})
    a = SData(z3.Const("args", args.sort()), args)
    ctx = SObj(E, Shell, {"global_lock": SObj(E, Lock, {}), "args": a})
    c = SObj(E, Console, {"fields": fields, "field_separator": sep, "context": ctx, "args": a})
    E.setattr(c, "write_line", E.getattr(c, "_write_line"))
    entry = SData(z3.Const("entry", Opaque("Entry").sort()), Opaque("Entry"))
    E.ghosts.update(everything=everything)
    E.invariants = [inv_output, inv_suppressed]
    k, r = E.call_outcome(Console.process, c, entry)
    E.ensure("printing an entry never fails", k == "return")
    if k == "return":
        E.ensure("exactly one record of all fields is printed, or none if a value is missing",
            E.spec(printed, written, fields, sep, everything))


def or_zero(w):
    return 0 if w is None else w


def c_format(width):
    """format_field: the rendered value, padded."""
    def body(E):
        from pyvc.values import SObj, STR, INT
        v, n = E.input("value", STR), E.input("length", INT)
        w = E.input("width", INT) if width else None

        def render(E, self, e, f):
            return E.call(String, [v, n], {})
        E.model(Console.render_field, render)
        f = SObj(E, Shell, {"width": w, "modifier": None, "attribute": ("x", "y")})
        k, r = E.call_outcome(Console.format_field, SObj(E, Console, {}), SObj(E, Shell, {}), f)
        E.ensure("formatting a field never fails", k == "return")
        if k == "return":
            E.ensure("a field is its value, padded to the width if there is one", E.spec(is_padded, r,
                v, n, w if width else 0) if width else E.spec(same, r, v))
    return body


def same(a, b):
    return a == b


RULES = ("di", "ex", "ln", "or")


def c_render(colour, attribute, modifier=None):
    """render_field: the text, with or without colours."""
    def body(E):
        from pyvc.values import Opaque, SData, SObj, SBool, STR, BOOL, MDict
        import z3
        cls = ColorConsole if colour else Console
        name, dirname = E.input("name", STR), E.input("dir", STR)
        follow = E.input("follow_symlinks", BOOL)
        link = E.input("link", STR)
        path = E.spec(path_of, dirname, name)
        is_link = E.input("is_symlink", BOOL)
        is_dir = E.input("is_dir", BOOL)
        entry = Opaque("Entry", attrs={"name": lambda E, o: name, "dir": lambda E, o: dirname,
            "path": lambda E, o: path, "link": lambda E, o: link, "broken": BOOL, "ext": STR},
            methods={"is_dir": lambda E, o: is_dir, "is_symlink": lambda E, o: is_link,
            "is_executable": lambda E, o: E.input("is_executable", BOOL)})
        args = Opaque("Args", attrs={"follow_symlinks": lambda E, o: follow})
        a = SData(z3.Const("args", args.sort()), args)
        v = E.input("text", STR)
        ty = Opaque("Type", methods={"output": lambda E, o, ar, m, x: v})
        t = SData(z3.Const("type", ty.sort()), ty)
        reg = Opaque("Registry", methods={"get_attribute_and_type": lambda E, o, e, at: (t, t),
            "get_attribute": lambda E, o, e, at: t, "get_attribute_type": lambda E, o, at: t})
        fields = {"args": a, "registry": SData(z3.Const("registry", reg.sort()), reg)}
        marks = []
        if colour:
            reset = E.input("reset", STR)
            names, dirs, exts = E.choice(2), E.choice(2), {}
            colors = {r: (E.input(f"start_{r}", STR), reset) if (dirs if r == "di" else names) else None
                for r in RULES}
            if E.choice(2):
                exts = {"txt": E.input("start_ext", STR)}
                marks.append((exts["txt"], reset))
            marks += [m for m in colors.values() if m]
            fields.update(colors=MDict(E, colors), extensions=MDict(E, exts), reset=reset)
        c = SObj(E, cls, fields)
        f = SObj(E, Shell, {"width": None, "modifier": modifier, "attribute": attribute, "type": t})
        e = SData(z3.Const("entry", entry.sort()), entry)
        k, r = E.call_outcome(cls.render_field, c, e, f)
        E.ensure("rendering a field never fails", k == "return")
        if k != "return":
            return
        value, length = E.getattr(r, "value"), E.getattr(r, "length")
        marks = [("", "")] + marks
        if attribute == ("file", "name"):
            pairs = [[(name, m)] for m in marks]
        elif attribute == ("file", "dir"):
            pairs = [[(dirname, m)] for m in marks]
        elif attribute == ("file", "path"):
            d = E.spec(dir_part, dirname)
            pairs = [[(path, m)] for m in marks] + [[(d, m), (name, n)] for m in marks for n in marks]
            tail = modifier == "h" and not E.truth(is_dir) and E.truth(is_link)
            if tail:
                pairs = [p + [(" -> ", ("", "")), (link, ("", ""))] for p in pairs]
        else:
            pairs = [[(v, ("", ""))]]
        E.ensure("a field is its text with nothing but colours added", E.spec(one_of, value,
            [[(x, m[0], m[1]) for x, m in p] for p in pairs]))
        E.ensure("the length of a field is the one of its text", E.spec(length_is, length, [x for x, m
            in pairs[0]]))
    return body


def dir_part(dirname):
    if dirname == "":
        return ""
    return dirname if dirname == "/" else dirname + "/"


def path_of(dirname, name):
    return dir_part(dirname) + name


def coloured(pieces):
    r = ""
    for text, before, after in pieces:
        r = r + before + text + after
    return r


def one_of(value, candidates):
    for pieces in candidates:
        if value == coloured(pieces):
            return True
    return False


def length_is(length, texts):
    n = 0
    for t in texts:
        n = n + len(t)
    return length == n


ATTRIBUTES = [("file", "name", None), ("file", "dir", None), ("file", "path", None), ("file", "path",
    "h"), ("other", "attribute", "h")]
CONTRACTS = [Contract("process", c_process, "console"), Contract("pad_string", c_pad_string,
    "console"), Contract("format_field/width", c_format(True), "console"), Contract(
    "format_field/plain", c_format(False), "console")] + [Contract("render_field/" + ("colour " if c
    else "plain ") + ".".join(a[:2]) + (":h" if a[2] else ""), c_render(c, a[:2], a[2]), "console")
    for c in (False, True) for a in ATTRIBUTES]
cleanup = harness.cleanup
