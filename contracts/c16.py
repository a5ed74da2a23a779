"""C16: placeholders of --exec and --exec-batch."""

import json
import os

from contracts.common import Contract, Concrete, outcome
from contracts import harness
from pyvc.spec import in_re
from libff.field import ExecFields, ExecBatchFields, Field
from libff import type as types

TYPES = {"str": types.String, "path": types.Path, "num": types.Number, "size": types.Size,
    "time": types.Time, "dur": types.Duration, "mode": types.Mode, "flag": types.Boolean,
    "kind": types.FileType, "list": types.ListOfStrings}
ALIASES = {"": "path", "/": "name", "//": "dir", ".": "pathx", "/.": "namex", "..": "ext"}
FILE = ("path", "name", "dir", "pathx", "namex", "ext")


# ------------------------------------------------------------------------------------ concrete runs
def tokens(text):
    """The tokens of one argument: ("text", s) or ("field", name, modifier)."""
    out, lit = [], []
    i = 0
    while i < len(text):
        if text.startswith("{{", i) or text.startswith("}}", i):
            lit.append(text[i])
            i += 2
        elif text[i] == "{" and "}" in text[i:]:
            j = text.index("}", i)
            out += [("text", "".join(lit)), ("field", text[i + 1:j])]
            lit = []
            i = j + 1
        else:
            lit.append(text[i])
            i += 1
    out.append(("text", "".join(lit)))
    return out


def value_of(name, row, everything):
    """The text of a placeholder; None if there is no value."""
    name = ALIASES.get(name, name)
    attr, _, mod = name.partition(":")
    if attr in row:
        t = types.String if attr in FILE else TYPES[attr[2:]]
        return t.output(harness.context().args if mod else None, mod or None, row[attr])
    return "" if everything or mod == "n" else None


def expand(argument, row, everything):
    out = []
    for t in tokens(argument):
        v = t[1] if t[0] == "text" else value_of(t[1], row, everything)
        if v is None:
            return None
        out.append(v)
    return "".join(out)


def has_field(argument):
    return any(t[0] == "field" for t in tokens(argument))


def entry_of(i, row):
    e = harness.FakeEntry({k: v for k, v in row.items() if k not in FILE}, **{k: v for k, v in
        row.items() if k in FILE}, abspath=f"/e{i}")
    return e


def run(inp):
    """inp: [batch, all, command, rows]"""
    batch, everything, command, rows = inp
    ctx = harness.context(all=everything)
    cls = ExecBatchFields if batch else ExecFields
    k, fields = outcome(cls, ctx, list(command))
    if batch and has_field(command[0]):
        return None if k == "raise" else "placeholder in the name of the command accepted"
    if k == "raise":
        return f"the command is rejected: {fields!r}"
    command = list(command)
    if not any(map(has_field, command[1:])):
        command.append("{}")
    rows = [{"path": f"p{i}", "name": f"n{i}", "dir": "d", "pathx": f"px{i}", "namex": f"nx{i}",
        **row} for i, row in enumerate(rows)]
    entries = [entry_of(i, row) for i, row in enumerate(rows)]
    if batch:
        want = []
        for a in command:
            if has_field(a):
                want += [x for x in (expand(a, row, everything) for row in rows) if x is not None]
            else:
                want.append(expand(a, {}, False))
        k, got = outcome(fields.render, entries)
        if k == "raise" or got != want:
            return f"the command is {got!r}, not {want}"
        return None
    for e, row in zip(entries, rows):
        want = [expand(a, row, everything) for a in command]
        k, got = outcome(fields.render, e)
        if None in want:
            if k == "return":
                return f"the command is {got} although a value is missing"
            if not isinstance(got, KeyError):
                return f"the command is not suppressed: {got!r}"
        elif k == "raise" or got != want:
            return f"the command is {got!r}, not {want}"
    return None


NAMES = ["f_" + n for n in TYPES]
STRINGS = ["", "a", "a b", " ", "{", "}", "{}", "{{x}}", "-n", "$HOME", "*", "'", "ä", "\udcff",
    "a\nb", ";", "%s", "\\"]
NUMBERS = [0, 1, 8, 1024, 4000, 10 ** 9]


def value(rng, name):
    t = TYPES[name[2:]]
    if t is types.ListOfStrings:
        return rng.sample(STRINGS, rng.randint(0, 3))
    if t is types.Boolean:
        return rng.random() < .5
    if issubclass(t, types.String) or t in (types.FileType, types.Path):
        return rng.choice(STRINGS)
    return rng.choice(NUMBERS)


def gen(rng):
    names = rng.sample(NAMES, rng.choice([1, 1, 2]))
    parts = lambda: rng.choice(["{{", "}}", "{}", "{" + rng.choice(list(ALIASES)) + "}", "a", " ",
        "-", "b c", "$x", "\n", "{" + rng.choice(names) + rng.choice(["", "", ":h", ":n", ":x"]) +
        "}"])
    command = [rng.choice(["echo", "/bin/echo", "{{x}}", "a b"])]
    for _ in range(rng.randint(0, 3)):
        command.append("".join(parts() for _ in range(rng.choice([0, 1, 1, 2, 3]))))
    rows = []
    for _ in range(rng.choice([0, 1, 2, 3])):
        row = {n: value(rng, n) for n in names if rng.random() < .7}
        if rng.random() < .6:
            row["ext"] = rng.choice(STRINGS)
        if rng.random() < .3:
            row["name"] = rng.choice(STRINGS)
        rows.append(row)
    return [rng.random() < .5, rng.random() < .3, command, rows]


ROWS = [{"path": "{}", "ext": "x"}, {"path": "a b", "name": "b{/}", "f_size": 4000}, {"ext": ""}]
DIRECTED = [[b, a, c, ROWS] for b in (False, True) for a in (False, True) for c in (["echo"],
    ["echo", "{}"], ["echo", "x{/}y{.}", "{/}"], ["echo", "{..}"], ["echo", "{{}}"], ["echo",
    "{{{}}}"], ["echo", "{f_size}", "{f_size:h}", "-"], ["echo", "{f_size:n}{..}"], ["echo", ""],
    ["echo", "}}{{", "{//}{/.}"], ["e{{x}}", "a}", "{"], ["echo", "{f_list}"], ["echo", "{{}"],
    ["echo", "{}}}"], ["echo", "a", "{}", "b"], ["echo", "{ext:n}", "{}"], ["echo", "}", "}}}"],
    ["echo", "{..}", "{}", "{f_size}"])]

PRINT = "import sys, json; print(json.dumps(sys.argv[1:]))"


def run_ff(inp):
    """The real program runs a program that reports its arguments."""
    files, argv, command, want = inp
    root = harness.scratch("c16")
    try:
        harness.tree(root, files)
        import sys
        st, out, err = harness.ff(["--no-cache", "-j", "2"] + argv[:-1] + [argv[-1],
            sys.executable, "-c", PRINT] + command, root, optimize=True)
        got = sorted(json.loads(x) for x in out.split("\n")[:-1])
        if st != 0 or got != sorted(want):
            return f"exit {st}, the commands got {got} instead of {want} {err[-300:]}"
        return None
    finally:
        harness.remove(root)


FILES = {"a b.txt": "x", "d/{}": "xy", "d/-n": "", "d/$x.tar.gz": "", "ü\n.c": ""}
LINKS = {**FILES, "l1": ("link", "a b.txt"), "l2": ("link", "{}")}
FF = [[FILES, ["type=f", s], [], [[p] for p in FILES]] for s in ("-x", "--exec")] + [
    [LINKS, ["-x"], ["-v", "{link}", "--", "{{/}}{/}"], [["-v", "a b.txt", "--", "{/}l1"], ["-v",
        "{}", "--", "{/}l2"]]],
    [LINKS, ["--all", "not", "type=d", "-x"], ["{link}", "{..}"], [["", "txt"], ["", ""], ["", ""], ["",
        "gz"], ["", "c"], ["a b.txt", ""], ["{}", ""]]],
    [LINKS, ["-S", "path", "not", "type=d", "-X"], ["{{", "x{link}", "-", "{/}", "}}"], [["{", "xa b.txt",
        "x{}", "-", "a b.txt", "$x.tar.gz", "-n", "{}", "l1", "l2", "ü\n.c", "}"]]],
    [{**LINKS, "z": ("link", "x")}, ["-S", "path", "-x"], ["{link}", "{/}"], [["a b.txt", "l1"],
        ["{}", "l2"], ["x", "z"]]],
    [LINKS, ["-S", "path", "not", "type=d", "-x"], ["{link:n}", "{//}"], [["", ""], ["", "d"], ["", "d"],
        ["", "d"], ["a b.txt", ""], ["{}", ""], ["", ""]]]]

CONCRETE = [Concrete("render", run, gen, DIRECTED, count=20000),
    Concrete("ff --exec", run_ff, None, FF, timeout=60)]

# ---------------------------------------------------------------------------------------- contracts
def text_of(entry, part):
    raise NotImplementedError


def lacks(entry, part):
    raise NotImplementedError


def argument_of(entry, parts):
    return "".join([text_of(entry, p) for p in parts])


def incomplete(entry, parts):
    return any(lacks(entry, p) for p in parts)


def world(E):
    """An instance with any fields; what a part of an argument becomes for an entry is opaque, and
    may be missing."""
    from pyvc.values import Opaque, SData, SBool, SStr, MList, STR
    import z3
    part = Opaque("Part", isinstance_=lambda E, v, cls: SBool(is_field(v.t)) if cls is Field else
        E.throw(TypeError, "x"))
    is_field = z3.Function("is_field", part.sort(), z3.BoolSort())
    entry = Opaque("Entry")
    text = z3.Function("text_of", entry.sort(), part.sort(), z3.StringSort())
    lack = z3.Function("lacks", entry.sort(), part.sort(), z3.BoolSort())

    def render_field(E, self, e, p):
        if isinstance(p, (str,)) or not isinstance(p, SData):
            return p
        if E.branch(z3.And(is_field(p.t), lack(e.t, p.t))):
            E.throw(KeyError, "x")
        return SStr(text(e.t, p.t))
    E.model(ExecFields.render_field, render_field)
    E.model(text_of, lambda E, e, p: SStr(text(entry.unwrap(E, e), part.unwrap(E, p))))
    E.model(lacks, lambda E, e, p: SBool(z3.And(is_field(part.unwrap(E, p)),
        lack(entry.unwrap(E, e), part.unwrap(E, p)))))
    obj = MList(E, [], cls=ExecFields)
    return obj, part, entry, is_field


def one_argument(E, part, is_field, name="parts"):
    """The parts of any argument with a placeholder."""
    from pyvc.values import SData
    import z3
    before, after = E.list_input(name + "0", part), E.list_input(name + "1", part)
    p = SData(z3.Const(name, part.sort()), part)
    E.fact(is_field(p.t))
    return E.new_list(before.pieces + [p] + after.pieces)


def c_single(E):
    """One entry, one argument with placeholders."""
    from pyvc.values import SData
    import z3
    obj, part, entry, is_field = world(E)
    parts = one_argument(E, part, is_field)
    e = SData(z3.Const("entry", entry.sort()), entry)
    E.ghosts.update(e=e)
    E.invariants = [inv_prefix, inv_complete]
    k, r = E.call_outcome(ExecFields.render_fields, obj, E.new_list([parts]), E.new_list([e]),
        False)
    missing = E.spec(incomplete, e, parts)
    if k == "return":
        E.ensure("a command is suppressed if a value is missing", E.spec(lambda m: not m, missing))
        E.ensure("an argument is the concatenation of its parts", E.spec(is_argument, r, e, parts))
    else:
        E.ensure("a command is suppressed only if a value is missing", missing)
        E.ensure("a missing value is reported as KeyError", E.is_exc(r, KeyError))


def is_argument(r, e, parts):
    return len(r) == 1 and r[0] == argument_of(e, parts)


def inv_prefix(_any, _all, e):
    return _any == [text_of(e, p) for p in _all]


def inv_complete(_all, e):
    return not any(lacks(e, p) for p in _all)


def inv_output(_any, _all, start):
    return _any == start + arguments(_all)


def whole(entry):
    raise NotImplementedError


def without(entry):
    raise NotImplementedError


def arguments(entries):
    return [whole(e) for e in entries if not without(e)]


def text_is(entry, parts):
    return whole(entry) == argument_of(entry, parts) and without(entry) == incomplete(entry, parts)


def inv_prefix_of(_any, _all, _var):
    return _any == [text_of(_var, p) for p in _all]


def inv_complete_of(_all, _var):
    return not any(lacks(_var, p) for p in _all)


def c_batch(E):
    """Any entries, one argument with placeholders after others."""
    from pyvc.values import SData, SStr, SBool
    import z3
    obj, part, entry, is_field = world(E)
    parts = one_argument(E, part, is_field)
    entries = E.list_input("entries", entry)
    text, gaps = z3.Function("whole", entry.sort(), z3.StringSort()), z3.Function("without",
        entry.sort(), z3.BoolSort())
    E.model(whole, lambda E, e: SStr(text(entry.unwrap(E, e))))
    E.model(without, lambda E, e: SBool(gaps(entry.unwrap(E, e))))
    render = E.find_model(ExecFields.render_field)

    def render_field(E, self, e, p):
        # the meaning of the argument for this entry
        E.assume(E.spec(text_is, e, parts))
        return render(E, self, e, p)
    E.model(ExecFields.render_field, render_field)
    E.ghosts.update(start=E.new_list([]))
    E.invariants = [inv_output, inv_prefix_of, inv_complete_of]
    k, r = E.call_outcome(ExecFields.render_fields, obj, E.new_list([parts]), entries, True)
    E.ensure("a batch never fails because of a missing value", k == "return")
    if k == "return":
        E.ensure("each entry that has all the values adds one argument, in order",
            E.spec(same, r, E.spec(arguments, entries)))


def same(a, b):
    return a == b


def c_command(batch, shape):
    """Whole commands: l any text without placeholders, p one placeholder."""
    def body(E):
        from pyvc.values import SData, STR, MList
        import z3
        obj, part, entry, is_field = world(E)
        entries = E.list_input("entries", entry)
        e = SData(z3.Const("entry", entry.sort()), entry)
        args = []
        for i, c in enumerate(shape):
            if c == "l":
                args.append(E.list_input(f"text{i}", STR))
            else:
                p = SData(z3.Const(f"field{i}", part.sort()), part)
                E.fact(is_field(p.t))
                args.append(E.new_list([p]))
        obj = MList(E, list(args), cls=ExecBatchFields if batch else ExecFields)
        E.invariants = [inv_added]
        if batch:
            k, r = E.call_outcome(ExecBatchFields.render, obj, entries)
            E.ensure("a batch never fails because of a missing value", k == "return")
            if k == "return":
                E.ensure("the arguments are expanded in place and in order",
                    E.spec(batch_is, r, args, shape, entries))
        else:
            k, r = E.call_outcome(ExecFields.render, obj, e)
            missing = E.spec(any_missing, e, args, shape)
            if k == "return":
                E.ensure("a command is suppressed if a value is missing",
                    E.spec(lambda m: not m, missing))
                E.ensure("each argument yields one argument, in order",
                    E.spec(command_is, r, args, shape, e))
            else:
                E.ensure("a command is suppressed only if a value is missing", missing)
                E.ensure("a missing value is reported as KeyError", E.is_exc(r, KeyError))
    return body


def inv_added(_any, _done, _before, _var):
    return _any == _before + [text_of(e, _var[0]) for e in _done if not lacks(e, _var[0])]


def batch_is(r, args, shape, entries):
    want = []
    for a, c in zip(args, shape):
        if c == "l":
            want = want + ["".join(a)]
        else:
            want = want + [text_of(e, a[0]) for e in entries if not lacks(e, a[0])]
    return list(r) == want


def any_missing(e, args, shape):
    missing = False
    for a, c in zip(args, shape):
        if c == "p" and lacks(e, a[0]):
            missing = True
    return missing


def command_is(r, args, shape, e):
    return list(r) == ["".join(a) if c == "l" else text_of(e, a[0]) for a, c in zip(args, shape)]


def c_field(kind):
    """The text of a placeholder."""
    def body(E):
        from pyvc.values import Opaque, SData, SObj, SBool, SStr, MList, STR
        import z3
        S = z3.StringSort()
        value, entry = Opaque("Value"), Opaque("Entry")
        missing, all_ = z3.Bool("missing"), z3.Bool("all")
        out = z3.Function("output", S, value.sort(), S)
        v = SData(z3.Const("value", value.sort()), value)
        args = Opaque("Args", attrs={"all": lambda E, o: SBool(all_)})
        args_v = SData(z3.Const("args", args.sort()), args)
        asked = []

        def output(E, o, a, modifier, x):
            if a is not args_v:
                from pyvc.values import Unsupported
                raise Unsupported("other arguments")
            return SStr(out(z3.StringVal("") if modifier is None else STR.unwrap(E, modifier), x.t))
        ty = Opaque("Type", methods={"output": output})

        def get(E, o, e, attribute):
            asked.append(attribute)
            if E.branch(missing):
                E.throw(KeyError, attribute)
            return v
        reg = Opaque("Registry", methods={"get_attribute": get})
        ctx = Opaque("Context", attrs={"args": lambda E, o: args_v})
        obj = MList(E, [], cls=ExecFields)
        obj.fields.update(registry=SData(z3.Const("registry", reg.sort()), reg), args=args_v,
            context=SData(z3.Const("context", ctx.sort()), ctx))
        e = SData(z3.Const("entry", entry.sort()), entry)
        if kind == "text":
            text = E.input("text", STR)
            k, r = E.call_outcome(ExecFields.render_field, obj, e, text)
            E.ensure("text is passed unchanged", k == "return")
            if k == "return":
                E.ensure("text is passed unchanged", E.spec(same, r, text))
            return
        modifier = None if kind == "plain" else E.input("modifier", STR)
        f = Field("the.attribute", SData(z3.Const("type", ty.sort()), ty), None, modifier)
        k, r = E.call_outcome(ExecFields.render_field, obj, e, f)
        E.ensure("the attribute of the placeholder is used", asked == ["the.attribute"])
        empty = E.spec(optional, SBool(all_), modifier)
        if k == "return":
            E.ensure("the text of a placeholder is the formatted value, or empty if it is missing "
                "and that is allowed", E.spec(field_is, r, SBool(missing), empty,
                SStr(out(z3.StringVal("") if modifier is None else modifier.t, v.t))))
        else:
            E.ensure("only a missing value that may not be empty suppresses the command",
                E.spec(lambda m, o, x: m and not o and x, SBool(missing), empty,
                E.is_exc(r, KeyError)))
    return body


def optional(everything, modifier):
    return everything or modifier == "n"


def field_is(r, missing, empty, text):
    if missing:
        return empty and r == ""
    return r == text


BRACES = "(?:\\{\\{|\\}\\}|\\{[^}]*\\})"


def c_replace(kind):
    """What a part of an argument stands for."""
    def body(E):
        from pyvc.values import Opaque, SData, STR, MList
        import z3
        made = Opaque("Made", attrs={"name": STR})
        got = z3.Function("made", z3.StringSort(), made.sort())
        names = []

        def make(E, self, name):
            names.append(name)
            return SData(got(STR.unwrap(E, name)), made)
        E.model(ExecFields.make_field, make)
        obj = MList(E, [], cls=ExecFields)
        if kind == "alias":
            alias = list(ALIASES)[E.choice(len(ALIASES))]
            k, r = E.call_outcome(ExecFields.replace, obj, "{" + alias + "}")
            E.ensure("an alias stands for its attribute", k == "return" and names in ([
                "file." + ALIASES[alias]], [ALIASES[alias]]) and isinstance(r, SData))
        elif kind == "brace":
            b = "{}"[E.choice(2)]
            k, r = E.call_outcome(ExecFields.replace, obj, b + b)
            E.ensure("two braces are one literal brace", k == "return" and r == b)
        elif kind == "name":
            name = E.input("name", STR)
            E.assume(E.spec(is_name, name))
            k, r = E.call_outcome(ExecFields.replace, obj, E.spec(in_braces, name))
            E.ensure("a name in braces is a placeholder", k == "return" and len(names) == 1 and
                isinstance(r, SData))
            if k == "return" and len(names) == 1:
                E.ensure("the placeholder stands for the attribute of this name",
                    E.spec(same, names[0], name))
        else:
            text = E.input("text", STR)
            E.assume(E.spec(is_text, text))
            k, r = E.call_outcome(ExecFields.replace, obj, text)
            E.ensure("other text is passed unchanged", k == "return" and not names)
            if k == "return" and not names:
                E.ensure("other text is passed unchanged", E.spec(same, r, text))
    return body


def is_name(name):
    return in_re(name, "[^{}]*") and name not in ("", "/", "//", ".", "/.", "..")


def in_braces(name):
    return "{" + name + "}"


def is_text(text):
    """The text contains no placeholder and no doubled brace."""
    return text != "" and not in_re(text, ".*" + BRACES + ".*")


def piece(part):
    raise NotImplementedError


def is_place(part):
    raise NotImplementedError


def c_store(n):
    """The arguments of a command, each of any number of parts."""
    def body(E):
        from pyvc.values import Opaque, SData, SBool, STR, MList, SStr
        import z3
        S = z3.StringSort()
        made = Opaque("Made", isinstance_=lambda E, v, cls: SBool(is_field(v.t)) if cls is Field
            else False)
        is_field = z3.Function("is_field", made.sort(), z3.BoolSort())
        got = z3.Function("replaced", S, made.sort())
        replaced = lambda E, self, part: SData(got(STR.unwrap(E, part)), made)
        path = SData(z3.Const("path", made.sort()), made)
        E.model(ExecFields.replace, replaced)
        E.model(ExecFields.make_field, lambda E, self, name: path if name in ("file.path", "path")
            else E.throw(AssertionError, "x"))
        E.model(piece, lambda E, part: SData(got(STR.unwrap(E, part)), made))
        E.model(is_place, lambda E, part: SBool(is_field(got(STR.unwrap(E, part)))))
        texts = [E.input(f"text{i}", STR) for i in range(n)]
        parts = [E.list_input(f"parts{i}", STR) for i in range(n)]

        def split(E, pat, s):
            for t, p in zip(texts, parts):
                if isinstance(s, SStr) and s.t.eq(t.t):
                    return E.new_list(list(p.pieces))
            from pyvc.values import Unsupported
            raise Unsupported("split of another text")
        E.pattern_hooks["split"] = split
        obj = MList(E, [], cls=ExecFields)
        k, r = E.call_outcome(ExecFields.store, obj, E.new_list(texts))
        E.ensure("storing a command never fails", k == "return")
        if k == "return":
            E.ensure("every argument is stored with all its parts in order, followed by the path "
                "if there is no placeholder", E.spec(stored, obj, parts, path))
    return body


def stored(obj, parts, path):
    want = [[piece(p) for p in ps if p != ""] for ps in parts]
    for ps in parts[1:]:
        if any(p != "" and is_place(p) for p in ps):
            return list(obj) == want
    return list(obj) == want + [[path]]


CONTRACTS = [Contract("render_fields/one entry", c_single, "render"),
    Contract("render_fields/batch", c_batch, "render")] + [
    Contract(f"render/{s}", c_command(False, s), "render", bounded="commands of up to three "
        "arguments") for s in ("l", "lp", "llp", "lpl", "lpp", "p")] + [
    Contract(f"batch/{s}", c_command(True, s), "render", bounded="commands of up to three "
        "arguments") for s in ("lp", "llp", "lpl", "lpp")] + [
    Contract(f"render_field/{k}", c_field(k), "render") for k in ("text", "plain", "modifier")] + [
    Contract(f"replace/{k}", c_replace(k), "render") for k in ("alias", "brace", "name", "text")] + [
    Contract(f"store/{n}", c_store(n), "render", bounded=f"commands of {n} arguments")
        for n in (1, 2, 3)]
cleanup = harness.cleanup
