"""C13: sorting."""

import os
import random
import re

from contracts.common import Contract, Concrete, outcome
from contracts import harness
from pyvc.spec import in_re
from libff.field import SortFields
from libff.processing import CollectiveMixin, CollectiveGenerator
from libff import type as types


# ------------------------------------------------------------------------------------ concrete runs
KINDS = {"str": str, "path": str, "num": int, "size": int, "time": int, "dur": int, "mode": int,
    "flag": bool, "list": list, "kind": str}
EMPTY = {str: "", int: 0, bool: False, list: []}


def collect(entries, fields, reverse):
    """What the collecting processing classes make of the entries."""
    ctx = harness.context()
    ctx.args.sort = SortFields(ctx, fields)
    ctx.args.reverse = reverse

    class Holder(CollectiveMixin):
        def __init__(self):  # pylint:disable=super-init-not-called
            self.context, self.entries = ctx, list(entries)

        args = property(lambda self: ctx.args)
        registry = property(lambda self: ctx.registry)
    h = Holder()
    h.finalize()
    return h.entries


def folded(name, value):
    """The value as it takes part in a comparison."""
    t = KINDS[name]
    if value is None:
        return EMPTY[t]
    if t is str:
        return value.lower()
    if t is list:
        return [v.lower() for v in (sorted(value) if isinstance(value, set) else value)]
    return value


def natural(text):
    """Texts that differ in the numbers only."""
    parts = re.split("([0-9]+)", text.lower())
    return [int(p) if i % 2 else p for i, p in enumerate(parts)]


def native(name, v):
    return set(v["set"]) if isinstance(v, dict) else v


def make(rows):
    out = []
    for i, row in enumerate(rows):
        vt = {"f_" + k: native(k, v) for k, v in row.items()}
        out.append(harness.FakeEntry(vt, path=f"e{i}", name=f"e{i}", abspath=f"/e{i}"))
        out[-1].row = {k: native(k, v) for k, v in row.items()}
    return out


def run_sort(inp):
    """inp: [fields, reverse, rows]; plain fields give an exact order, natural ones may not fail."""
    fields, reverse, rows = inp
    entries = make(rows)
    k, got = outcome(collect, entries, ["f_" + f for f in fields], reverse)
    if k == "raise":
        return f"sorting failed with {got!r}"
    if sorted(map(id, got)) != sorted(map(id, entries)):
        return "entries got lost or doubled"
    if any(f.endswith(":v") and KINDS[f[:-2]] is str for f in fields):
        return None
    key = lambda e: [folded(f.split(":")[0], e.row.get(f.split(":")[0])) for f in fields]
    keys = [key(e) for e in got]
    want = sorted(keys, reverse=reverse)
    return None if keys == want else f"the order is {keys}, not {want}"


def run_natural(inp):
    """inp: [field, reverse, template, rows of numbers]: the order is that of the numbers."""
    field, reverse, template, rows = inp
    texts = ["".join(t + (r if i < len(rows[0]) else "") for i, (t, r) in enumerate(zip(template,
        row + [""]))) for row in rows]
    entries = make([{field: t} for t in texts])
    k, got = outcome(collect, entries, [f"f_{field}:v"], reverse)
    if k == "raise":
        return f"sorting {texts} failed with {got!r}"
    nums = {t: [int(x) for x in r] for t, r in zip(texts, rows)}
    keys = [nums[e.row[field]] for e in got]
    if keys != sorted(keys, reverse=reverse):
        return f"{[e.row[field] for e in got]} is not in the order of the numbers"
    return None


WORDS = ["", "a", "A", "b", "ab", "aB", "Ä", "ä", "z", "a b", "10", "2", "x1", "x10", "x2", "²", "a²",
    "a.²", "x.tar.gz", "a1.b2", "a.b/c", "a/1", "a/b.c", "1/2", "x.a.b", "x/a1", "x.1a", "x/y.z.1",
    "٣", "a٣b", "\udcff", "ß", "foo.", "a..b", "a.b.c/d1e", "1.2.3", "/", "//a", "a//b", "é.²x"]


def value(rng, kind):
    if rng.random() < .25:
        return None
    t = KINDS[kind]
    if kind == "kind":
        return rng.choice(["file", "directory", "symlink", "other"])
    if t is str:
        return rng.choice(WORDS) if rng.random() < .6 else "".join(rng.choice("aB1.²/2é") for _ in
            range(rng.randint(0, 7)))
    if t is int:
        return rng.choice([0, 1, 2, 9, 10, 100])
    if t is bool:
        return rng.random() < .5
    v = [rng.choice(["a", "B", "b", "c"]) for _ in range(rng.randint(0, 3))]
    return {"set": sorted(set(v))} if rng.random() < .5 else v


def gen_sort(rng):
    fields = [rng.choice(list(KINDS)) for _ in range(rng.choice([1, 1, 2, 3]))]
    fields = [f + (":v" if rng.random() < .4 else "") for f in fields]
    rows = []
    for _ in range(rng.randint(2, 6)):
        row = {}
        for f in fields:
            n = f.split(":")[0]
            v = value(rng, n)
            if v is not None:
                # leading dots of path components do not take part in a comparison
                row[n] = v if n != "path" else re.sub(r"(^|/)\.+", r"\1", v)
        rows.append(row)
    return [fields, rng.random() < .3, rows]


TEMPLATES = [["a", ""], ["", ""], ["x", ".txt"], ["v", ".tar.gz"], ["a", "b", ""], ["a", ".", ""],
    ["", "-", ".mp"], ["d", "/f", ".x"], ["a/b", "c"], ["a.r", ""], ["a.r", "x"], ["a.b", "c.d", ""],
    ["s", " e", ".mkv"], ["x.", ""], ["x.", ".", ".gz"], ["É", "ß"], ["a.x/b", ".c", "d"]]


def gen_natural(rng):
    template = rng.choice(TEMPLATES)
    num = lambda: rng.choice(["", "", "0", "00"]) + str(rng.choice([0, 1, 2, 9, 10, 11, 99, 100,
        rng.randrange(3000), 10 ** 20,
        rng.randrange(10 ** rng.randint(1, 40))]))
    return [rng.choice(["str", "path"]), rng.random() < .3, template,
        [[num() for _ in template[:-1]] for _ in range(rng.randint(2, 6))]]


def run_ff(inp):
    names, argv, want = inp
    root = harness.scratch("c13")
    try:
        harness.tree(root, {n: "x" * i for i, n in enumerate(names)})
        st, out, err = harness.ff(["--no-cache", "-j", "2", "--color", "never", "type=file"] + argv,
            root)
        got = [os.path.relpath(x, root) if x.startswith("/") else x for x in out.split("\n")[:-1]]
        if st != 0 or (got != want if want is not None else sorted(got) != sorted(names)):
            return f"exit {st}, {got} instead of {want} {err[-400:]}"
        return None
    finally:
        harness.remove(root)


N = ["f10", "F9", "f100", "e", "G"]
FF = [[N, ["-S"], ["e", "f10", "f100", "F9", "G"]],
    [N, ["-S", "path"], ["e", "f10", "f100", "F9", "G"]],
    [N, ["-S", "-R"], ["G", "F9", "f100", "f10", "e"]],
    [N, ["-S", "name:v"], ["e", "F9", "f10", "f100", "G"]],
    [N, ["-S", "name:v", "--reverse"], ["G", "f100", "f10", "F9", "e"]],
    [N, ["-S", "size"], N], [N, ["-S", "size", "-R"], N[::-1]],
    [["b.x", "a.y", "c.x", "d"], ["-S", "ext,name"], ["d", "b.x", "c.x", "a.y"]],
    [["b.x", "a.y", "c.x", "d"], ["-S", "ext,name", "-R"], ["a.y", "c.x", "b.x", "d"]],
    [["x.a.b", "x/a1", "x.1", "a²", "²"], ["-S", "path:v"], None],
    [["a", "b", "c"], ["-S", "link,size"], ["a", "b", "c"]],
    [["a", "b", "c"], ["-S", "size:v,link:v"], ["a", "b", "c"]],
]
def run_find(inp):
    names, sort, reverse, want = inp
    root = harness.scratch("c13")
    try:
        harness.tree(root, {n: "x" * i for i, n in enumerate(names)})
        st, out, err = harness.find(f"""if __name__ == "__main__":
    for e in Find("type=file", sort={sort!r}, reverse={reverse!r}, output=["name"], jobs=2):
        print(e["name"])
""", root)
        got = out.split("\n")[:-1]
        if st != 0 or got != want:
            return f"exit {st}, {got} instead of {want} {err[-400:]}"
        return None
    finally:
        harness.remove(root)


CONCRETE = [
    Concrete("find", run_find, None, [[N, ["name"], False, ["e", "f10", "f100", "F9", "G"]],
        [N, ["name:v"], True, ["G", "f100", "f10", "F9", "e"]],
        [N, ["link", "size"], False, N]], timeout=60),
    Concrete("sort", run_sort, gen_sort, [
        [["str:v"], False, [{"str": "a"}, {}, {"str": "a1"}]],
        [["num:v"], False, [{"num": 3}, {}, {"num": 1}]],
        [["list"], False, [{"list": {"set": ["b"]}}, {}, {"list": ["a"]}]],
        [["list:v", "str"], True, [{"list": {"set": ["b"]}}, {"str": "B"}, {"str": "a"}]],
        [["str"], False, [{"str": "b"}, {"str": "A"}, {}, {"str": "a"}]],
        [["num", "str"], False, [{"num": 2, "str": "a"}, {"str": "c"}, {"num": 0, "str": "B"}]],
        [["path"], True, [{"path": "b/C"}, {"path": "B/a"}, {}]]] +
        [[[f + ":v"], False, [{f: a}, {f: b}]] for f in ("str", "path") for a in WORDS
            for b in WORDS] + [[[k], r, [{}, {k: v}]] for r in (False, True) for k, v in (
            ("str", "a"), ("num", 1), ("flag", True), ("list", ["a"]), ("kind", "file"),
            ("time", 1), ("size", 1), ("mode", 1), ("dur", 1), ("path", "a"))], count=30000),
    Concrete("natural", run_natural, gen_natural, [[f, False, t, [["10"] * (len(t) - 1), ["9"] *
        (len(t) - 1), ["011"] * (len(t) - 1)]] for f in ("str", "path") for t in TEMPLATES],
        count=20000),
    Concrete("ff --sort", run_ff, None, FF, timeout=60),
]


# ---------------------------------------------------------------------------------------- contracts
def world(E):
    """Fields, an entry, a registry: attributes, types and values are arbitrary."""
    import z3
    from pyvc.values import Opaque, OptT, STR, BOOL, SData, SBool, MList, SStr
    key = Opaque("Key", isinstance_=lambda E, v, cls: SBool(is_str(v.t)) if cls is str else False)
    val = Opaque("Value")
    K, V = key.sort(), val.sort()
    is_str = z3.Function("is_str", K, z3.BoolSort())
    ty = Opaque("Type")
    sort_key = z3.Function("sort_key", ty.sort(), V, K)
    none = z3.Function("sort_none", ty.sort(), V)
    natural_key = z3.Function("natural_key", K, K)
    ty.attrs["sort_none"] = lambda E, o: SData(none(o.t), val)
    ty.methods["sort_key"] = lambda E, o, v: SData(sort_key(o.t, v.t), key)
    attr, ent = Opaque("Attribute"), Opaque("Entry")
    missing = z3.Function("missing", ent.sort(), attr.sort(), z3.BoolSort())
    value_of = z3.Function("value_of", ent.sort(), attr.sort(), V)
    field = Opaque("Field", attrs={"attribute": attr, "type": ty, "modifier": STR})

    def get(E, o, entry, attribute):
        if E.branch(missing(entry.t, attribute.t)):
            E.throw(KeyError, "x")
        return SData(value_of(entry.t, attribute.t), val)

    def get2(E, o, entry, attribute):
        return get(E, o, entry, attribute), E.ghosts["type_of"](attribute)
    reg = Opaque("Registry", methods={"get_attribute": get, "get_attribute_and_type": get2})
    E.model(SortFields.prepare_sort_key, lambda E, self, v: SData(natural_key(v.t), key))
    entry = SData(z3.Const("entry", ent.sort()), ent)
    registry = SData(z3.Const("registry", reg.sort()), reg)
    fields = E.list_input("fields", field, cls=SortFields)
    ctx = Opaque("Context", attrs={"registry": lambda E, o: registry})
    fields.fields.update(registry=registry, context=SData(z3.Const("ctx", ctx.sort()), ctx))

    def want(E, f):
        a, t = E.getattr(f, "attribute").t, E.getattr(f, "type").t
        v = z3.If(missing(entry.t, a), none(t), value_of(entry.t, a))
        k = sort_key(t, v)
        m = E.getattr(f, "modifier").t
        return SData(z3.If(z3.And(m == z3.StringVal("v"), is_str(k)), natural_key(k), k), key)
    E.model(wanted, want)
    return fields, entry


def wanted(field):
    raise NotImplementedError


def wanted_all(fields):
    return [wanted(f) for f in fields]


def inv_keys(_any, _done):
    return _any == [wanted(f) for f in _done]


def same(r, w):
    return list(r) == w


def c_render(E):
    fields, entry = world(E)
    E.invariants = [inv_keys]
    k, r = E.call_outcome(SortFields.render, fields, entry)
    E.ensure("a sort key exists whatever attributes the entry has", k == "return")
    if k == "return":
        E.ensure("the key lists the keys of the fields in order, a missing value like the empty "
            "one", E.spec(same, r, E.spec(wanted_all, fields)))


def c_keys(E):
    """The keys of the types."""
    from pyvc.values import STR, INT
    s, n = E.input("s", STR), E.input("n", INT)
    which = E.choice(3)
    if which == 0:
        k, r = E.call_outcome(types.String.sort_key, s)
        E.ensure("strings have a key", k == "return")
        if k == "return":
            E.ensure("strings compare without regard to case", E.spec(lower_of, r, s))
    elif which == 1:
        for t in (types.Number, types.Size, types.Time, types.Duration, types.Mode):
            k, r = E.call_outcome(t.sort_key, n)
            E.ensure("numbers have a key", k == "return")
            if k == "return":
                E.ensure("numbers compare by value", E.spec(equal, r, n))
    else:
        for t in (types.String, types.Path, types.FileType, types.Number, types.Size, types.Time,
                types.Duration, types.Mode, types.Boolean, types.ListOfStrings):
            k, r = E.call_outcome(t.sort_key, t.sort_none)
            E.ensure("a missing value has a key", k == "return")
            if k == "return":
                e = {types.ListOfStrings: []}.get(t, "" if issubclass(t, (types.String,
                    types.FileType)) else 0)
                E.ensure("a missing value is the empty value of the type",
                    list(r.pieces) == [] if e == [] else r == e)


def lower_of(r, s):
    return r == s.lower()


def equal(r, s):
    return r == s



def c_finalize(cls, given):
    """The collected entries are sorted by the keys of --sort, in reverse with --reverse.

    sorted(entries, key, reverse) itself is that of Python: E.sort_hook replaces it by a function
    of the list, whether the key of any entry is the one of --sort, and the direction."""
    def body(E):
        import z3
        from pyvc.values import Opaque, SData, SObj, BOOL, SBool, SeqP
        ent, key = Opaque("Entry"), Opaque("Key")
        render = z3.Function("render", ent.sort(), key.sort())
        some = SData(z3.Const("some_entry", ent.sort()), ent)
        srt = Opaque("Sort", methods={"render": lambda E, o, e: SData(render(e.t), key)})
        sort = SData(z3.Const("sort", srt.sort()), srt) if given else None
        rev = E.input("reverse", BOOL)
        count = z3.Const("count", Opaque("Count").sort())
        args = Opaque("Args", attrs={"sort": lambda E, o: sort, "reverse": lambda E, o: rev,
            "count": lambda E, o: SData(count, Opaque("Count"))})
        done = []
        ctx = Opaque("Context", attrs={"args": lambda E, o: SData(z3.Const("args", args.sort()),
            args)}, methods={"set_has_result": lambda E, o: None})
        entries = E.list_input("entries", ent)
        seq = z3.SeqSort(ent.sort())
        by_key = z3.Function("sorted_by_key", seq, z3.BoolSort(), seq)
        other = z3.Function("sorted_otherwise", seq, z3.BoolSort(), seq)

        def hook(E, pieces, k, reverse):
            t = E.embed_rope(list(pieces), ent)
            good = k is not None and E.call(k, [some], {})
            r = E.truth_term(reverse)
            f = by_key(t, r) if isinstance(good, SData) and good.ty.name == "Key" and \
                good.t.eq(render(some.t)) else other(t, r)
            return [SeqP(f, ent)]
        E.sort_hook = hook
        c = SData(z3.Const("context", ctx.sort()), ctx)
        t = entries.pieces[0].t
        h = SObj(E, cls, {"entries": entries, "context": c, "args": E.getattr(c, "args")})
        k, r = E.call_outcome(cls.finalize, h)
        E.ensure("finishing the collection never fails", k == "return")
        if k == "return":
            got = E.embed_rope(list(E.getattr(h, "entries").pieces), ent)
            want = by_key(t, rev.t) if given else t
            E.ensure("the entries are sorted by the keys of the fields, reversed with --reverse"
                if given else "without --sort the order is kept", SBool(got == want))
    return body



# Texts of a known shape: words (no digits, dots or slashes), numbers, dots and slashes. What the
# standard library does with them is modelled below; the texts of the words and numbers are arbitrary.
WORD, NUM = "[^0-9./\u0080-\U0002ffff]+", "[0-9]+"


def shaped(E, name, shape, words=None):
    """A symbolic text of the given shape: w word, n number, other characters stand for themselves.
    Returns the text and its numbers."""
    from pyvc.values import STR
    import functools
    parts, numbers = [], []
    for i, c in enumerate(shape):
        if c == "w" and words is not None and i in words:
            parts.append(words[i])
        elif c in "wn":
            v = E.input(f"{name}{i}", STR)
            E.assume(E.spec(in_re, v, WORD if c == "w" else NUM))
            if c == "n":
                numbers.append(v)
            elif words is not None:
                words[i] = v
            parts.append(v)
        else:
            parts.append(c)
    return functools.reduce(lambda a, b: E.spec(joined, a, b), parts), numbers


def joined(a, b):
    return a + b


def library(E):
    """What the standard library does with texts of a known shape."""
    import z3
    from pyvc import builtins_ as B
    from pyvc.values import SStr, STR, Unsupported
    E.unroll = 6
    E.model(os.path.normpath, lambda E, p: p)

    def splitext(E, p):
        if isinstance(p, str):
            return os.path.splitext(p)
        parts = B.split_rope(E, p.t, "/")
        if parts is None:
            raise Unsupported("splitext")
        parts = B.split_rope(E, STR.unwrap(E, parts[-1]), ".")
        if parts is None:
            raise Unsupported("splitext")
        if len(parts) == 1:
            return p, ""
        if not any(isinstance(x, SStr) for x in parts[:-1]):
            raise Unsupported("splitext of a hidden file")
        ext = B.str_concat(E, [".", parts[-1]])
        n = len(E.B.str_rope(E, STR.unwrap(E, parts[-1])))
        rope = [SStr(t) for t in B.str_rope(E, p.t)]
        stem = rope[:len(rope) - n]
        last = B.zstr(stem[-1].t)
        assert last.endswith(".")
        return B.str_concat(E, stem[:-1] + [last[:-1]]), ext

    def split(E, pat, s):
        if pat.pattern not in (r"(\d+)", "([0-9]+)"):
            raise Unsupported("another expression")
        if isinstance(s, str):
            return E.new_list(pat.split(s))
        out = [[]]
        for p in B.str_rope(E, s.t):
            digits = B.all_digits(E, p)
            if digits:
                out += [[SStr(p)], []]
            elif z3.is_string_value(p) and not any(c.isdigit() for c in B.zstr(p)):
                out[-1].append(B.zstr(p))
            elif E.known_in(p, B.without("0123456789")):
                out[-1].append(SStr(p))
            else:
                raise Unsupported("split")
        return E.new_list([B.str_concat(E, x) if x else "" for x in out])
    E.model(os.path.splitext, splitext)
    E.pattern_hooks["split"] = split


def compare(E, a, b):
    """(whether a and b can be compared, a < b, a == b) as terms."""
    import z3
    from pyvc.values import MList, SStr, SInt, STR, INT
    T, F = z3.BoolVal(True), z3.BoolVal(False)
    lists = [isinstance(x, (MList, tuple)) for x in (a, b)]
    if all(lists):
        xs, ys = [list(x.pieces if isinstance(x, MList) else x) for x in (a, b)]
        ok, less, same = T, F, T
        for x, y in zip(xs, ys):
            c, l, e = compare(E, x, y)
            ok = z3.And(ok, z3.Implies(same, c))
            less = z3.Or(less, z3.And(same, l))
            same = z3.And(same, e)
        return (ok, z3.Or(less, same) if len(xs) < len(ys) else less,
            same if len(xs) == len(ys) else F)
    if any(lists):
        return F, F, F
    strs = [isinstance(x, (SStr, str)) for x in (a, b)]
    if all(strs):
        x, y = STR.unwrap(E, a), STR.unwrap(E, b)
        return T, F if x.eq(y) else x < y, E.as_bool_term(E.eq(a, b))
    if any(strs):
        return F, F, F
    x, y = INT.unwrap(E, a), INT.unwrap(E, b)
    return T, x < y, x == y


SHAPES = ["w", "n", "wn", "nw", "wnw", "w.w", "w.n", "wn.w", "w.wn", "w/w", "w/n", "w/wn", "n/w.w",
    "w.w.w", "w.w/w", "w.wn/n", "w.nw/w.w"]


def key_of(E, text):
    """The part of the sort key for a text with the modifier v."""
    from pyvc.values import MList
    obj = MList(E, [], cls=SortFields)
    return E.call_outcome(SortFields.prepare_sort_key, obj, text)


def c_comparable(i):
    def body(E):
        from pyvc.values import SBool
        library(E)
        other = SHAPES[i:][E.choice(len(SHAPES) - i)]
        a, _ = shaped(E, "a", SHAPES[i])
        b, _ = shaped(E, "b", other)
        ka, va = key_of(E, a)
        kb, vb = key_of(E, b)
        E.ensure("texts have natural sort keys", ka == kb == "return")
        if ka == kb == "return":
            E.ensure("any two natural sort keys can be compared",
                SBool(compare(E, va, vb)[0]))
    return body


def c_numbers(E):
    import z3
    from pyvc.values import SBool, INT
    library(E)
    shape = [s for s in SHAPES if "n" in s][E.choice(len([s for s in SHAPES if "n" in s]))]
    words = {}
    a, ns = shaped(E, "a", shape, words)
    b, ms = shaped(E, "b", shape, words)
    ka, va = key_of(E, a)
    kb, vb = key_of(E, b)
    E.ensure("texts have natural sort keys", ka == kb == "return")
    if ka == kb == "return":
        less, same = z3.BoolVal(False), z3.BoolVal(True)
        for n, m in zip(ns, ms):
            x, y = [INT.unwrap(E, E.spec(number, v)) for v in (n, m)]
            less = z3.Or(less, z3.And(same, x < y))
            same = z3.And(same, x == y)
        ok, got, eq = compare(E, va, vb)
        E.ensure("texts that differ in their numbers are ordered by the values of the numbers",
            SBool(z3.And(ok, got == less, eq == same)))


def number(s):
    return int(s)


def model_texts(label, i):
    for shape in SHAPES:
        for other in SHAPES:
            try:
                a, b = ["".join(c if c not in "wn" else i[f"{x}{k}"] for k, c in enumerate(s))
                    for x, s in (("a", shape), ("b", other))]
            except KeyError:
                continue
            yield [["str:v"], False, [{"str": a}, {"str": b}]]


CONTRACTS = [
    Contract("render", c_render, "sort"),
    Contract("sort_key", c_keys, "sort"),
    Contract("CollectiveMixin.finalize/sort", c_finalize(CollectiveMixin, True), "natural"),
    Contract("CollectiveMixin.finalize/unsorted", c_finalize(CollectiveMixin, False), "natural"),
    Contract("CollectiveGenerator.finalize", c_finalize(CollectiveGenerator, True), "find")] + [
    Contract(f"natural keys are comparable/{s}", c_comparable(i), "sort", model_texts,
        bounded="texts of 17 shapes of words and numbers; any words and numbers")
        for i, s in enumerate(SHAPES)] + [
    Contract("natural keys order numbers", c_numbers, "natural", bounded="texts of 11 shapes")]
cleanup = harness.cleanup
