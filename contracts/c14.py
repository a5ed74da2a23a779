"""C14: --limit."""

import os

from contracts.common import Contract, Concrete, outcome
from contracts import harness
from pyvc.spec import in_re
from libff.argparse import type_slice
from libff.processing import CollectiveMixin


# ------------------------------------------------------------------------------------ concrete runs
def number(s):
    t = s[1:] if s[:1] == "-" else s
    return t != "" and all(c in "0123456789" for c in t)


def reference(text):
    """(start, stop) denoted by a text, or None if it must be rejected."""
    if text.count(":") == 1:
        a, b = text.split(":")
        if (a and not number(a)) or (b and not number(b)):
            return None
        return (int(a) if a else 0, int(b) if b else None)
    if text.count(",") == 1:
        a, b = text.split(",")
        if not number(a) or not number(b) or "-" in text:
            return None
        return (int(a) * int(b), int(a) * (int(b) + 1))
    return None


def ascii_digits(text):
    return not any(c.isdigit() and c not in "0123456789" for c in text)


def run_parse(text):
    exp = reference(text)
    k, v = outcome(type_slice, text)
    if exp is None:
        if k == "return" and ascii_digits(text):
            return f"accepted as {v}"
        return None
    if k == "raise":
        return f"rejected: {v!r}"
    data = list(range(12))
    if data[v[0]:v[1]] != data[exp[0]:exp[1]] or list(v) != list(exp):
        return f"parsed as {v}, denotes {exp}"
    return None


PARSE = ["0:1", ":", "1:", ":1", "-1:", ":-1", "-3:-1", "3:-1", "-3:2", "5,0", "5,1", "0,3", "1,0",
    "10,10", "1:2\n", "5,1\n", "", "1", ",", "1,", ",1", "-1,2", "1,-2", "1:2:3", "a:b", "--1:2",
    "1 :2", "+1:2", "00:07", ":-0", "1:2,3", "1,2:3", "-:", ":-", " 1:2", "1:2 "]


def gen_parse(rng):
    n = lambda: rng.choice(["", "-"]) * (rng.random() < .4) + rng.choice(["", str(rng.randrange(9)),
        str(rng.randrange(300))])
    s = n() + rng.choice([":", ":", ","]) + n()
    if rng.random() < .15:
        i = rng.randrange(len(s) + 1)
        s = s[:i] + rng.choice([" ", "\n", "x", ":", ",", "-", "."]) + s[i:]
    return s


class Holder(CollectiveMixin):
    def __init__(self, entries, limit):  # pylint:disable=super-init-not-called
        self.entries = entries
        self.context = type("C", (), {"args": type("A", (), {"limit": limit})()})()

    args = property(lambda self: self.context.args)


def run_range(inp):
    n, text = inp
    limit = None
    if text is not None:
        k, limit = outcome(type_slice, text)
        if k == "raise":
            return None if reference(text) is None else f"rejected: {limit!r}"
        if reference(text) is None:
            return None
    data = [object() for _ in range(n)]
    k, r = outcome(Holder(list(data), limit).entries_range)
    if k == "raise":
        return f"raised {r!r}"
    a, b = (0, None) if text is None else reference(text)
    exp = data[a:b]
    r = list(r)
    if len(r) != len(exp) or any(x is not y for x, y in zip(r, exp)):
        return f"selected {[data.index(x) for x in r]} of {n} entries"
    return None


def run_ff(inp):
    """The real program: the sorted names of n files, sliced."""
    n, text = inp
    root = harness.scratch("c14")
    try:
        names = [f"f{i:03d}" for i in range(n)]
        harness.tree(root, {x: "" for x in names})
        argv = ["--no-cache", "-j", "2", "--color", "never", "-S", "name"]
        if text is not None:
            argv += ["--limit", text]
        st, out, err = harness.ff(argv, root)
        exp = (0, None) if text is None else reference(text)
        if exp is None:
            return None if st == 2 and out == "" else f"invalid limit: exit status {st}, {out!r}"
        want = names[exp[0]:exp[1]]
        got = out.split("\n")[:-1]
        if st != 0 or got != want:
            return f"exit status {st}, printed {got}, expected {want} ({err[-300:]})"
        return None
    finally:
        harness.remove(root)


RANGES = [[n, t] for n in (0, 1, 2, 5, 7) for t in (None, ":", "0:1", "1:", ":1", ":-1", "-1:",
    "-2:", "-3:-1", "1:-1", "2:2", "3:1", "5,0", "2,1", "2,2", "2,3", "0,0", "1,0", "3,1", "0:0",
    "-9:3", "9:", ":-9", "2:99")]
CONCRETE = [
    Concrete("parse_limit", run_parse, gen_parse, PARSE, count=30000),
    Concrete("entries_range", run_range, lambda rng: [rng.choice([0, 1, 2, 3, 7, 20]),
        gen_parse(rng)], RANGES, count=30000),
    Concrete("ff --limit", run_ff, None, [[5, None], [5, "1:3"], [5, "-2:"], [5, ":-1"], [5, "2,1"],
        [5, "2,2"], [0, "0:2"], [5, "0:0"], [5, "9,0"], [5, "x"], [5, "1:2\n"]], timeout=60),
]


# ---------------------------------------------------------------------------------------- contracts
NUM = "-?[0-9]+"
SLICE = "(-?[0-9]+)?:(-?[0-9]+)?|[0-9]+,[0-9]+"


def valid(s):
    return in_re(s, SLICE)


def c_rejects(E):
    from pyvc.values import STR
    E.regex_ascii = True
    text = E.input("text", STR)
    k, v = E.call_outcome(type_slice, text)
    ok = E.spec(valid, text)
    E.ensure("exactly the texts of the form START:STOP or SIZE,PAGE are accepted", ok
        if k == "return" else E.spec(lambda x: not x, ok))


def c_slice(has_a, has_b):
    def body(E):
        from pyvc.values import STR
        E.regex_ascii = True
        a = b = ""
        if has_a:
            a = E.input("a", STR)
            E.assume(E.spec(in_re, a, NUM))
        if has_b:
            b = E.input("b", STR)
            E.assume(E.spec(in_re, b, NUM))
        k, v = E.call_outcome(type_slice, E.spec(lambda a, b: a + ":" + b, a, b))
        E.ensure("a slice is accepted", k == "return")
        if k == "return":
            E.ensure("the start is the number given or the beginning", E.spec(start_ok, v, a)
                if has_a else E.spec(start_zero, v))
            E.ensure("the stop is the number given or the end", E.spec(stop_ok, v, b)
                if has_b else E.spec(stop_none, v))
    return body


def start_ok(v, a):
    return v[0] == int(a)


def start_zero(v):
    return v[0] == 0


def stop_ok(v, b):
    return v[1] == int(b)


def stop_none(v):
    return v[1] is None


def c_page(E):
    from pyvc.values import STR
    E.regex_ascii = True
    size, page = E.input("size", STR), E.input("page", STR)
    E.assume(E.spec(in_re, size, "[0-9]+"))
    E.assume(E.spec(in_re, page, "[0-9]+"))
    k, v = E.call_outcome(type_slice, E.spec(lambda a, b: a + "," + b, size, page))
    E.ensure("a page is accepted", k == "return")
    if k == "return":
        E.ensure("the page starts at its number times the size",
            E.spec(lambda v, s, p: v[0] == int(s) * int(p), v, size, page))
        E.ensure("the page has the given size",
            E.spec(lambda v, s, p: v[1] == int(s) * int(p) + int(s), v, size, page))


def holder(E, entries, limit):
    from pyvc.values import Opaque, SData, SObj
    import z3
    args = Opaque("Args", attrs={"limit": lambda E, o: limit})
    ctx = Opaque("Context", attrs={"args": lambda E, o: SData(z3.Const("args", args.sort()), args)})
    return SObj(E, CollectiveMixin, {"entries": entries,
        "context": SData(z3.Const("context", ctx.sort()), ctx)})


def c_range(kind):
    def body(E):
        from pyvc.values import INT
        entries = E.list_input("entries", INT)
        a = E.input("a", INT)
        b = E.input("b", INT) if kind == "both" else None
        limit = None if kind == "none" else (a, b)
        k, r = E.call_outcome(CollectiveMixin.entries_range, holder(E, entries, limit))
        E.ensure("selecting the range never fails", k == "return")
        if k != "return":
            return
        if kind == "none":
            E.ensure("without --limit everything is kept", E.spec(lambda r, e: r == e, r, entries))
            return
        n = E.spec(lambda e: len(e), entries)
        lo = E.spec(clamp, a, n)
        hi = E.spec(clamp, b, n) if kind == "both" else n
        E.ensure("the number of entries is that of the slice", E.spec(length_ok, r, lo, hi))
        E.ensure("the entries are those of the slice, in order", E.spec(slice_ok, r, entries, lo,
            hi))
    return body


def clamp(i, n):
    if i < 0:
        return i + n if i + n >= 0 else 0
    return i if i < n else n


def length_ok(r, lo, hi):
    return len(r) == (hi - lo if hi > lo else 0)


def slice_ok(r, entries, lo, hi):
    return r == entries[lo:hi]


def c_partition(E):
    """The pages 0, 1, 2, ... of a result are disjoint, adjacent and contain every entry."""
    from pyvc.values import INT
    n, size, i = E.input("n", INT), E.input("size", INT), E.input("i", INT)
    E.assume(E.spec(lambda n, s, i: s > 0 and 0 <= i and i < n, n, size, i))
    p = E.spec(lambda i, s: i // s, i, size)
    E.ensure("every entry is on the page given by its position",
        E.spec(lambda i, s, p: s * p <= i and i < s * (p + 1) and p >= 0, i, size, p))
    q = E.input("q", INT)
    E.ensure("and on no other page", E.spec(lambda i, s, p, q:
        not (s * q <= i and i < s * (q + 1)) or q == p, i, size, p, q))


def model_text(label, i):
    if "text" in i:
        yield i["text"]
    elif "size" in i:
        yield i["size"] + "," + i["page"]
    else:
        yield i.get("a", "") + ":" + i.get("b", "")


def model_range(label, i):
    b = i.get("b")
    yield [len(i["entries"]), f"{i['a']}:{'' if b is None else b}"]


CONTRACTS = [Contract("type_slice/form", c_rejects, "parse_limit", model_text)] + [
    Contract(f"type_slice/{'START' if a else ''}:{'STOP' if b else ''}", c_slice(a, b),
        "parse_limit", model_text) for a in (0, 1) for b in (0, 1)] + [
    Contract("type_slice/page", c_page, "parse_limit", model_text)] + [
    Contract(f"entries_range/{k}", c_range(k), "entries_range", model_range) for k in ("none",
        "start", "both")] + [Contract("pages partition the result", c_partition)]
ASSUMPTIONS = ["digits are ASCII (\\d)", "list slicing is that of CPython"]
cleanup = harness.cleanup
