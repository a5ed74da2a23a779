"""C04: numeric, permission, Boolean and file type operators."""

import stat
from contracts.common import Contract, Concrete, outcome
from contracts import harness
from pyvc.spec import bits
from libff.type import Number, Size, Time, Duration, Mode, Boolean, FileType, Type
from libff.parser import Test

OPS = {"=": "=", "+=": "+=", ">=": "+=", "-=": "-=", "<=": "-=", "+": "+", ">": "+", "-": "-",
        "<": "-"}
WORDS = {"d": "directory", "directory": "directory", "f": "file", "file": "file",
    "l": "symlink", "symlink": "symlink", "s": "socket", "socket": "socket", "p": "fifo",
    "pipe": "fifo", "fifo": "fifo", "char": "char", "block": "block", "door": "door",
    "port": "port", "whiteout": "whiteout", "other": "other"}


def compare(op, value, bound):
    if op == "=":
        return value == bound
    if op == "+=":
        return value >= bound
    if op == "-=":
        return value <= bound
    if op == "+":
        return value > bound
    return value < bound


def mode_spec(op, value, wanted):
    v, w = value & 0o7777, wanted & 0o7777
    if op == "=":
        return v == w
    if op == ":":
        return v & w == w
    return v & w != 0


# ------------------------------------------------------------------------------------ concrete runs
def check(expr, vt, expected, **attrs):
    k, m = outcome(harness.matcher, [expr])
    if k == "raise":
        return f"{expr!r} is rejected: {m!r}"
    k, r = outcome(m.test, harness.FakeEntry(vt, **attrs))
    if k == "raise":
        return f"{expr!r} on {vt or attrs} raised {r!r}"
    if bool(r) != expected:
        return f"{expr!r} on {vt or attrs} is {r}"
    return None


def run_number(inp):
    kind, op, value, bound = inp
    text = {"num": str(bound), "size": str(bound), "dur": f"{bound}s", "time": str(bound)}[kind]
    return check(f"n_{kind}{op}{text}", {"n_" + kind: value}, compare(OPS[op], value, bound))


def gen_number(rng):
    v = rng.choice([rng.randrange(5), rng.randrange(300), rng.randrange(2 ** 40)])
    b = max(0, v + rng.choice([0, 0, 0, 1, -1, 2, -2, rng.randint(-300, 300)]))
    return [rng.choice(["num", "size", "dur", "time"]), rng.choice(list(OPS)), v, b]


def run_mode(inp):
    op, value, wanted = inp
    return check(f"n_mode{op}{wanted:o}", {"n_mode": value}, mode_spec(op, value, wanted)) or \
        check(f"perm{op}{wanted:o}", {}, mode_spec(op, value, wanted), perm=value)


def gen_mode(rng):
    w = rng.choice([rng.randrange(4096), 1 << rng.randrange(12), 0o644, 0o755, 0, 0o7777])
    v = w ^ rng.choice([0, 0, 1 << rng.randrange(12), rng.randrange(4096), rng.randrange(4096)])
    return [rng.choice("=:~"), v | rng.choice([0, 0, 0o100000, 0o40000]), w]


def run_bool(inp):
    word, value = inp
    exp = word.lower() in ("true", "t", "1", "yes", "y", "on")
    return check(f"n_flag={word}", {"n_flag": value}, value == exp)


def run_type(inp):
    word, value = inp
    return check(f"n_kind={word}", {"n_kind": value}, WORDS[word] == value) or \
        check(f"type={word}", {}, WORDS[word] == value, type=value)


KINDS = sorted(set(WORDS.values()))
CONCRETE = [
    Concrete("number", run_number, gen_number, [[k, o, v, b] for k in ("num", "size", "dur",
        "time") for o in OPS for v in (0, 1, 2, 5) for b in (0, 1, 2, 5)], count=40000),
    Concrete("mode", run_mode, gen_mode, [[o, v, w] for o in "=:~" for v in (0, 1, 0o644, 0o755,
        0o4755, 0o7777, 0o100644) for w in (0, 1, 0o644, 0o755, 0o4000, 0o7777)], count=40000),
    Concrete("boolean", run_bool, None, [[w, v] for w in ("true", "t", "1", "yes", "y", "on",
        "TRUE", "Yes", "False", "false", "f", "0", "no", "n", "off", "OFF") for v in (True,
        False)]),
    Concrete("type", run_type, None, [[w, v] for w in WORDS for v in KINDS]),
]


# ---------------------------------------------------------------------------------------- contracts
def test_of(op, value, ty=None):
    return Test(None, op, ty, value, None)


def c_number(cls):
    def body(E):
        from pyvc.values import INT
        value, bound = E.input("value", INT), E.input("bound", INT)
        ops = ["=", "+=", "-=", "+", "-"]
        op = ops[E.choice(5)]
        E.inputs["op"] = op
        k, r = E.call_outcome(cls.test, None, test_of(op, bound), value)
        E.ensure("comparing numbers never fails", k == "return")
        if k == "return":
            E.ensure(f"the operator compares as it says", E.spec(lambda r, v, b: bool(r) ==
                compare(op, v, b), r, value, bound))
    return body


def c_mode(E):
    from pyvc.values import Bits
    value, wanted = E.input("value", Bits(32)), E.input("wanted", Bits(32))
    op = "=:~"[E.choice(3)]
    E.inputs["op"] = op
    k, r = E.call_outcome(Mode.test, None, test_of(op, wanted), value)
    E.ensure("comparing permissions never fails", k == "return")
    if k == "return":
        E.ensure("the twelve permission bits are compared as the operator says",
            E.spec(lambda r, v, w: bool(r) == mode_spec(op, v, w), r, value, wanted))


def c_boolean(E):
    from pyvc.values import BOOL
    value, wanted = E.input("value", BOOL), E.input("wanted", BOOL)
    k, r = E.call_outcome(Boolean.test, None, test_of("=", wanted), value)
    E.ensure("comparing truth values never fails", k == "return")
    if k == "return":
        E.ensure("truth values are compared", E.spec(lambda r, v, w: bool(r) == (v == w), r,
            value, wanted))


def c_boolean_input(E):
    words = ["true", "t", "1", "yes", "y", "on", "false", "f", "0", "no", "n", "off"]
    words += [w.upper() for w in words] + [w.capitalize() for w in words]
    w = words[E.choice(len(words))]
    E.inputs["word"] = w
    k, r = E.call_outcome(Boolean.input, w)
    E.ensure("every word for a truth value is accepted", k == "return")
    if k == "return":
        E.ensure("the word denotes its truth value", r is (w.lower() in words[:6]))


def c_type(E):
    from pyvc.values import STR
    words = list(WORDS)
    w = words[E.choice(len(words))]
    E.inputs["word"] = w
    value = E.input("value", STR)
    k, r = E.call_outcome(FileType.test, None, test_of("=", w), value)
    E.ensure("comparing types never fails", k == "return")
    if k == "return":
        E.ensure("exactly the named type matches",
            E.spec(lambda r, v: bool(r) == (v == WORDS[w]), r, value))


def num_inputs(kind):
    def f(label, i):
        if i["value"] >= 0 and i["bound"] >= 0:
            yield [kind, i["op"], i["value"], i["bound"]]
    return f


CONTRACTS = [Contract(f"{cls.__name__}.test", c_number(cls), "number", num_inputs(kind))
    for cls, kind in ((Number, "num"), (Size, "size"), (Time, "time"), (Duration, "dur"))] + [
    Contract("Mode.test", c_mode, "mode", lambda label, i: [[i["op"], i["value"] & 0o177777,
        i["wanted"] & 0o7777]]),
    Contract("Boolean.test", c_boolean, "boolean",
        lambda label, i: [["yes" if i["wanted"] else "no", i["value"]]]),
    Contract("Boolean.input", c_boolean_input, "boolean",
        lambda label, i: [[i["word"], True], [i["word"], False]]),
    Contract("FileType.test", c_type, "type", lambda label, i: [[i["word"], i["value"]]] if
        i["value"] in KINDS else []),
]
ASSUMPTIONS = ["permission values fit in 32 bits"]
cleanup = harness.cleanup
