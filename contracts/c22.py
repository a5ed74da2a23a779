"""C22: the parser of the command line."""

import contextlib
import io
import re

from contracts.common import Contract, Concrete, outcome
from contracts import harness
from libff import MAX_CPU
from libff.argparse import ArgumentError, ArgumentParser
from libff.arguments import create_parser
from libff.exceptions import EX_USAGE

LS = ["mode:h", "links", "user:h", "group:h", "size:5h", "time:h", "path:h"]


# --------------------------------------------------------------------------------------- reference
class Bad(Exception):
    pass


def jobs(s):
    if not re.fullmatch(r"\s*(\+?[0-9]+|-0+)\s*", s) or len(s) > 4000:
        raise Bad
    return min(int(s), MAX_CPU) or MAX_CPU


def names(s):
    return [x.strip() for x in s.split(",")]


def ranges(s):
    out = []
    for x in names(s):
        m = re.fullmatch("([0-9]*)(-?)([0-9]*)", x)
        if m is None or not x or len(x) > 4000:
            raise Bad
        a, dash, b = m.groups()
        if not dash:
            out.append((int(a), int(a)))
        elif a and b:
            out.append((min(int(a), int(b)), max(int(a), int(b))))
        else:
            out.append((int(a or 0), int(b) if b else None))
    return out


def slices(s):
    m = re.fullmatch("(-?[0-9]+|):(-?[0-9]+|)", s)
    if m and len(s) < 4000:
        return int(m[1] or 0), int(m[2]) if m[2] else None
    m = re.fullmatch("([0-9]+),([0-9]+)", s)
    if m and len(s) < 4000:
        return int(m[1]) * int(m[2]), int(m[1]) * (int(m[2]) + 1)
    raise Bad


def choice(*choices):
    def convert(s):
        if s not in choices:
            raise Bad
        return s
    return convert


OPTIONS = {}


def option(strings, action, dest, arg=None):
    for s in strings.split():
        OPTIONS[s] = (action, dest, arg)


for _o, _d in (("-H --hide", "hide"), ("-I --ignore", "ignore"), ("--no-parent-ignore",
        "no_parent_ignore"), ("-L --follow", "follow_symlinks"), ("--one-file-system --mount --xdev",
        "one_file_system"), ("--fail", "fail"), ("-a --absolute-path", "absolute_path"),
        ("-R --reverse", "reverse"), ("--all", "all"), ("--si", "si")):
    option(_o, "const", _d, True)
for _o, _d, _v in (("--no-cache", "cache", None), ("--clean-cache", "action", "clean"), ("--version",
        "action", "version"), ("--help-full", "action", "full"), ("--help-attributes", "action",
        "attributes"), ("--help-plugins", "action", "plugins"), ("--help-types", "action", "types"),
        ("-0 --print0", "newline", "\0"), ("-v --verbose", "output", LS), ("-1", "limit", (0, 1)),
        ("--json", "json", "json"), ("--jsonl --ndjson", "json", "jsonl")):
    option(_o, "const", _d, _v)
for _o, _d, _v in (("--cache", "cache", str), ("-j --jobs", "jobs", jobs), ("--ignore-files",
        "ignore_files", lambda s: set(names(s))), ("-d --depth", "depth", ranges), ("-c --case", "case",
        choice("smart", "ignore", "sensitive")), ("--halt --halt-on-error", "halt", choice("never",
        "soon", "now")), ("-C --color", "color", choice("auto", "never", "always")), ("-l --limit",
        "limit", slices), ("-o --output", "output", names), ("--sep", "separator", str)):
    option(_o, "value", _d, _v)
option("-D --directory", "append", "directories")
option("-e --exclude", "append", "exclude")
option("-x --exec", "rest", "exec")
option("-X --exec-batch", "rest", "exec_batch")
option("-h --help", "optional", "help", (str, "all"))
option("-S --sort", "optional", "sort", (names, ["file.path"]))
option("--count", "optional", "count", (names, [""]))


def parse(argv):
    """The values that a command line sets."""
    argv = list(argv)
    out = {}

    def lookup(o):
        if o not in OPTIONS:
            raise Bad
        return OPTIONS[o]
    while argv:
        a = argv.pop(0)
        if not a.startswith("-"):
            if "tests" in out:
                raise Bad
            out["tests"] = [a]
            while argv and not argv[0].startswith("-"):
                out["tests"].append(argv.pop(0))
            continue
        if a.startswith("--") and "=" in a:
            a, v = a.split("=", 1)
            if lookup(a)[0] not in ("value", "optional", "append"):
                raise Bad
            argv.insert(0, v)
        elif not a.startswith("--") and len(a) > 2:
            kind = lookup(a[:2])[0]
            if kind == "const" and a[2] == "-":
                raise Bad
            argv.insert(0, "-" + a[2:] if kind == "const" else a[2:])
            a = a[:2]
        kind, dest, arg = lookup(a)
        if kind == "const":
            out[dest] = arg
        elif kind == "rest":
            if not argv:
                raise Bad
            out[dest] = out.get(dest, []) + argv
            argv = []
        elif kind == "optional":
            out[dest] = arg[0](argv.pop(0)) if argv and not argv[0].startswith("-") else arg[1]
        else:
            if not argv:
                raise Bad
            v = argv.pop(0)
            out[dest] = arg(v) if kind == "value" else out.get(dest, []) + [v]
    return out


# ------------------------------------------------------------------------------------ concrete runs
def parsed(argv):
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(io.StringIO()):
            return create_parser().parse_args(list(argv))
    except SystemExit as exc:
        if exc.code != EX_USAGE or not err.getvalue().strip():
            raise
        return "error"


def run(argv):
    try:
        want = parse(argv)
    except Bad:
        want = "error"
    try:
        got = parsed(argv)
    except BaseException as exc:
        return f"failed with {exc!r}"
    if got == "error" or want == "error":
        return None if got == want else "accepted" if want == "error" else "rejected"
    default = parsed([])
    dests = {d for _, d, _ in OPTIONS.values()} | {"tests"}
    for d in sorted(dests):
        w = want[d] if d in want else default[d]
        if got[d] != w:
            return f"{d} is {got[d]!r} instead of {w!r}"
    return None


VALUES = {jobs: ["4", "0", "1", "999"], names: ["size", "a,b", " a , b", "", "size:5h,path"], ranges: ["3",
    "1-2,4-", "-", "-3", "5-2", "0"], slices: [":5", "-5:", "2,3", ":", "1:-1"], str: ["", "x y", "a=b",
    "\udcff"]}
SHORT = sorted(o for o in OPTIONS if not o.startswith("--"))
BAD = ["x", "", "-1", "1.5", "--", "1-2-3", "9" * 4400, "a:b", "smart ", "Never", "٣x"]


def good(rng, o):
    kind, dest, arg = OPTIONS[o]
    if kind == "optional":
        arg = arg[0]
    if callable(arg) and arg in VALUES:
        return rng.choice(VALUES[arg])
    if dest == "ignore_files":
        return rng.choice(["a,b", ".x"])
    if dest in ("case", "halt", "color"):
        return rng.choice({"case": ["smart", "ignore", "sensitive"], "halt": ["never", "soon", "now"],
            "color": ["auto", "never", "always"]}[dest])
    return rng.choice(["d", "a/b", "size=3", "-e", "--x", "", "=", "x=y z"])


def gen(rng):
    argv = []
    tests = False
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        o = rng.choice(SHORT if r < 0.5 else list(OPTIONS))
        v = good(rng, o) if rng.random() < 0.9 else rng.choice(BAD)
        kind = OPTIONS[o][0]
        if kind == "rest" and rng.random() < 0.8:
            continue
        if o in SHORT and rng.random() < 0.6:
            flags = [rng.choice(SHORT) for _ in range(rng.randint(0, 3))]
            o = "-" + "".join(f[1] for f in flags if OPTIONS[f][0] == "const") + o[1]
        if r > 0.95:
            o = rng.choice([o[:-1], o + "s", o.upper(), o.replace("-", "_"), o[:6], "-" + o, "--nosuch", "-z", "-Hz", "--hide=1", "-", "--", "--=", "-=", "-RR-", "---"])
            argv.append(o)
        elif kind in ("const", "rest") or kind == "optional" and rng.random() < 0.4:
            argv.append(o)
        elif kind == "optional" and v.startswith("-"):
            argv.append(o)
        elif o.startswith("--"):
            argv += [o + "=" + v] if rng.random() < 0.5 else [o, v]
        else:
            argv += [o + v] if rng.random() < 0.4 else [o, v]
        if not tests and rng.random() < 0.3:
            tests = rng.random() < 0.9
            argv += rng.choice([["size=3"], ["a", "b", "a"], ["", "x y"], ["name=-x", "{{", "}}"]])
    if rng.random() < 0.2:
        argv += [rng.choice(["-x", "-X", "--exec", "-Hx", "-HRX", "-xcp"])] + rng.choice([[], ["echo",
            "-n", "{}"], ["ls", "--color=auto", "-S", "-H"], ["-x"]])
    if rng.random() < 0.1:
        argv = argv[:-1]
    return argv


DIRECTED = [["-HS", "size=3"], ["-SR"], ["-RS", "size", "name=x"], ["-Hj", "4"], ["-j4"], ["-Hj4", "a"],
    ["-j", "x"], ["-j", "-1"], ["--jobs="], ["-d", "x"], ["--depth=a-b"], ["-l", "x"], ["-c", "foo"],
    ["--case=SMART"], ["--halt", "later"], ["--color=red"], ["-Cred"], ["-xcp", "a", "b"], ["-Hx", "cp"],
    ["-x"], ["-X"], ["-j"], ["-e", "a", "-e", "b", "-eb", "--exclude=c", "-He", "d"], ["-D", "-x"],
    ["a", "b", "-H"], ["a", "-H", "b"], ["--hide=no"], ["-ec=d"], ["--exclude=a=b"], ["--sort=size"],
    ["--sort", "size"], ["--sort", "-R"], ["-S", "-R"], ["-h"], ["--nosuch"], ["-Hq"], ["-"], ["--"],
    ["-x", "ls", "-x", "--nosuch"], ["-X", "ls", "", "-X"], ["-o", "-x"], ["-j", "9" * 5000], ["-l",
    "9" * 5000 + ":"], ["-d", "9" * 5000]]


def run_ff(inp):
    """[the options from the environment, the arguments]"""
    env, argv = inp
    root = harness.scratch("c22")
    try:
        harness.tree(root, {"a": "", ".b": "", "c.txt": ""})
        st, out, err = harness.ff(["--no-cache"] + argv, root, env={"FF_OPTIONS": env} if env else {})
        if st != 2 or "Traceback" in err or not err.strip() or out:
            return f"exit {st}, {out!r}, {err[-300:]!r}"
        return None
    finally:
        harness.remove(root)


FF = [[None, ["-j", "x"]], [None, ["-j", ""]], [None, ["-d", "x"]], [None, ["-d", ""]], [None, ["-l",
    "x"]], [None, ["-c", "foo"]], [None, ["--halt", "foo"]], [None, ["--color=foo"]], [None,
    ["--nosuch"]], [None, ["-x"]], [None, ["-H", "-e"]], [None, ["--si=yes"]], [None, ["a", "-H", "b"]],
    ["-j x", []], ["'", []], ["--nosuch", ["-H"]], [None, ["-"]], [None, ["-HRz"]], [None, ["-d", "1-2-3"
    ]], [None, ["-l", "1,-1"]]]
CONCRETE = [Concrete("parser", run, gen, DIRECTED, count=50000),
    Concrete("ff", run_ff, lambda rng: rng.choice(FF), FF, timeout=60)]


# ---------------------------------------------------------------------------------------- contracts



def setup():
    p = ArgumentParser()
    p.add_option("tests", action="arguments", help="")
    p.add_option("-a", "--aa", action="store_true", default=False, help="")
    p.add_option("-b", "--bb", type=convert, help="")
    p.add_option("-c", "--cc", action="store_optional", type=convert, const="c", help="")
    p.add_option("-d", "--dd", action="append", default=[], help="")
    p.add_option("-e", "--ee", action="store_remainder", help="")
    return p


def convert(s):
    raise NotImplementedError


def wrong(s):
    raise NotImplementedError


def converted(s):
    raise NotImplementedError


def denoted(argv):
    """None for a usage error, else the tests, the flag, the value, the optional value, the appended
       values and the rest that a command line denotes."""
    argv = list(argv)
    tests, aa, bb, cc, dd, ee = [], False, None, None, [], None
    while len(argv) > 0:
        a = argv.pop(0)
        if a[:1] != "-":
            if tests:
                return None
            tests.append(a)
            while len(argv) > 0 and argv[0][:1] != "-":
                tests.append(argv.pop(0))
            continue
        attached = False
        if a[:2] == "--":
            if "=" in a:
                i = a.index("=")
                argv.insert(0, a[i + 1:])
                a = a[:i]
                attached = True
        elif len(a) > 2:
            if a[1:2] == "a":
                if a[2:3] == "-":
                    return None
                argv.insert(0, "-" + a[2:])
            else:
                argv.insert(0, a[2:])
            a = a[:2]
        if a == "-a" or a == "--aa":
            if attached:
                return None
            aa = True
        elif a == "-b" or a == "--bb":
            if len(argv) == 0:
                return None
            b = argv.pop(0)
            if wrong(b):
                return None
            bb = converted(b)
        elif a == "-c" or a == "--cc":
            if len(argv) > 0 and argv[0][:1] != "-":
                c = argv.pop(0)
                if wrong(c):
                    return None
                cc = converted(c)
            else:
                cc = converted("c")
        elif a == "-d" or a == "--dd":
            if len(argv) == 0:
                return None
            dd.append(argv.pop(0))
        elif a == "-e" or a == "--ee":
            if attached or len(argv) == 0:
                return None
            ee = argv
            argv = []
        else:
            return None
    return tests, aa, bb, cc, dd, ee


def is_result(r, want):
    return want is not None and (r["tests"], r["aa"], r["bb"], r["cc"], r["dd"], r["ee"]) == want


def is_none(want):
    return want is None


def c_parse(n, *before):
    """Command lines of n arguments, whatever they are, after some given ones."""
    def body(E):
        import z3
        from pyvc.values import Opaque, SBool, STR
        E.unroll = 8
        S = z3.StringSort()
        val = Opaque("Value")
        bad, conv = z3.Function("wrong", S, z3.BoolSort()), z3.Function("converted", S, val.sort())
        E.fact(z3.Not(bad(z3.StringVal("c"))))
        E.model(wrong, lambda E, s: SBool(bad(STR.unwrap(E, s))))
        E.model(converted, lambda E, s: val.wrap(E, conv(STR.unwrap(E, s))))

        def convert_(E, s):
            if E.branch(bad(STR.unwrap(E, s))):
                E.throw(ValueError, "wrong")
            return val.wrap(E, conv(STR.unwrap(E, s)))
        E.model(convert, convert_)
        p = E.call(setup, [])
        args = list(before)
        for i in range(n):
            # a bundle of at most two flags and another option (or a value that is attached)
            flags = E.choice(3)
            a = E.input(f"arg{i}", STR)
            if flags:
                E.assume(E.spec(not_flag, a))
                a = E.spec(joined, "-" + "a" * flags, a)
            else:
                E.assume(E.spec(no_bundle, a))
            args.append(a)
        k, r = E.call_outcome(p_parse, p, E.new_list(list(args)))
        want = E.call(denoted, [E.new_list(list(args))])
        if k == "raise":
            E.ensure("a failure is a usage error", E.is_exc(r, SystemExit) and E.getattr(r, "code") ==
                EX_USAGE)
            E.ensure("a valid command line is accepted", E.spec(is_none, want))
        else:
            E.ensure("a command line is parsed as documented", E.spec(is_result, r, want))
    return body


def p_parse(p, argv):
    return p.parse_args(argv)


def not_flag(a):
    return a[:1] != "a" and a[:2] != "c-"


def no_bundle(a):
    return a[:2] != "-a" and a[:3] != "-c-" and a[:6] != "--cc=-"


def joined(a, b):
    return a + b


def c_option(action):
    """One option in front of any number of further arguments."""
    def body(E):
        import z3
        from pyvc.values import STR
        p = E.call(setup, [])
        E.call(p_initialize, [p])
        rest = E.list_input("rest", STR)
        whole = E.new_list(list(rest.pieces))
        argv = E.new_list([action] + list(rest.pieces))
        E.ghosts.update(argv=argv, whole=whole, parser=p)
        E.invariants = [inv_all]
        k, r = E.call_outcome(p_option, p, argv)
        if k == "raise":
            E.ensure("only a missing argument is an error", E.is_exc(r, ArgumentError) and E.spec(
                is_missing, action, whole))
        else:
            E.ensure("an option takes exactly its own arguments", E.spec(is_taken, action, whole,
                argv, E.getattr(p, "namespace")))
    return body


def p_option(p, argv):
    p.parse_option(argv)


def p_initialize(p):
    p.initialize()
    p.namespace["ee"] = []


def inv_all(argv, whole, parser):
    return parser.namespace["ee"] + argv == whole


def is_missing(action, whole):
    return action in ("-d", "--dd", "-e", "--ee") and len(whole) == 0


def is_taken(action, whole, argv, ns):
    if action in ("-a", "--aa"):
        return ns["aa"] is True and argv == whole
    if action in ("-d", "--dd"):
        return len(whole) > 0 and ns["dd"] == whole[:1] and argv == whole[1:]
    return len(whole) > 0 and ns["ee"] == whole and len(argv) == 0


def c_get_option(E):
    """Any string, with the options of ff."""
    from pyvc.values import STR
    E.unroll = 100
    p = E.call(create_parser, [])
    a = E.input("string", STR)
    k, o = E.call_outcome(p_get_option, p, a)
    if k == "raise":
        E.ensure("only unknown options are errors", E.is_exc(o, ArgumentError) and
            E.spec(is_unknown, a))
    else:
        E.ensure("an option is found by one of its own names only", E.spec(is_named, a, o))


def p_get_option(p, a):
    return p.get_option(a)


def is_unknown(a):
    return a not in tuple(OPTIONS)


def is_named(a, o):
    return o.action != "arguments" and a in o.strings


CONTRACTS = [Contract("get_option", c_get_option, "parser", from_model=lambda label, inputs: [
    [inputs["string"]]])] + [Contract(f"parse_args/{n}", c_parse(n), "parser", bounded=f"command lines of {n} "
    "arguments of any content, bundles of at most two flags and another option") for n in (0, 1)] + [
    Contract(f"parse_args/{a} ...", c_parse(1, a), "parser", bounded=f"command lines of {a} and an "
    "argument of any content") for a in ("-a", "-b", "-c", "-d", "-e", "x", "-ab", "-ac", "--bb", "--cc",
    "--dd=x", "--ee")] + [Contract("parse_option/" + a, c_option(a), "parser") for a in ("-a", "--dd",
    "-e")]
cleanup = harness.cleanup
