"""C18: the exit status."""

import itertools
import os
import queue
import re
import subprocess
import sys
import types

from contracts.common import Contract, Concrete, outcome
from contracts import c17, harness
from libff import exceptions, TIMEOUT
from libff.context import Context
from libff.main import Main
from libff.processing import BaseConsoleProcessing, BaseProcessing, CollectiveMixin, \
    ImmediateExecProcessing, Parallel
from libff.walk import FilesystemWalker

CODES = dict(NoResultError=1, UsageError=2, SubprocessError=3, ProcessError=4, BadPluginError=10,
    BadAttributeError=11, ExpressionError=12)


# ------------------------------------------------------------------------------------ concrete runs
def run_codes(inp):
    got = {n: getattr(exceptions, n).exitcode for n in CODES}
    return None if got == CODES else f"the exit codes are {got}"


SCRIPT = """
import os, sys, time
name = os.path.basename(sys.argv[1])
with open(sys.argv[2] + "/" + name, "x") as f:
    f.write("started")
if name.startswith("killed"):
    os.kill(os.getpid(), 9)
time.sleep(0.05 if name.startswith("slow") else 0)
sys.exit(int(name[-1]) if name.startswith("fail") else 0)
"""


def run_exec(inp):
    """inp: [names of the files, --halt, jobs, more options, fail]; the name tells what the command
    does, commands for names that start with "none" cannot be started"""
    names, halt, jobs, opts, fail = inp
    names = sorted(names)
    root, log, cmds = harness.scratch("c18"), harness.scratch("c18"), harness.scratch("c18")
    try:
        harness.tree(root, {n: "" for n in names})
        for n in names:
            if not n.startswith("none"):
                p = os.path.join(cmds, n)
                with open(p, "w", encoding="utf-8") as f:
                    f.write("#!" + sys.executable + "\n" + SCRIPT)
                os.chmod(p, 0o755)
        argv = ["--no-cache", "-j", str(jobs), "--halt", halt] + opts + (["--fail"] if fail else
            []) + ["-x", cmds + "/{name}", "{name}", log]
        st, out, err = harness.ff(argv, root, timeout=100)
        started = sorted(os.listdir(log))
        bad = [n for n in names if n.startswith(("fail", "none", "killed"))]
        err = " ".join(err.split())
        if "Traceback" in err:
            return f"failed with {err[-500:]}"
        if not names:
            want = 1 if fail else 0
            return None if st == want else f"exit {st} without results"
        if not bad:
            if st != 0:
                return f"exit {st} although all commands succeeded: {err[-300:]}"
            if started != sorted(names):
                return f"commands were run for {started}"
            return None
        if st != 3:
            return f"exit {st} although a command failed: {err[-300:]}"
        m = re.search(r"success: (\d+), failure: (\d+)", err)
        if not m:
            return f"no numbers in {err[-300:]}"
        m = [int(x) for x in m.groups()]
        if halt == "never":
            if started != sorted(n for n in names if not n.startswith("none")):
                return f"commands were run for {started}"
            want = [len(names) - len(bad), len(bad)]
            return None if m == want else f"success, failure: {m}, not {want}"
        if m[1] < 1 or halt == "soon" and m[1] > len(bad) or m[0] > len(names) - len(bad) or \
                sum(m) < len(started):
            return f"success, failure: {m} of {names}, started {started}"
        if jobs == 1 and m[1] != 1:
            return f"{m[1]} commands failed, the search was not stopped"
        if jobs == 1 and "path" in opts and m[0] != names.index(bad[0]):
            return f"{m[0]} commands succeeded before {bad[0]} failed"
        return None
    finally:
        harness.remove(root)
        harness.remove(log)
        harness.remove(cmds)


def gen_exec(rng):
    names = [f"{rng.choice(['ok', 'ok', 'slow', 'fail', 'none', 'killed'])}-{i:02d}"
        f"{rng.choice([1, 2, 3])}" for i in range(rng.choice([0, 1, 2, 5, 12]))]
    return [sorted(names), rng.choice(["never", "soon", "now"]), rng.choice([1, 1, 2, 5]),
        rng.choice([[], ["-S", "path"], ["--limit", ":100"]]), rng.random() < 0.3]


DIRECTED_EXEC = [[n, h, j, o, False] for n in (["a-01", "fail-021", "ok-03", "slow-04"],
    ["none-1"], ["ok-1", "none-2", "ok-3"], ["killed-1", "ok-1"]) for h in ("never", "soon", "now")
    for j in (1, 3) for o in ([], ["-S", "path"])] + [
    [[f"ok-{i:02d}" for i in range(40)], "never", 4, [], False]]


def run_options(inp):
    """inp: [arguments, files, text, status]"""
    argv, files, status = inp
    root = harness.scratch("c18")
    try:
        harness.tree(root, files)
        st, out, err = harness.ff(["--no-cache"] + argv, root, timeout=100)
        if st != status:
            return f"exit {st}, not {status}: {err[-300:]}"
        if "Traceback" in err:
            return f"failed with {err[-400:]}"
        return None
    finally:
        harness.remove(root)


def gen_options(rng):
    """--fail with and without results, in every mode."""
    fail = rng.random() < 0.5
    found = rng.random() < 0.5
    mode = rng.choice([[], ["--json"], ["--jsonl"], ["-S", "path"], ["--count"], ["--limit", ":5"],
        ["-x", "true"], ["-S", "path", "-x", "true"], ["-X", "true"], ["--count", "-S", "path"],
        ["-o", "size"], ["-j", "1"], ["--limit", "1:3", "-x", "true"]])
    broken = mode[-1:] == ["true"] and rng.random() < 0.3
    if broken:
        mode = mode[:-1] + ["false"]
    test = ["type=f"] if found else ["type=f", "name=nosuch"]
    argv = (["--fail"] if fail else []) + test + mode
    return [argv, {"d/x": "1", "y": ""}, 3 if broken and found else 1 if fail and not found else 0]


DIRECTED_OPTIONS = [[a, {"f": b, "g": ""}, s] for a, b, s in [
    (["-x", "echo", "{lines}"], "a\0b\n", 3), (["-S", "path", "-x", "echo", "{lines}"], "a\0b\n", 3),
    (["-X", "echo", "{lines}"], "a\0b\n", 3), (["-X", "echo", "{lines}"], "ab\n", 0),
    (["--halt", "now", "-x", "echo", "{lines}"], "a\0b\n", 3),
    (["-X", "/nosuch/command", "{}"], "", 3), (["-x", "/nosuch/command", "{}"], "", 3),
    (["-X", "false", "{}"], "", 3), (["-X", "sh", "-c", "kill -9 $$"], "", 3), (["-X", "sh", "-c",
    "kill -15 $$"], "", 3), (["-X", "sh", "-c", "exit 255"], "", 3), (["--nosuch"], "", 2), (["--depth"], "", 2),
    (["-o", "no.such"], "", 11), (["-o", "nosuch"], "", 11), (["nosuch.attr=1"], "", 11),
    (["nosuch=1"], "", 11), (["size~1"], "", 12), (["name~("], "", 12), (["name"], "", 12), (["(", "type=f"], "", 2),
    (["-D", "nosuch"], "", 2), (["--exclude", "(", "type=f"], "", 2), (["-S", "nosuch"], "", 11),
    (["--count", "nosuch"], "", 11), (["-x", "echo", "{no.such}"], "", 11),
    (["--fail", "-x", "echo", "{link}"], "", 0), (["--fail", "-S", "path", "-x", "echo", "{link}"], "",
    0), (["--fail", "-X", "echo", "{link}"], "", 0), (["--fail", "-o", "link"], "", 0),
    (["--fail", "name=nosuch"], "", 1), (["--fail", "name=f"], "", 0), (["name=nosuch"], "", 0),
    (["--fail", "name~("], "", 12), (["--fail", "--exec", "false", "{}"], "", 3),
    (["--fail", "--exclude", "path*", "-S", "path"], "", 12)]]

CONCRETE = [Concrete("exit codes", run_codes, None, [0]),
    Concrete("commands", run_exec, gen_exec, DIRECTED_EXEC, timeout=110, weight=2),
    Concrete("options", run_options, gen_options, DIRECTED_OPTIONS, timeout=110)]


# ---------------------------------------------------------------------------------------- contracts
class Number:
    """A shared number."""

    def get_lock(self):
        return Lock()


class Lock:
    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None


def eq(a, b):
    return a == b


def plus(a, b):
    return a + b


def c_run(halt):
    def body(E):
        from pyvc.values import Opaque, SData, SObj, INT, STR, SBool
        import z3
        s0, f0, e0 = E.input("succeeded", INT), E.input("failed", INT), E.input("exitcode", INT)
        good, bad = SObj(E, Number, {"value": s0}), SObj(E, Number, {"value": f0})
        code = SObj(E, Number, {"value": e0})
        state = SObj(E, types.SimpleNamespace, {"started": 0, "ran": False, "stopped": False,
            "killed": False, "others": False})
        args = Opaque("Args", attrs={"halt": lambda E, o: halt})
        command = E.list_input("command", STR)

        def wait(E, o, timeout=None):
            if timeout is not None and E.choice(2):
                E.throw(subprocess.TimeoutExpired, "command", timeout)
            status = E.input("status", INT)
            E.setattr(state, "ran", True)
            return status

        def terminate(E, o):
            E.setattr(state, "killed", True)

        def poll(E, o):
            return wait(E, o) if E.choice(2) else None
        process = Opaque("Process", methods={"wait": wait, "terminate": terminate, "kill": terminate,
            "poll": poll})

        def start(E, a, **kw):
            E.setattr(state, "started", E.spec(plus, E.getattr(state, "started"), 1))
            E.ensure("the command is the one given", E.spec(eq, a, command))
            c = E.choice(3)
            if c == 1:
                E.throw(OSError, 2, "x", errno=2)
            if c == 2:
                E.throw(ValueError, "x")
            return SData(E.fresh_const("process", process.sort()), process)
        E.model(subprocess.Popen, start)

        def stopping(E, o):
            # others may stop the search at any time
            E.setattr(state, "others", E.spec(either, E.getattr(state, "others"), SBool(E.fresh_const(
                "stopping", z3.BoolSort()))))
            return E.getattr(state, "others")
        E.model(Context.is_stopping, stopping)

        def stop(E, o):
            E.setattr(state, "stopped", True)
        E.model(Context.stop, stop)
        log = Opaque("Logger", methods={"error": lambda E, o, m, c: None if c is None else
            E.throw(SystemExit, c)})
        ctx = SObj(E, Context, {"args": SData(z3.Const("args", args.sort()), args),
            "process_succeeded": good, "process_failed": bad, "exitcode_object": code,
            "logger": SData(z3.Const("logger", log.sort()), log)})
        E.ghosts.update(state=state, succeeded=s0, failed=f0, good=good, bad=bad, code=code,
            before=e0)
        E.invariants = [inv_started, inv_not_ran, inv_unchanged, inv_exitcode]
        k, r = E.call_outcome(Context.run_exec_process, ctx, command)
        E.ensure("running a command never fails", k == "return")
        if k != "return":
            return
        get = lambda o, n="value": E.getattr(o, n)
        E.ensure("the command is started once", E.spec(eq, get(state, "started"), 1))
        ok = E.truth(E.spec(fine, get(state, "ran"), E.inputs.get("status")))
        E.ensure("a command that ends with 0 counts as success, every other one as failure",
            E.spec(counted, get(good), get(bad), s0, f0, ok))
        E.ensure("a failure sets the exit code, a success does not", E.spec(eq, get(code),
            e0 if ok else exceptions.EX_SUBPROCESS))
        E.ensure("a failure stops the search as --halt says", E.spec(eq, get(state, "stopped"),
            not ok and halt != "never"))
        if halt != "now":
            E.ensure("a command that was started runs to its end", E.spec(eq, get(state, "killed"),
                False))
        else:
            E.ensure("a command is only stopped when the search is stopped",
                E.spec(only_when, get(state, "killed"), get(state, "others")))
    return body


def either(a, b):
    return a or b


def only_when(a, b):
    return not a or b


def fine(ran, status):
    return ran and status == 0


def counted(good, bad, s0, f0, ok):
    return good == s0 + 1 and bad == f0 if ok else good == s0 and bad == f0 + 1


def inv_started(state):
    return state.started == 1


def inv_not_ran(state):
    return not state.ran and not state.killed and not state.stopped


def inv_exitcode(_any):
    return _any == 1


def inv_unchanged(good, bad, code, succeeded, failed, before):
    return good.value == succeeded and bad.value == failed and code.value == before


def c_main(E):
    """Main.loop() with any exit code, --fail and results."""
    from pyvc.values import Opaque, SData, SObj, INT, BOOL
    import z3
    code, found = E.input("exitcode", INT), E.input("found", BOOL)
    fail = E.input("fail", BOOL)
    cmds = E.input("exec", BOOL)
    none = lambda E, o, *a, **k: None
    number = Opaque("Number", attrs={"value": INT})
    num = lambda n: lambda E, o: SData(z3.Const(n, number.sort()), number)
    args = Opaque("Args", attrs={"fail": lambda E, o: fail, "exec": lambda E, o: cmds,
        "profile": lambda E, o: None})
    walker = Opaque("Walker", methods={"start_processes": none, "close": none, "loop": none})

    def finish(E, o):
        if E.choice(2):
            E.setattr(state, "failed", True)
            E.throw(exceptions.SubprocessError, "x", message="x", traceback=None)
        E.setattr(state, "code", code)
    state = SObj(E, types.SimpleNamespace, {"code": 0, "failed": False})
    proc = Opaque("Processing", methods={"loop": none, "finalize": finish, "close": none})
    log = Opaque("Logger", methods={"error": lambda E, o, m, c: None if c is None else
        E.throw(SystemExit, c, code=c), "debug": none, "exception": none})
    thing = lambda n, ty: lambda E, o: SData(z3.Const(n, ty.sort()), ty)
    ctx = Opaque("Context", attrs={"args": thing("args", args), "walker": thing("walker", walker),
        "processing": thing("processing", proc), "exitcode": lambda E, o: E.getattr(state, "code"),
        "process_succeeded": num("succeeded"), "process_failed": num("failed"),
        "cache_hits": num("hits"), "cache_misses": num("misses"), "logger": thing("logger", log)},
        methods={"has_result": lambda E, o: found, "close": none, "stop": none})
    m = SObj(E, Main, {"context": SData(z3.Const("context", ctx.sort()), ctx)})
    k, r = E.call_outcome(Main.loop, m)
    want = None
    if E.truth(E.getattr(state, "failed")) or E.truth(E.spec(eq, code, exceptions.EX_SUBPROCESS)):
        want = 3
    elif E.truth(E.spec(eq, code, exceptions.EX_PROCESS)):
        want = 4
    elif E.truth(fail) and not E.truth(found):
        want = 1
    if want is None:
        E.ensure("without an error the program ends normally", k == "return")
        return
    E.ensure("errors end the program", k == "raise" and E.is_exc(r, SystemExit))
    if k == "raise" and E.is_exc(r, SystemExit):
        E.ensure("the exit status is the one of the error", E.spec(eq, E.getattr(r, "code"), want))


def c_found(cls):
    """A result is noticed exactly when there are entries."""
    def body(E):
        from pyvc.values import Opaque, SData, SObj, BOOL
        import z3
        state = SObj(E, types.SimpleNamespace, {"found": False})

        def found(E, o):
            E.setattr(state, "found", True)
        ent = Opaque("Entry")
        entries = E.list_input("entries", ent)
        none = lambda E, o, *a, **k: None

        def render(E, o, e):
            if E.choice(2):
                E.throw(KeyError, "x")
            return SData(z3.Const("command", ent.sort()), ent)
        ex = Opaque("Exec", methods={"render": render})
        thing = lambda n, ty: SData(z3.Const(n, ty.sort()), ty)
        args = Opaque("Args", attrs={"sort": lambda E, o: None, "exec": lambda E, o:
            thing("exec", ex)})
        walker = Opaque("Walker", methods={"put": none})
        ctx = Opaque("Context", methods={"set_has_result": found}, attrs={"args": lambda E, o:
            thing("args", args), "walker": lambda E, o: thing("walker", walker)})
        console = Opaque("Console", methods={"process": none})
        E.ghosts.update(state=state)
        E.invariants = []
        obj = SObj(E, cls, {"context": thing("context", ctx), "entries": entries, "args":
            thing("args", args), "walker": thing("walker", walker), "console":
            thing("console", console)})
        if cls is CollectiveMixin:
            k, r = E.call_outcome(cls.finalize, obj)
        else:
            k, r = E.call_outcome(cls.process, obj, entries)
        E.ensure("handling entries never fails", k == "return")
        if k == "return":
            E.ensure("there is a result exactly when there are entries", E.spec(is_found,
                E.getattr(state, "found"), entries))
    return body


def is_found(found, entries):
    return found == (len(entries) > 0)


def c_result(E):
    """Context.set_has_result, has_result, set_exitcode and exitcode."""
    from pyvc.values import SObj, INT
    v, w = E.input("exitcode", INT), E.input("new", INT)
    flag, code = SObj(E, Number, {"value": 0}), SObj(E, Number, {"value": v})
    ctx = SObj(E, Context, {"_has_result": flag, "exitcode_object": code})
    E.ensure("there is no result at first", E.spec(eq, E.call(Context.has_result, [ctx], {}), False))
    E.ensure("the exit code is the one that was set before", E.spec(eq, E.getattr(ctx, "exitcode"),
        v))
    E.call(Context.set_has_result, [ctx], {})
    E.ensure("a result is noticed", E.spec(eq, E.call(Context.has_result, [ctx], {}), True))
    E.call(Context.set_exitcode, [ctx, w], {})
    E.ensure("the exit code is the one that was set", E.spec(eq, E.getattr(ctx, "exitcode"), w))


CONTRACTS = [Contract(f"run_exec_process/{h}", c_run(h), "commands") for h in ("never", "soon",
    "now")] + [Contract("loop", c_main, "options")] + [Contract(f"results/{c.__name__}", c_found(c),
    "options") for c in (BaseConsoleProcessing, ImmediateExecProcessing, CollectiveMixin)] + [
    Contract("finalize/batch", c17.c_batch(False, False), "options"),
    Contract("context", c_result, "options")]
cleanup = harness.cleanup
