"""C17: --exec-batch."""

import errno
import json
import os
import subprocess
import sys
import types

from contracts.common import Contract, Concrete, outcome
from contracts import harness
from libff.field import ExecBatchFields, SortFields
from libff.processing import CollectiveExecProcessing
from libff.exceptions import EX_SUBPROCESS, SubprocessError


# ------------------------------------------------------------------------------------ concrete runs
class FakeProcess:
    """Stands in for a started process."""

    def __init__(self, status):
        self.status = status
        self.returncode = None
        self.stdin = self.stdout = self.stderr = self.args = None
        self.pid = 1

    def communicate(self, *a, **k):
        self.returncode = self.status
        return None, None

    def wait(self, timeout=None):
        self.returncode = self.status
        return self.status
    poll = wait

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


def run(inp):
    """inp: [lengths of the paths, limit of a command line, status of the commands, limit of entries]
    Commands that are longer than the limit cannot be started."""
    lengths, limit, statuses, only = inp
    ctx = harness.context(limit=only, sort=None)
    ctx.args.exec_batch = ExecBatchFields(ctx, ["run", "-", "{}"])
    paths = [f"{i:03d}" + "x" * n for i, n in enumerate(lengths)]
    entries = [harness.FakeEntry(path=p, name=p, abspath="/" + p) for p in paths]
    started, refused = [], []

    def popen(args, *a, **k):
        if sum(map(len, args)) > limit:
            refused.append(list(args))
            if len(refused) > 50 * (len(entries) + 1):
                raise RuntimeError("no end")
            raise OSError(errno.E2BIG, "Argument list too long")
        started.append(list(args))
        return FakeProcess(statuses[(len(started) - 1) % len(statuses)] if statuses else 0)

    class Holder(CollectiveExecProcessing):
        def __init__(self):  # pylint:disable=super-init-not-called
            self.context, self.entries = ctx, entries
        args = property(lambda self: ctx.args)
        registry = property(lambda self: ctx.registry)
        logger = property(lambda self: ctx.logger)
    real = subprocess.Popen
    subprocess.Popen = popen
    try:
        k, r = outcome(Holder().finalize)
    finally:
        subprocess.Popen = real
    if only is not None:
        paths = paths[only[0]:only[1]]
    for a in started:
        if a[:2] != ["run", "-"]:
            return f"the command {a} was started"
    got = [p for a in started for p in a[2:]]
    if any(len(p) + 4 > limit for p in paths):
        # some entry can never be passed: this is a failure
        if k == "return" and ctx.exitcode != EX_SUBPROCESS:
            return f"no failure is reported although only {got} were passed"
        if k == "raise" and not isinstance(r, SubprocessError):
            return f"failed with {r!r}"
        want = [p for p in paths if len(p) + 4 <= limit]
        if [p for p in paths if p in got] != got:
            return f"{got} were passed to the commands"
        return None
    if k == "raise":
        return f"failed with {r!r}"
    if got != paths or any(len(a) == 2 for a in started):
        return f"{[a[2:] for a in started]} were passed to the commands, not {paths}"
    if (EX_SUBPROCESS if any((statuses or [0])[i % len(statuses or [0])] for i in
            range(len(started))) else 0) != ctx.exitcode:
        return f"exit code {ctx.exitcode} of {len(started)} commands with the statuses {statuses}"
    return None


def gen(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, 13, 40])
    lengths = [rng.choice([0, 1, 2, 10, 50]) for _ in range(n)]
    return [lengths, rng.choice([10, 20, 60, 61, 100, 10 ** 6]), rng.choice([[], [0], [1], [0, 0, 1],
        [1, 0]]), rng.choice([None, None, None, [0, 3], [1, None]])]


DIRECTED = [[[0] * n, limit, [], None] for n in range(9) for limit in (6, 7, 10, 13, 16, 1000)] + [
    [[0, 0, 100, 0], 50, [], None], [[100], 50, [], None], [[0, 0, 0], 10, [0, 1, 0], None]]

PRINT = "import sys, json; print(json.dumps(sys.argv[1:]))"


def run_ff(inp):
    """The real program with commands that are too long for the operating system."""
    n, copies, kind = inp
    root = harness.scratch("c17")
    try:
        names = [f"{i:04d}" + "x" * 200 for i in range(n)]
        harness.tree(root, {x: "" for x in names})
        args = ["{}"] * copies if kind == "arguments" else ["{}" * copies]
        st, out, err = harness.ff(["--no-cache", "-j", "2", "-S", "path", "-X", sys.executable, "-c",
            PRINT] + args, root, timeout=280)
        got = [json.loads(x) for x in out.split("\n")[:-1]]
        if kind == "argument":
            if st != EX_SUBPROCESS or not err:
                return f"exit {st} {err!r} although no command could be started"
            return None
        if st != 0:
            return f"exit {st}: {err[-500:]}"
        want = [[] for _ in range(copies)]
        for a in got:
            if not a or len(a) % copies:
                return f"a command got {len(a)} arguments"
            m = len(a) // copies
            for i in range(copies):
                want[i] += a[i * m:(i + 1) * m]
        for w in want:
            if w != names:
                return f"the commands got {len(w)} entries: {[x[:4] for x in w][:50]}"
        return None
    finally:
        harness.remove(root)


CONCRETE = [Concrete("batch", run, gen, DIRECTED, count=20000),
    Concrete("ff --exec-batch", run_ff, None, [[3, 1, "arguments"], [500, 30, "arguments"],
        [501, 70, "arguments"], [2, 1000, "argument"], [1, 1000, "argument"]], timeout=300)]

# ---------------------------------------------------------------------------------------- contracts
def inv_order(_any, _var, started, selected):
    """What was passed, what is tried next and what remains is everything, in order."""
    return started + list(_any) + list(_var) == selected


def inv_rest(_any, _var):
    """Something is passed next unless nothing is left."""
    return len(_any) > 0 or len(_var) == 0


def inv_status(state):
    return state.exitcode == (EX_SUBPROCESS if state.failed else 0)


def c_batch(limited, order=True):
    """Without order only the exit status is considered, entries may be passed to any command."""
    def body(E):
        from pyvc.values import Opaque, SData, SObj, SBool, SInt, INT, Unsupported, MList
        import z3
        entries = E.list_input("entries", INT)
        started = E.new_list([], ty=INT)
        state = SObj(E, types.SimpleNamespace, {"failed": False, "exitcode": 0})
        rendered = {}
        command = Opaque("Command")

        def render(E, o, es):
            c = SData(E.fresh_const("command", command.sort()), command)
            rendered[c.t.get_id()] = (c, list(E.B.iter_pieces(E, es)))
            return c
        process = Opaque("Process", attrs={"returncode": INT})

        def start(E, args, **kw):
            if not isinstance(args, SData) or args.t.get_id() not in rendered:
                raise Unsupported("another command")
            outcome_ = E.choice(3)
            if outcome_ == 1:
                E.throw(OSError, errno.E2BIG, "x", errno=errno.E2BIG)
            if outcome_ == 2:
                n = E.fresh_const("errno", z3.IntSort())
                E.assume(E.mkbool(n != errno.E2BIG))
                E.throw(OSError, SInt(n), "x", errno=SInt(n))
            p = SData(E.fresh_const("process", process.sort()), process)
            E.note_write(started)
            started.pieces.extend(rendered[args.t.get_id()][1])
            if E.truth(E.spec(nonzero, E.getattr(p, "returncode"))):
                E.setattr(state, "failed", True)
            return p
        E.model(subprocess.run, start)
        batch = Opaque("Batch", methods={"render": render})
        args = Opaque("Args", attrs={"exec": lambda E, o: None, "sort": lambda E, o: None,
            "exec_batch": lambda E, o: SData(z3.Const("batch", batch.sort()), batch), "limit":
            lambda E, o: None})

        def set_exitcode(E, o, c):
            E.setattr(state, "exitcode", c)
        ctx = Opaque("Context", attrs={"args": lambda E, o: SData(z3.Const("args", args.sort()),
            args)}, methods={"set_exitcode": set_exitcode, "set_has_result": lambda E, o: None})
        selected = E.new_list(list(entries.pieces), ty=INT)
        if limited:
            selected = E.list_input("selected", INT)
            E.model(CollectiveExecProcessing.entries_range, lambda E, o:
                E.new_list(list(selected.pieces)))
        obj = SObj(E, CollectiveExecProcessing, {"entries": entries, "context":
            SData(z3.Const("context", ctx.sort()), ctx)})
        E.ghosts.update(started=started, selected=E.new_list(list(selected.pieces), ty=INT),
            state=state)
        E.invariants = [inv_order, inv_rest, inv_status] if order else [inv_status]
        k, r = E.call_outcome(CollectiveExecProcessing.finalize, obj)
        if k == "return":
            if order:
                E.ensure("every entry is passed to exactly one of the commands started, in order",
                    E.spec(same, started, selected))
            E.ensure("the exit code tells whether one of the commands failed",
                E.spec(inv_status, state))
        else:
            E.ensure("commands that cannot be started are reported", E.is_exc(r, SubprocessError))
    return body


def nonzero(n):
    return n != 0


def same(a, b):
    return list(a) == list(b)


CONTRACTS = [Contract("finalize/all", c_batch(False), "batch"),
    Contract("finalize/limited", c_batch(True), "batch")]
cleanup = harness.cleanup
