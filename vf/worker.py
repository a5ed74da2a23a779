"""Worker processes: one per contract, one or more for the concrete cross-checks."""

import hashlib
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

from .api import setup_path

setup_path()


class CaseTimeout(BaseException):
    pass


def on_alarm(signum, frame):
    raise CaseTimeout()


def jsonable(v, depth=0):
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, (list, tuple)):
        return [jsonable(x, depth + 1) for x in v]
    if isinstance(v, dict):
        return {str(k): jsonable(x, depth + 1) for k, x in v.items()}
    return repr(v)


def run_symbolic(prop, name, budget):
    from pyvc.interp import Interp
    from pyvc.values import Unsupported
    mod = importlib.import_module("contracts." + prop.lower())
    con = next(c for c in mod.CONTRACTS if c.name == name)
    t0 = time.time()
    res = {"name": name, "status": "undecided", "reason": "", "bounded": con.bounded}
    E = Interp(name)
    E.deadline = t0 + min(budget, con.budget if os.environ.get("VERIF_TIER") != "thorough"
            else con.budget * 4)
    try:
        E.verify(lambda: con.body(E))
        res["status"] = "proved"
    except Unsupported as exc:
        res["reason"] = f"outside the verified subset: {exc}"
    except RecursionError:
        res["reason"] = "recursion limit of the verifier"
    except Exception as exc:  # pylint:disable=broad-except
        res["reason"] = f"verifier error: {type(exc).__name__}: {exc}"
        res["traceback"] = traceback.format_exc()[-1500:]
    obs = []
    for ob in E.obligations.values():
        obs.append({"label": ob.label, "count": ob.count, "discharged": ob.discharged,
            "refuted": [jsonable(r) for r in ob.refuted[:5]], "nrefuted": len(ob.refuted),
            "undecided": [jsonable(r) for r in ob.undecided[:2]], "nundecided": len(ob.undecided),
            "backends": ob.backends, "time": round(ob.time, 3), "covered": ob.covered})
    res["obligations"] = obs
    invs = {}
    alive = {fname for n, fname in E.inv_obs.values()}
    for (key, i, what), (n, fname) in E.inv_obs.items():
        k = f"{key[0]} loop {key[1]}: {fname}"
        invs[k] = invs.get(k, 0) + n
    res["invariants"] = invs
    drops = {}
    for k, (n, w, r) in E.dropped.items():
        if n not in alive and (r or n not in drops):
            drops[n] = {"loop": f"{k[0][0]} loop {k[0][1]}", "invariant": n, "why": w,
                    "refuted": r}
    # a candidate is lost if it holds in no loop at all
    res["dropped"] = list(drops.values())
    res["functions"] = sorted(E.stats["functions"])
    res["assumptions"] = sorted(E.stats["assumptions"])
    res["loops"] = E.stats["loops"]
    res["queries"] = E.stats["queries"]
    res["solver_s"] = round(E.stats["solver_s"], 2)
    res["paths"] = E.stats["paths"]
    res["restarts"] = E.stats["restarts"]
    res["inv_errors"] = getattr(E, "inv_errors", {})
    res["wall_s"] = round(time.time() - t0, 2)
    if res["status"] == "proved":
        if not obs or not any(o["count"] for o in obs):
            res["status"], res["reason"] = "undecided", "no obligation was generated"
        elif any(o["nrefuted"] for o in obs):
            res["status"] = "refuted"
        elif any(o["nundecided"] for o in obs):
            res["status"], res["reason"] = "undecided", "solver gave no answer"
        elif any(not o["covered"] for o in obs):
            res["status"], res["reason"] = "undecided", "vacuous: premises unsatisfiable"
    elif any(o["nrefuted"] for o in obs) and not res["reason"].startswith("verifier error"):
        # an obligation failed before the verifier gave up
        res["status"] = "refuted"
    if res["status"] == "refuted":
        confirm(con, res, t0 + budget)
    return res


def confirm(con, res, t_end):
    """A refutation that depends on what is known about loops and lists of any length says little
       about the code: look for the same in its executions with a few iterations."""
    from pyvc.interp import Interp
    from pyvc.engine import Confirmed
    res["confirmed"] = {}
    for bound in (1, 2, 3):
        E = Interp(con.name)
        E.bound = bound
        E.deadline = min(t_end, time.time() + 60)
        try:
            E.verify(lambda E=E: con.body(E))
            why = E.stats.get("gave_up", "no refutation")
        except Confirmed:
            ob = next(o for o in E.obligations.values() if o.refuted)
            res["confirmed"][bound] = ob.label
            info = jsonable(ob.refuted[0])
            for o in res["obligations"]:
                if o["label"] == ob.label:
                    o["refuted"].insert(0, info)
                    o["nrefuted"] += 1
                    break
            else:
                res["obligations"].append({"label": ob.label, "count": 1, "discharged": 0, "refuted": [info],
                    "nrefuted": 1, "undecided": [], "nundecided": 0, "backends": {}, "time": 0, "covered": True})
            return
        except Exception as exc:  # pylint:disable=broad-except
            why = f"{type(exc).__name__}: {exc}"
        res["confirmed"][bound] = why
        if time.time() > E.deadline:
            break
    res["status"] = "undecided"
    res["reason"] = "an obligation fails with the invariants at hand, but in no execution with up to 3 " \
        f"iterations: {res['confirmed']}"


def run_case(chk, inp):
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, chk.timeout)
    try:
        return chk.run(inp)
    except CaseTimeout:
        return f"no answer within {chk.timeout} s"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def again(chk, inp):
    """Whether a failure of the program that depends on other processes and the load of the machine
       happens at least twice in three more runs, in which the processes are more patient."""
    from contracts import harness
    harness.patient(True)
    try:
        failures = passes = 0
        while failures < 2 and passes < 2:
            time.sleep(0.1)
            f = run_case(chk, inp)
            failures += f is not None
            passes += f is None
        return failures >= 2
    finally:
        harness.patient(False)


def run_concrete(prop, budget, seed, only=None, inputs=None, more=False):
    mod = importlib.import_module("contracts." + prop.lower())
    from contracts import harness
    out = {"checks": [], "failures": [], "error": None}
    chks = [c for c in mod.CONCRETE if only is None or c.name == only]
    total = sum(c.weight for c in chks) or 1
    for chk in chks:
        t_end = time.time() + budget * chk.weight / total
        n = 0
        seen = set()
        samples = []

        def one(inp):
            nonlocal n
            n += 1
            k = hashlib.md5(repr(inp).encode("utf-8", "backslashreplace")).digest()
            if k not in seen:
                seen.add(k)
                if len(samples) < 3 and n % 7 == 1:
                    samples.append(jsonable(inp))
            before = harness.programs()
            f = run_case(chk, inp)
            if f is not None and (harness.programs() != before or f.startswith("no answer within")) and \
                    not again(chk, inp):
                out.setdefault("unrepeatable", []).append({"check": chk.name, "input": inp, "failure": f})
                return False
            if f is not None:
                out["failures"].append({"check": chk.name, "input": inp, "failure": f})
                return True
            return False
        try:
            stop = False
            todo = inputs if inputs is not None else [] if more else (
                    chk.directed() if callable(chk.directed) else chk.directed)
            for inp in todo:
                if one(inp):
                    stop = True
                    break
            rng = random.Random(f"{seed}:{prop}:{chk.name}")
            while inputs is None and not stop and chk.gen is not None and time.time() < t_end and (
                    more or chk.count is None or n < chk.count):
                if one(chk.gen(rng)):
                    break
        except Exception as exc:  # pylint:disable=broad-except
            out["error"] = f"{chk.name}: harness error {type(exc).__name__}: {exc}\n" + \
                traceback.format_exc()[-1500:]
        out["checks"].append({"name": chk.name, "cases": n, "distinct": len(seen),
            "samples": samples})
    if hasattr(mod, "cleanup"):
        mod.cleanup()
    return out


def main(argv):
    mode, prop, outfile = argv[0], argv[1], argv[2]
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    sys.setrecursionlimit(4000)
    if mode == "symbolic":
        res = run_symbolic(prop, argv[3], float(argv[4]))
    elif mode == "concrete":
        res = run_concrete(prop, float(argv[3]), argv[4], argv[5] if len(argv) > 5 else None,
            more=len(argv) > 6)
    elif mode == "inputs":
        with open(argv[4], encoding="utf-8") as f:
            inputs = json.load(f)
        res = run_concrete(prop, 60, 0, argv[3], inputs)
    else:
        raise SystemExit(2)
    tmp = outfile + ".tmp"
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(res, f)
    os.replace(tmp, outfile)


if __name__ == "__main__":
    main(sys.argv[1:])
