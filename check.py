"""check.py PROPERTY: decide one property on /repo's current tree.

   check.py PROPERTY --replay FILE reruns a recorded violation."""

import concurrent.futures
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from vf.api import setup_path, REPO  # noqa
setup_path()


def spawn(args, env, timeout, cwd):
    """Run a worker; returns its result or None."""
    out = os.path.join(cwd, hashlib.md5(repr(args).encode()).hexdigest() + ".json")
    cmd = [sys.executable, "-B", "-m", "vf.worker", args[0], args[1], out] + list(args[2:])
    log = out + ".log"
    with open(log, "wb") as f:
        p = subprocess.Popen(cmd, cwd=VERIF, env=env, stdout=f, stderr=f, stdin=subprocess.DEVNULL,
                start_new_session=True)
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    try:
        with open(out, encoding="utf-8") as f:
            return json.load(f)
    except (OSError, ValueError):
        with open(log, "rb") as f:
            tail = f.read()[-600:].decode("utf-8", "replace")
        return {"crashed": f"worker ended with {p.returncode}: {tail}"}


def known_findings(prop):
    found = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line.startswith(f"finding: property={prop} "):
                    # finding: property=<id> check=<name> input=<json> :: <what fails>
                    head, _, what = line.partition(" :: ")
                    check = head.split("check=")[1].split(" ")[0]
                    inp = json.loads(head.split("input=", 1)[1])
                    found.append((check, inp, what))
    return found


def write_replay(prop, data):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(data, indent=1, sort_keys=True, default=repr)
    path = os.path.join(d, f"{prop}-{hashlib.md5(text.encode()).hexdigest()[:10]}.json")
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    return path


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir="/tmp")
    home = os.path.join(scratch, "home")
    os.makedirs(os.path.join(home, ".cache"))
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "LC_ALL", "TERM",
        "VERIF_REPO", "VERIF_SEED", "PYVC_DEBUG")}
    env.update(HOME=home, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_TIER=tier,
            TMPDIR=scratch, VERIF_SCRATCH=scratch, LC_ALL=env.get("LC_ALL", "C.UTF-8"))
    try:
        if "--replay" in sys.argv:
            return replay(prop, sys.argv[sys.argv.index("--replay") + 1], env, scratch)
        return decide(prop, tier, seed, env, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(prop, path, env, scratch):
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    print(json.dumps(data, indent=1)[:6000])
    if data.get("check") is None:
        print("no concrete input was found; the failed obligation is shown above")
        return 0
    inp = os.path.join(scratch, "inputs.json")
    with open(inp, "w", encoding="utf-8") as f:
        json.dump([data["input"]], f)
    res = spawn(["inputs", prop, data["check"], inp], env, 120, scratch)
    print("replayed:", json.dumps(res.get("failures", res), indent=1))
    return 1 if res.get("failures") else 0


def decide(prop, tier, seed, env, scratch, t0):
    quick = tier == "quick"
    sym_budget = 240 if quick else 1500
    con_budget = 25 if quick else 300
    mod_error = None
    contracts, concretes = [], []
    try:
        mod = importlib.import_module("contracts." + prop.lower())
        contracts, concretes = mod.CONTRACTS, mod.CONCRETE
    except Exception as exc:  # pylint:disable=broad-except
        mod_error = f"{type(exc).__name__}: {exc}"
        mod = None
    pool = concurrent.futures.ThreadPoolExecutor(8)
    cons = [pool.submit(spawn, ["concrete", prop, str(con_budget), str(seed), c.name], env,
        con_budget + 120, scratch) for c in concretes]
    syms = [(c, pool.submit(spawn, ["symbolic", prop, c.name, str(sym_budget)], env,
        sym_budget + 60, scratch)) for c in contracts]
    results = []
    for c, f in syms:
        r = f.result()
        if "crashed" in r:
            r = {"name": c.name, "status": "undecided", "reason": r["crashed"], "obligations": [],
                "functions": [], "assumptions": [], "dropped": [], "queries": 0, "solver_s": 0,
                "invariants": {}, "bounded": c.bounded, "wall_s": 0}
        results.append(r)
    concrete = {"checks": [], "failures": [], "errors": []}
    for c, f in zip(concretes, cons):
        r = f.result()
        if "crashed" in r:
            concrete["errors"].append(f"{c.name}: {r['crashed']}")
            continue
        concrete["checks"] += r["checks"]
        concrete["failures"] += r["failures"]
        concrete["errors"] += [f"{x['check']}: failure that did not happen again: input "
            f"{json.dumps(x['input'])[:200]}: {x['failure'][:200]}" for x in r.get("unrepeatable", [])]
        if r["error"]:
            concrete["errors"].append(r["error"])

    # counter-models are replayed on the real code
    by_name = {c.name: c for c in contracts}
    for r in results:
        if r["status"] != "refuted":
            continue
        con = by_name[r["name"]]
        if con.replay is None or con.from_model is None:
            continue
        inputs = []
        for o in r["obligations"]:
            for info in o["refuted"]:
                try:
                    for x in con.from_model(o["label"], info["inputs"]):
                        json.dumps(x)
                        inputs.append(x)
                except Exception:  # pylint:disable=broad-except
                    pass
        if not inputs:
            continue
        path = os.path.join(scratch, f"in-{r['name'].replace('/', '_')}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump(inputs, f)
        rr = spawn(["inputs", prop, con.replay, path], env, 120, scratch)
        r["replayed"] = {"inputs": inputs[:3], "failures": rr.get("failures", [])[:2]}
        concrete["failures"] += [dict(x, contract=r["name"]) for x in rr.get("failures", [])]

    # Where contracts do not hold any more, or cannot be decided on this tree, the bounded
    # cross-check goes on for a while.
    known = known_findings(prop)
    open_ = [by_name[r["name"]].replay for r in results if r["status"] != "proved"]
    if mod is not None and open_ and not any((f["check"], f["input"]) not in [k[:2] for k in known]
            for f in concrete["failures"]):
        more = [c.name for c in concretes if c.gen is not None and (c.name in open_ or None in open_)]
        for c, f in [(c, pool.submit(spawn, ["concrete", prop, str(60 if quick else 300), f"{seed}+", c, "more"], env,
                420, scratch)) for c in more]:
            r = f.result()
            if "crashed" in r:
                concrete["errors"].append(f"{c}: {r['crashed']}")
                continue
            concrete["checks"] += [dict(x, name=x["name"] + " (continued)") for x in r["checks"]]
            concrete["failures"] += r["failures"]

    violations = []
    quiet = set()
    for f in concrete["failures"]:
        k = next((k for k in known if k[0] == f["check"] and k[1] == f["input"]), None)
        if k is not None:
            quiet.add(k[2])
            continue
        violations.append(f)
    for what in sorted(k[2] for k in known):
        print(f"KNOWN-FINDING: property={prop} {what}")

    refuted = []
    for r in results:
        if r["status"] != "refuted":
            continue
        refuted.append(r)

    code = 0
    if violations:
        v = violations[0]
        rel = [{"contract": r["name"], "obligations": [{"label": o["label"],
            "refuted": o["refuted"][:1]} for o in r["obligations"] if o["nrefuted"]]}
            for r in refuted]
        path = write_replay(prop, {"property": prop, "check": v["check"], "input": v["input"],
            "failure": v["failure"], "failed_obligations": rel,
            "rerun": f"python3-vt {VERIF}/check.py {prop} --replay <this file>"})
        print(f"{v['check']}: input {json.dumps(v['input'])[:800]}: {v['failure']}")
        print(f"VIOLATION property={prop} replay={path}")
        code = 1
    elif refuted:
        r = refuted[0]
        o = next(o for o in r["obligations"] if o["nrefuted"])
        path = write_replay(prop, {"property": prop, "check": None, "contract": r["name"],
            "failed_obligation": o["label"], "verifier_output": o["refuted"],
            "functions": r["functions"]})
        print(f"contract {r['name']}: obligation {o['label']!r} fails")
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        code = 1

    # Contracts that hold only up to a stated bound are counted separately.
    unbounded = [r for r in results if not r.get("bounded")]
    bnob, bdis = [sum(o[k] for r in results if r.get("bounded") for o in r["obligations"])
        for k in ("count", "discharged")]
    nob = sum(o["count"] for r in unbounded for o in r["obligations"])
    ndis = sum(o["discharged"] for r in unbounded for o in r["obligations"])
    ninv = sum(n for r in unbounded for n in r.get("invariants", {}).values())
    undecided = [r for r in results if r["status"] == "undecided"]
    backends = {}
    for r in results:
        for o in r["obligations"]:
            for b, n in o["backends"].items():
                backends[b] = backends.get(b, 0) + n
    assumptions = sorted({a for r in results for a in r["assumptions"]} |
            set(getattr(mod, "ASSUMPTIONS", [])))
    cases = sum(c["cases"] for c in concrete["checks"])
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": nob + ninv, "discharged": ndis + ninv,
            "invariant_obligations": ninv,
            "bounded_obligations": {"discharged": bdis, "count": bnob,
                "bounds": sorted({r["bounded"] for r in results if r.get("bounded")})},
            "checker_cmd": f"python3-vt /verif/check.py {prop}",
            "trusted_base": ["pyvc (verification condition generator for Python, /verif/pyvc)",
                "z3 " + z3_version(), "cvc5 1.1.2"] + list(getattr(mod, "TRUSTED", [])),
            "functions_under_contract": sorted({f for r in results for f in r["functions"]
                if not f.startswith(("contracts.", "pyvc."))}),
            "contracts": [{
                "name": r["name"], "status": r["status"], "reason": r["reason"],
                "bounded": r.get("bounded"),
                "obligations": {o["label"]: [o["discharged"], o["count"]]
                    for o in r["obligations"]},
                "loop_invariants": r.get("invariants", {}),
                "invariant_candidates_dropped": r["dropped"],
                "solver_s": r["solver_s"], "queries": r["queries"], "wall_s": r["wall_s"],
                } for r in results],
            "undecided_contracts": [r["name"] for r in undecided],
            "backends": backends,
            "solver_s": round(sum(r["solver_s"] for r in results), 2),
            "bounded_cross_check": {"evaluations": cases,
                "distinct": sum(c["distinct"] for c in concrete["checks"]),
                "checks": concrete["checks"], "errors": concrete["errors"]},
            "evaluations": cases,
            "samples": [s for c in concrete["checks"] for s in c["samples"]][:5],
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations) + (1 if code and not violations else 0),
    }
    if mod_error:
        evidence["coverage"]["error"] = mod_error
    if ndis == 0:
        evidence["level"] = "other"
        evidence["coverage"]["explanation"] = "no obligation was discharged on this tree; the " \
            "bounded cross-check on the real code decided"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1, default=repr)
    if mod_error:
        print(f"note: contracts could not be loaded on this tree: {mod_error}")
    for r in results:
        print(f"{r['name']}: {r['status']} "
            f"({sum(o['discharged'] for o in r['obligations'])}/"
            f"{sum(o['count'] for o in r['obligations'])} obligations, "
            f"{sum(r.get('invariants', {}).values())} invariant steps, {r['solver_s']} s solver)"
            + (f" {r['reason'][:300]}" if r["reason"] else ""))
    for e in concrete["errors"]:
        print("note:", e[:1500])
    print(f"{prop}: {ndis + ninv}/{nob + ninv} obligations ({bdis}/{bnob} bounded ones), {len(undecided)} undecided contracts, "
        f"{cases} concrete cases, {time.time() - t0:.1f} s")
    return code


def z3_version():
    try:
        import z3
        return z3.get_version_string()
    except Exception:  # pylint:disable=broad-except
        return "?"


if __name__ == "__main__":
    sys.exit(main())
