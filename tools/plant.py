#!/usr/bin/env python3
"""Plant bugs: plant.py SPEC.py...; each spec file defines BUGS = [dict(id, property, file, old, new
   (or edits=[(file, old, new), ...]), demo (Python text run in /repo), needs, what)].

   Validates every bug in a scratch copy of /repo and writes /verif/seeded/<id>/."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# exit 0 if the property holds in this example
d=$(cd "$(dirname "$0")" && pwd)
s=$(mktemp -d /tmp/demo-XXXXXX)
mkdir -p "$s/.cache"
HOME="$s" PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 DEMO_SCRATCH="$s" timeout 250 python3 "$d/demo.py"
r=$?
rm -rf "$s"
exit $r
"""
HEAD = """import os, sys, subprocess
sys.path.insert(0, os.getcwd())
REPO = os.getcwd()
SCRATCH = os.environ["DEMO_SCRATCH"]


def ff(*argv, cwd=None, env=None, optimize=False):
    e = dict(os.environ, PYTHONPATH=REPO, **(env or {}))
    p = subprocess.run([sys.executable] + (["-O"] if optimize else []) + ["-m", "ff", *argv],
        cwd=cwd or SCRATCH, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, timeout=100)
    return p.returncode, p.stdout.decode("utf-8", "surrogateescape"), p.stderr.decode("utf-8",
        "surrogateescape")


def make(tree):
    root = os.path.join(SCRATCH, "tree")
    os.makedirs(root, exist_ok=True)
    for path, content in tree.items():
        full = os.path.join(root, path)
        if content is None:
            os.makedirs(full, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "w") as f:
            f.write(content)
    return root


def check(got, want, what):
    if got != want:
        print(f"{what}: got {got!r}, expected {want!r}")
        sys.exit(1)


"""


def run(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        timeout=timeout, text=True)


def tests_pass(repo, scratch):
    with open("/opt/vp/test.sh") as f:
        t = f.read().replace("PYTHONPATH=/repo", "PYTHONPATH=" + repo).replace("cd /repo",
            "cd " + repo).replace("/opt/vp/run_tests.py", scratch + "/run_tests.py")
    with open("/opt/vp/run_tests.py") as f:
        r = f.read().replace("/repo/tests", repo + "/tests")
    with open(scratch + "/run_tests.py", "w") as f:
        f.write(r)
    sh = os.path.join(scratch, "test.sh")
    out = os.path.join(scratch, "t.json")
    with open(sh, "w") as f:
        f.write(t)
    run(["bash", sh, out], repo)
    with open(out) as f:
        passed = set(json.load(f)["passed"])
    with open("/opt/vp/BASELINE.json") as f:
        return sorted(set(json.load(f)["stable"]) - passed)


def plant(bug, check=True):
    scratch = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        repo = os.path.join(scratch, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=repo)
        edits = bug.get("edits") or [(bug["file"], bug["old"], bug["new"])]
        demo = os.path.join(scratch, "demo")
        os.makedirs(demo)
        with open(demo + "/demo.sh", "w") as f:
            f.write(DEMO)
        with open(demo + "/demo.py", "w") as f:
            f.write(HEAD + bug["demo"].strip() + "\n")
        r = run(["bash", demo + "/demo.sh"], repo)
        if r.returncode:
            return f"demo fails without the change: {r.stdout[-500:]}"
        for file, old, new in edits:
            p = os.path.join(repo, file)
            with open(p) as f:
                s = f.read()
            if s.count(old) != 1:
                return f"{s.count(old)} occurrences of {old!r}"
            with open(p, "w") as f:
                f.write(s.replace(old, new))
        r = run(["bash", demo + "/demo.sh"], repo)
        if r.returncode == 0:
            return "demo passes with the change"
        why = r.stdout.strip()[-200:]
        missing = tests_pass(repo, scratch)
        if missing:
            return f"tests fail: {missing[:3]}"
        diff = run(["git", "diff"], repo).stdout
        d = os.path.join(VERIF, "seeded", bug["id"])
        os.makedirs(d, exist_ok=True)
        with open(d + "/patch.diff", "w") as f:
            f.write(diff)
        shutil.copy(demo + "/demo.sh", d)
        shutil.copy(demo + "/demo.py", d)
        with open(d + "/meta.json", "w") as f:
            json.dump({"property": bug["property"], "needs": bug["needs"],
                "what_it_breaks": bug["what"]}, f, indent=1)
            f.write("\n")
        res = "planted (" + why + ")"
        if check:
            r = subprocess.run(["python3-vt", "-B", VERIF + "/check.py", bug["property"]],
                env=dict(os.environ, VERIF_REPO=repo), stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, text=True, timeout=900)
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            ref = [x.split(" (")[0] for x in r.stdout.splitlines() if ": refuted" in x]
            res += f"\n    check: exit {r.returncode} " + ("CAUGHT" if v else "MISSED") + \
                (" (no input)" if v and v[0].endswith("found") else "") + " refuted: " + str(ref)
            if not v:
                res += "\n" + r.stdout[-1500:]
        return res
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    import concurrent.futures
    bugs = [b for a in sys.argv[1:] for b in runpy.run_path(a)["BUGS"]]
    with concurrent.futures.ThreadPoolExecutor(3) as pool:
        for b, r in zip(bugs, pool.map(plant, bugs)):
            print(b["id"], r, flush=True)
