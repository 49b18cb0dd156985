"""Try a planted bug: plant.py SPEC.py [--no-tests] -> /verif/seeded/<id>/ when it qualifies; prints whether the check catches it.

SPEC defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source, exits nonzero when broken)."""
import json, os, re, shutil, subprocess, sys, runpy
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# cwd: the repository; exits nonzero when the property is broken
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" OMP_NUM_THREADS=1
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
export TMPDIR="$work"
/opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def stable(copy):
    s = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + copy).replace("-n 8", "-n 4")
    p = copy + ".test.sh"
    open(p, "w").write(s)
    o = copy + ".json"
    sh(["bash", p, o])
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    r = set(json.load(open(o))["passed"])
    os.remove(o), os.remove(p)
    return [t for t in b if t not in r]


def one(path, tests=True):
    name = os.path.splitext(os.path.basename(path))[0]
    S = runpy.run_path(path)
    copy = "/tmp/plantcopy_" + name
    shutil.rmtree(copy, ignore_errors=True)
    sh(["cp", "-a", "/repo", copy])
    out = [name, S["PROPERTY"]]
    try:
        base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
        for f, old, new in S["EDITS"]:
            q = os.path.join(copy, f)
            t = open(q).read()
            if t.count(old) != 1:
                return out + ["BAD EDIT %s: %d matches of %r" % (f, t.count(old), old[:60])]
            open(q, "w").write(t.replace(old, new))
        diff = sh(["git", "diff"], cwd=copy).stdout
        removed = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
        orig = "".join(subprocess.check_output(["git", "-C", "/repo", "show", base + ":" + f], text=True) for f, _, _ in S["EDITS"])
        if removed and not any(l in orig.split("\n") for l in removed if l.strip()):
            out[0] += " (not original lines: not kept)"
        d = os.path.join("/tmp", "plantdemo_" + name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.py", "w").write(S["DEMO"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO_SH)
        a = sh(["bash", d + "/demo.sh"], cwd="/repo")
        b = sh(["bash", d + "/demo.sh"], cwd=copy)
        if a.returncode != 0:
            return out + ["DEMO FAILS UNCHANGED: " + a.stdout[-500:]]
        if b.returncode == 0:
            return out + ["DEMO PASSES PATCHED: " + b.stdout[-300:]]
        keep = "not kept" not in out[0]
        if tests and keep:
            miss = stable(copy)
            if miss:
                return out + ["STABLE TESTS FAIL: %s" % miss[:3]]
        if keep:
            dst = os.path.join(V, "seeded", name)
            os.makedirs(dst, exist_ok=True)
            open(dst + "/patch.diff", "w").write(diff)
            shutil.copy(d + "/demo.py", dst), shutil.copy(d + "/demo.sh", dst)
            json.dump({"property": S["PROPERTY"], "needs": S["NEEDS"], "what_it_breaks": S["BREAKS"]}, open(dst + "/meta.json", "w"), indent=1)
            open(dst + "/meta.json", "a").write("\n")
        shutil.rmtree(d)
        r = sh(["bash", V + "/check.sh", S["PROPERTY"], "quick"], cwd=V, env={"VMON_REPO": copy, "VERIF_SEED": "1", "VERIF_TIER": "quick", "VMON_PROCS": "4"})
        first = next((l for l in r.stdout.split("\n") if l.startswith("  [")), "")[:160]
        return out + ["demo:" + b.stdout.strip().split("\n")[-1][:100], "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + S["PROPERTY"] in r.stdout else
                      "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:]), first]
    finally:
        shutil.rmtree(copy, ignore_errors=True)


if __name__ == "__main__":
    tests = "--no-tests" not in sys.argv
    specs = [a for a in sys.argv[1:] if a.endswith(".py")]
    with ThreadPoolExecutor(2 if tests else 3) as ex:
        for r in ex.map(lambda s: one(s, tests), specs):
            print(" | ".join(r), flush=True)
