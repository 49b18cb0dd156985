"""Run the checks of the planted bugs, each against its own copy of /repo: tools/seeded.py [--seed N] [--tier quick] [ID ...]"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
opt = {"--seed": "1", "--tier": "quick", "--prop": ""}
while args and args[0] in opt:
    opt[args[0]] = args[1]
    args = args[2:]
ids = args or sorted(os.listdir(os.path.join(HERE, "seeded")))


def run(i):
    d = os.path.join(HERE, "seeded", i)
    prop = opt["--prop"] or json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="seeded_")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo, check=True)
        env = dict(os.environ, VMON_REPO=repo, VERIF_SEED=opt["--seed"], VMON_FIRST="1", VMON_PROCS="2", VMON_EVIDENCE=os.path.join(tmp, "ev"))
        r = subprocess.run(["bash", os.path.join(HERE, "check.sh"), prop, opt["--tier"]], env=env, capture_output=True, text=True)
        hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        return i, prop, "caught" if r.returncode == 1 and hit else "MISSED" if r.returncode == 0 else "rc %d" % r.returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


with concurrent.futures.ThreadPoolExecutor(4) as ex:
    n = 0
    for i, p, r in ex.map(run, ids):
        n += r == "caught"
        print("%-28s %s %s" % (i, p, r), flush=True)
print("%d of %d caught" % (n, len(ids)))
