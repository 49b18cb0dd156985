"""Sampled source mutants of /repo, each run against the monitors of its file: mutate.py N SEED OUT.jsonl [FILE-PATTERN]

Run from a copy of /verif. Mutants no monitor objects to are listed for reading: equivalent code, or something to strengthen."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
MAP = [
    (r"_io/input/tough/_write", "C01 C02 C05 C07"), (r"_io/input/tough/_read", "C03 C02"), (r"_io/input/tough/_common", "C01 C02 C03"),
    (r"_io/input/tough/_helpers", "C01 C03 C02 C07"), (r"_io/input/json", "C04 C07"), (r"_io/input/_helpers", "C15 C04 C05 C07 C01"),
    (r"_io/output/_helpers", "C12 C08 C11 C15 C09 C10"), (r"_io/output/_common", "C11 C08 C09 C10"), (r"_io/output/save", "C10 C11 C24"),
    (r"_io/output/tough", "C09 C11 C13 C24"), (r"_io/output/", "C08 C11 C14 C13 C15"), (r"_cli/_merge", "C05"), (r"_cli/_extract", "C13"),
    (r"_cli/_export", "C14"), (r"_cli/_save2incon", "C10"), (r"_mesh/_mesh", "C20 C16 C22 C24 C17 C18 C21"), (r"_mesh/_common", "C20 C22 C21 C16 C23"),
    (r"_mesh/_properties", "C16 C17 C19"), (r"_mesh/_helpers", "C21 C22 C15 C24"), (r"_mesh/tough", "C17 C18"), (r"_mesh/(avsucd|flac3d|tecplot|pickle)", "C21 C15"),
    (r"_mesh/_filter", "C20 C19"), (r"meshmaker", "C19"), (r"relative_permeability", "C25"), (r"capillarity", "C26"), (r"toughio/_common", "C01 C02 C03 C08 C09 C15"),
]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
DEEP = os.environ.get("MUT_SET") == "deep"
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.Pow: "*"}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    starts = [0]
    for l in src.split("\n"):
        starts.append(starts[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        i, j = span(n)
        return b[i:j].decode()

    out = []

    def put(n, new, what):
        i, j = span(n)
        out.append((i, j, new, n.lineno, what))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0])), docs.add(id(n.body[0].value))
    silent = set()  # messages
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or isinstance(n, ast.Call) and re.match(r"(logging|print|parser)\b", text(n)):
            silent.update(id(x) for x in ast.walk(n))
    for n in ast.walk(tree) if DEEP else ():
        if id(n) in docs or id(n) in silent:
            continue
        if isinstance(n, (ast.For, ast.comprehension)):
            for k in (12, 40, 300, 2000):
                put(n.iter, "list(%s)[:%d]" % (text(n.iter), k), "first %d" % k)
            put(n.iter, "list(%s)[::-1]" % text(n.iter), "backwards")
            put(n.iter, "sorted(%s)" % text(n.iter), "sorted")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
            put(n, ("(not %s)" if isinstance(n.ops[0], ast.Is) else "(%s)") % text(n.left), "none or false")
        elif isinstance(n, (ast.If, ast.IfExp)) and isinstance(n.test, (ast.Name, ast.Attribute, ast.Subscript)):
            put(n.test, "(%s is not None)" % text(n.test), "false or none")
        elif isinstance(n, ast.Call):
            f = text(n.func)
            if f in ("deepcopy", "numpy.array", "numpy.asarray", "dict", "list", "tuple", "numpy.copy", "set", "str", "numpy.sort", "numpy.unique") and len(n.args) == 1:
                put(n, "(" + text(n.args[0]) + ")", "uncopy")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "strip", "rstrip", "lstrip", "upper", "lower", "ravel", "astype", "items", "keys"):
                put(n, "(" + text(n.func.value) + ")", "drop ." + n.func.attr)
                if n.func.attr in ("strip", "rstrip"):
                    put(n, text(n.func.value) + ".lstrip()", "lstrip")
                    put(n, text(n.func.value) + "." + ("strip" if n.func.attr == "rstrip" else "rstrip") + "()", "other strip")
        elif isinstance(n, ast.keyword) and n.arg == "dtype":
            put(n.value, {"int": '"int16"', "float": '"float32"'}.get(text(n.value), '"float32"'), "dtype")
        elif isinstance(n, ast.Continue):
            put(n, "break", "break")
        elif isinstance(n, ast.Break):
            put(n, "continue", "continue")
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            put(n.type, "KeyboardInterrupt", "except nothing"), put(n.type, "Exception", "except all")
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and not isinstance(getattr(n, "parent", None), ast.JoinedStr):
            v = n.value
            m = re.search(r"\.(\d+)[efg]", v)
            if m:
                put(n, repr(v[:m.start(1)] + str(int(m.group(1)) - 1) + v[m.end(1):]), "digits")
            if len(v) < 20:
                put(n, repr(v[:-1] + ("~" if v[-1] != "~" else "!")), "text")
    for n in ast.walk(tree) if not DEEP else ():
        if id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, "%s %s %s" % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), "compare")
        elif isinstance(n, ast.BoolOp):
            w = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + w.join("(" + text(v) + ")" for v in n.values) + ")", "bool")
            for k in range(len(n.values)):
                put(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(" + text(v) + ")" for i, v in enumerate(n.values) if i != k) + ")", "drop term")
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            put(n, "(%s) %s (%s)" % (text(n.left), OPS[type(n.op)], text(n.right)), "arith")
        elif isinstance(n, ast.UnaryOp):
            put(n, "(" + text(n.operand) + ")", "unary")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(n, str(not n.value), "bool constant")
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), "int+1")
                if n.value > 0:
                    put(n, str(n.value - 1), "int-1")
            elif isinstance(n.value, float):
                put(n, repr(n.value * 1.001 + 1e-9), "float")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            put(n.test, "(not (" + text(n.test) + "))", "negate")
            if not isinstance(n, ast.While):
                put(n.test, "True", "always"), put(n.test, "False", "never")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, "pass", "drop statement")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    args = [text(a) for a in n.args] + ["%s=%s" % (q.arg, text(q.value)) if q.arg else "**" + text(q.value) for q in n.keywords if q is not k]
                    put(n, "%s(%s)" % (text(n.func), ", ".join(args)), "drop " + k.arg)
            if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                put(n, "%s(%s, %s)" % (text(n.func), text(n.args[1]), text(n.args[0])), "swap")
            if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "reversed", "int", "float", "str", "list", "abs", "len", "set") and len(n.args) == 1 and n.func.id != "len":
                put(n, "(" + text(n.args[0]) + ")", "unwrap")
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None:
                put(n, "%s:" % text(n.lower), "slice")
    res = []
    for i, j, new, line, what in out:
        t = (b[:i] + new.encode() + b[j:]).decode()
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        res.append((t, line, what, b[i:j].decode()[:90], new[:90]))
    return res


def one(job):
    k, rel, (t, line, what, old, new) = job
    top = tempfile.mkdtemp(prefix="mut_")
    try:
        copy = os.path.join(top, "repo")
        os.makedirs(copy)
        shutil.copytree(os.path.join(REPO, "toughio"), os.path.join(copy, "toughio"))
        open(os.path.join(copy, rel), "w").write(t)
        checks = next(c for p, c in MAP if re.search(p, rel)).split() + ["C06"] * (what in ("uncopy", "drop .copy"))
        by = None
        for c in checks:
            r = subprocess.run(["bash", V + "/check.sh", c, "quick"], env=dict(os.environ, VMON_REPO=copy, VMON_PROCS="1", VMON_FIRST="1", VERIF_SEED=str(1 + k % 5)),
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            if r.returncode == 1:
                by = c
                break
            if r.returncode == 2:
                by = "(2) " + c
                break
        return {"file": rel, "line": line, "what": what, "old": old, "new": new, "by": by, "checks": checks}
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    n, seed, outf = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    pat = sys.argv[4] if len(sys.argv) > 4 else "."
    done = set()
    if os.path.exists(outf):
        done = {(d["file"], d["line"], d["what"], d["old"], d["new"]) for d in map(json.loads, open(outf))}
    jobs = []
    for d, _, fs in os.walk(os.path.join(REPO, "toughio")):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(d, f), REPO)
            if f.endswith(".py") and re.search(pat, rel) and any(re.search(p, rel) for p, _ in MAP) and "co2tab" not in rel and f != "__init__.py":
                jobs += [(rel, m) for m in mutants(os.path.join(REPO, rel))]
    print(len(jobs), "mutants in all")
    random.Random(seed).shuffle(jobs)
    jobs = [(k,) + j for k, j in enumerate(jobs) if (j[0], j[1][1], j[1][2], j[1][3], j[1][4]) not in done][:n]
    with ThreadPoolExecutor(int(os.environ.get("MUT_PROCS", 7))) as ex, open(outf, "a") as o:
        for r in as_completed([ex.submit(one, j) for j in jobs]):
            r = r.result()
            o.write(json.dumps(r) + "\n")
            o.flush()
