"""Fill the tables of DESIGN.md from tools/design.md, the monitors, known_findings.json and seeded/."""
import ast, glob, json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = lambda s: re.sub(r"\s+", " ", s).strip()


def consts(i):
    t = ast.parse(open("%s/vmon/props/%s.py" % (V, i.lower())).read())
    out = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            k = n.targets[0].id
            if k in ("RULE", "ASSUMPTIONS"):
                out[k] = ast.literal_eval(n.value)
            elif k == "SCALE":
                out[k] = ast.literal_eval(n.value)
            elif k == "FAMILIES":
                out[k] = [(ast.literal_eval(a), *[ast.unparse(x) for x in b.elts[1:]]) for a, b in zip(n.value.keys, n.value.values)] if isinstance(n.value, ast.Dict) else []
    return out


def main():
    why = json.load(open(V + "/tools/why.json"))
    P = []
    for l in open(V + "/properties.jsonl"):
        p = json.loads(l)
        c = consts(p["id"])
        s = "### %s - %s\n\n" % (p["id"], p["title"])
        s += "*Monitored.* " + N(c["RULE"]) + "\n\n"
        s += "*Beyond the tests.* " + N(why[p["id"]]) + "\n\n"
        if c.get("FAMILIES"):
            scale = c.get("SCALE", 1)
            if scale > 1:
                c["FAMILIES"] = [(f, int(a) * scale, max(int(b), 3 * int(a) * scale)) if int(a) >= 30 else (f, a, b) for f, a, b in c["FAMILIES"]]
            s += "*Families (quick / thorough cases).* " + ", ".join("%s %s / %s" % f for f in c["FAMILIES"]) + ".\n\n"
        s += "*Assumptions.* " + "; ".join(c["ASSUMPTIONS"]) + ".\n"
        P.append(s)
    K = json.load(open(V + "/known_findings.json"))
    F = "| property | commit | what failed |\n|---|---|---|\n"
    for f in K.get("fixed", K.get("entries", [])):
        t = f if isinstance(f, str) else f.get("text", str(f))
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", t)
        F += "| %s | `%s` | %s |\n" % m.groups() if m else "| | | %s |\n" % t
    missed = json.load(open(V + "/tools/missed.json"))
    S = "| planted bug | property | needs | breaks | caught |\n|---|---|---|---|---|\n"
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m = json.load(open(d))
        i = os.path.basename(os.path.dirname(d))
        S += "| %s | %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], m["what_it_breaks"], ("yes * " + missed[i]) if i in missed else "yes")
    t = open(V + "/tools/design.md").read()
    t = t.replace("@@PROPS@@", "\n".join(P).strip()).replace("@@FIXES@@", F.strip()).replace("@@SEEDED@@", S.strip())
    open(V + "/DESIGN.md", "w").write(t)


main()
