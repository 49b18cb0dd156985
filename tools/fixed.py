"""Record the repairs of /repo ("fix:" commits) in known_findings.json; property of each below."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = """
columns width|C01
keep numbers within|C01
default of the solver type|C02
block SELEC could not be written|C01
block SELEC without IE|C03
optional parameters left undefined|C01
reading of the title|C02
rocks_order given|C01
diffusion given|C01
parameter creep|C02
mass components of block MULTI|C02
elements without material|C02
tables of specific enthalpy|C02
longer than 5 characters in blocks|C02
following block OUTPU|C02
time steps of block PARAM|C02
absence of START|C02
NumPy scalars and selections|C04
do not truncate JSON|C04
MOP and MOMOP|C03
NAD = 0|C03
merge glued|C05
given label length|C09
glued to the previous column|C09
reordered in place|C06
labels_order given as an array|C10
SAVE files without porosity|C10
read forever|C08
CSV output without time|C08
extract ignored the file format|C13
save2incon truncated|C10
--voxelize|C14
three-digit exponent were glued|C08
last entry of a Tecplot zone|C08
new material could share|C20
mixed by the interpolation|C20
negative initial conditions|C18
set_material with cells|C20
cannot be extruded|C20
modified by its conversion|C22
box filter|C16
physical groups are all surfaces|C22
without connection could not|C17
material_name and material_end|C17
direction of anisotropy|C17
""".strip().split("\n")
MAP = [l.split("|") for l in MAP if l]
extra = os.path.join(root, "tools", "fixed_extra.txt")
if os.path.exists(extra):
    MAP += [l.strip().split("|") for l in open(extra) if l.strip()]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).strip().split("\n")
out, bad = [], []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    k = [p for m, p in MAP if m in s]
    if not k:
        bad.append(l)
        continue
    out.append("fixed: property=%s %s %s" % (k[0], h, s[5:]))
path = os.path.join(root, "known_findings.json")
d = json.load(open(path)) if os.path.exists(path) else {"findings": []}
d["fixed"] = out
json.dump(d, open(path, "w"), indent=1)
open(path, "a").write("\n")
print(len(out), "fixed;", "unmapped:", bad)
