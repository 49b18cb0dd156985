"""Independent model of the TOUGH input deck.

Nothing here is taken from the code under test: the record layouts below are
transcribed from the TOUGH2 / TOUGH3 / TOUGH-FLAC user guides.  The module

* generates parameter dictionaries (``gen_params``),
* states which records a deck with those parameters must contain
  (``deck_blocks``: block -> list of records, record -> list of ``Fld``),
* states what a reader must give back (``effective``), in a canonical form that
  both a written dictionary and a read dictionary can be brought to
  (``canonical_read``),
* renders decks in several legal styles (``render``).
"""
import math
from collections import OrderedDict

import numpy as np


# ---------------------------------------------------------------------------
# Fields
# ---------------------------------------------------------------------------
class Fld(object):
    __slots__ = ("w", "kind", "v", "p")

    def __init__(self, w, kind, v, p=None):
        self.w, self.kind, self.v, self.p = w, kind, v, p

    def __repr__(self):
        return "%s%d(%r)" % (self.kind, self.w, self.v)


def S(w, v):
    return Fld(w, "s", v)


def R(w, v):  # right-justified string
    return Fld(w, "r", v)


def I(w, v):
    return Fld(w, "i", v)


def E(w, p, v):
    return Fld(w, "e", v, p)


def X(w):
    return Fld(w, "x", None)


def fit_precision(v, w, p):
    """Number of decimals with which v can be written in w columns."""
    v = float(v)
    q = p
    while q > 0 and len("%.*e" % (q, v)) > w:
        q -= 1
    return q


def quantum(v, w, p):
    """Largest rounding error legitimately introduced by a w.p 'e' field."""
    v = float(v)
    if v == 0.0 or not math.isfinite(v):
        return 0.0
    q = fit_precision(v, w, p)
    e = math.floor(math.log10(abs(v)))
    return 0.5000001 * 10.0 ** (e - q) * (1 + 1e-9) + 8e-16 * abs(v) + 5e-324


class Q(object):
    """A number that went through a w.p field."""

    __slots__ = ("v", "w", "p")

    def __init__(self, v, w, p):
        self.v, self.w, self.p = float(v), w, p

    def __repr__(self):
        return "Q(%r)" % self.v

    def accepts(self, x):
        if isinstance(x, bool) or not isinstance(x, (int, float, np.floating, np.integer)):
            return False
        x = float(x)
        if math.isinf(self.v):
            return x == self.v
        return abs(x - self.v) <= quantum(self.v, self.w, self.p)


ANY = object()  # agrees with anything


def diff(exp, got, path=""):
    """First difference between canonical expected and canonical got, or None."""
    if exp is ANY:
        return None
    if isinstance(exp, Q):
        return None if exp.accepts(got) else "%s: expected %r got %r" % (path, exp.v, got)
    if isinstance(exp, dict):
        if not isinstance(got, dict):
            return "%s: expected a mapping got %r" % (path, got)
        for k in exp:
            if k not in got:
                return "%s: lost key %r (value %r)" % (path, k, exp[k])
        for k in got:
            if k not in exp:
                return "%s: spurious key %r (value %.200r)" % (path, k, got[k])
        if isinstance(exp, OrderedDict) and list(exp) != list(got):
            return "%s: order %.300r expected %.300r" % (path, list(got), list(exp))
        for k in exp:
            d = diff(exp[k], got[k], "%s[%r]" % (path, k))
            if d:
                return d
        return None
    if isinstance(exp, (list, tuple)):
        if not isinstance(got, (list, tuple)):
            return "%s: expected a sequence got %r" % (path, got)
        if len(exp) != len(got):
            return "%s: expected %d values got %d: %.300r vs %.300r" % (path, len(exp), len(got), exp, got)
        for i, (a, b) in enumerate(zip(exp, got)):
            d = diff(a, b, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(exp, bool) or isinstance(got, bool):
        return None if bool(exp) == bool(got) and (exp in (0, 1, True, False)) and (got in (0, 1)) else "%s: expected %r got %r" % (path, exp, got)
    if exp is None or got is None:
        return None if exp is got else "%s: expected %r got %r" % (path, exp, got)
    if isinstance(exp, str) or isinstance(got, str):
        return None if exp == got and type(exp) is type(got) else "%s: expected %r got %r" % (path, exp, got)
    return None if exp == got else "%s: expected %r got %r" % (path, exp, got)


# ---------------------------------------------------------------------------
# Column layouts
# ---------------------------------------------------------------------------
ELEME_N = {5: (5, 5, 5), 6: (6, 5, 4), 7: (7, 4, 4), 8: (8, 4, 3), 9: (9, 3, 3)}
CONNE_N = {5: (10, 5, 5, 5, 5), 6: (12, 5, 4, 4, 5), 7: (14, 5, 3, 3, 5), 8: (16, 3, 3, 3, 5), 9: (18, 3, 2, 2, 5)}
INCON_N = {5: (5, 5, 5), 6: (6, 5, 4), 7: (7, 4, 4), 8: (8, 4, 3), 9: (9, 3, 3)}
GENER_N = {5: (5, 5, 5, 5, 5), 6: (6, 5, 6, 4, 4), 7: (7, 5, 5, 4, 4), 8: (8, 5, 4, 4, 4), 9: (9, 5, 5, 3, 3)}

ROCK1 = ["density", "porosity", "permeability", "conductivity", "specific_heat"]
ROCK2 = ["compressibility", "expansivity", "conductivity_dry", "tortuosity", "klinkenberg_parameter",
         "distribution_coefficient_3", "distribution_coefficient_4"]
OPT1 = ["n_iteration", "verbosity", "n_cycle", "n_second", "n_cycle_print", "temperature_dependence_gas",
        "effective_strength_vapor"]
EOS_MULTI = {
    "eos1": [1, 2, 2, 6], "eos2": [2, 3, 2, 6], "eos3": [2, 3, 2, 6], "eos4": [2, 3, 2, 6],
    "eos5": [2, 3, 2, 6], "eos7": [3, 3, 2, 6], "eos8": [3, 3, 3, 6], "eos9": [1, 1, 1, 6],
    "eoswasg": [3, 4, 3, 6], "eco2n": [3, 4, 3, 6], "eco2n_v2": [3, 4, 3, 6], "eco2m": [3, 4, 4, 6],
}


def _f(v):
    return None if v is None else float(v)


def seq(v):
    if v is None:
        return None
    return [x for x in v]


def prune(v):
    v = list(v)
    while v and v[-1] is None:
        v.pop()
    return v


def per3(v):
    return [v] * 3 if np.ndim(v) == 0 else list(v)


def rock_names(P):
    rocks = P.get("rocks") or {}
    order = P.get("rocks_order")
    if order is None:
        return list(rocks)
    order = list(order)
    return order + [r for r in rocks if r not in order]


def rock_prop(P, name, key):
    """A rock property, or the default one when the rock does not define it."""
    rock = P["rocks"][name]
    if key in rock:
        return rock[key]
    return (P.get("default") or {}).get(key)


def ordered(P, key):
    d = P.get(key) or {}
    order = P.get(key + "_order")
    return list(d) if order is None else list(order)


def model_of(P, key):
    m = (P.get("default") or {}).get(key)
    return m


FLAC_DEFAULT = {"permeability_model": {"id": 1, "parameters": []},
                "equivalent_pore_pressure": {"id": 3, "parameters": []}}


def rock_model(P, name, key):
    if key in P["rocks"][name]:
        return P["rocks"][name][key]
    if key in (P.get("default") or {}):
        return P["default"][key]
    return FLAC_DEFAULT[key]


def gener_components(P):
    """Flatten generators to one dict per written generator."""
    out = []
    keys = ["name", "nseq", "nadd", "nads", "type", "times", "rates", "specific_enthalpy", "layer_thickness"]
    for label, g in (P.get("generators") or {}).items():
        if isinstance(g.get("type"), str):
            out.append((label, {k: g.get(k) for k in keys}))
        else:
            for i in range(len(g["type"])):
                out.append((label, {k: (g[k][i] if g.get(k) is not None else None) for k in keys}))
    return out


def _is_seq(v):
    return isinstance(v, (list, tuple, np.ndarray))


# ---------------------------------------------------------------------------
# Expected records
# ---------------------------------------------------------------------------
def deck_blocks(P):
    """OrderedDict block -> list of records (None = blank terminator line)."""
    B = OrderedDict()
    default = P.get("default") or {}
    title = P.get("title", "")
    title = [title] if isinstance(title, str) else list(title)
    B["TITLE"] = [[S(80, t)] for t in title]

    names = rock_names(P)
    recs = []
    for n in names:
        rock = P["rocks"][n]
        second = any(rock_prop(P, n, k) is not None for k in ROCK2)
        models = "relative_permeability" in rock or "capillarity" in rock
        nad = 2 if models else (1 if second else None)
        k3 = per3(rock_prop(P, n, "permeability"))
        recs.append([S(5, n), I(5, nad), E(10, 4, rock_prop(P, n, "density")), E(10, 4, rock_prop(P, n, "porosity")),
                     E(10, 4, k3[0]), E(10, 4, k3[1]), E(10, 4, k3[2]),
                     E(10, 4, rock_prop(P, n, "conductivity")), E(10, 4, rock_prop(P, n, "specific_heat"))])
        if nad:
            recs.append([E(10, 4, rock_prop(P, n, k)) for k in ROCK2])
        if models:
            for key in ("relative_permeability", "capillarity"):
                m = rock.get(key) or {"id": None, "parameters": []}
                recs.append([I(5, m["id"]), X(5)] + [E(10, 3, x) for x in m["parameters"]])
    B["ROCKS"] = recs + [None]

    rp, cp = default.get("relative_permeability"), default.get("capillarity")
    if (rp and rp["id"] is not None) or (cp and cp["id"] is not None):
        B["RPCAP"] = []
        for m in (rp, cp):
            m = m or {"id": None, "parameters": []}
            B["RPCAP"].append([I(5, m["id"]), X(5)] + [E(10, 3, x) for x in m["parameters"]])

    if P.get("flac") is not None:
        f = P["flac"]
        creep = f.get("creep", False)
        recs = [[I(5, 1 if creep else 0), I(5, f.get("porosity_model")), I(5, f.get("version"))]]
        for n in names:
            m = rock_model(P, n, "permeability_model")
            recs.append([I(10, m["id"])] + [E(10, 3, x) for x in m["parameters"]])
            m = rock_model(P, n, "equivalent_pore_pressure")
            recs.append([I(5, m["id"]), X(5)] + [E(10, 3, x) for x in m["parameters"]])
        B["FLAC"] = recs + [None]

    if P.get("eos") or (P.get("n_component") and P.get("n_phase")):
        m = list(EOS_MULTI[P["eos"]]) if P.get("eos") else [0, 0, 0, 6]
        if P.get("n_component"):
            m[0] = P["n_component"]
        m[1] = m[0] + (0 if P.get("isothermal") else 1)
        if P.get("n_phase"):
            m[2] = P["n_phase"]
        if P.get("diffusion") is not None and len(P["diffusion"]):
            m[3] = 8
        B["MULTI"] = [[I(5, x) for x in m] + [I(5, P.get("n_component_mass"))]]

    if P.get("solver"):
        s = dict(method=3, z_precond="Z0", o_precond="O0", rel_iter_max=0.1, eps=1.0e-6)
        s.update(P["solver"])
        B["SOLVR"] = [[I(1, s["method"]), X(2), S(3, s["z_precond"]), X(2), S(2, s["o_precond"]),
                       E(10, 4, s["rel_iter_max"]), E(10, 4, s["eps"])]]

    if P.get("start", True):
        B["START"] = None  # free text after the keyword

    o = P.get("options") or {}
    mop = P.get("extra_options") or {}
    mops = "".join(" " if mop.get(i) is None else str(int(mop[i])) for i in range(1, 25))
    recs = [[I(2, o.get("n_iteration")), I(2, o.get("verbosity")), I(4, o.get("n_cycle")), I(4, o.get("n_second")),
             I(4, o.get("n_cycle_print")), S(24, mops), X(10), E(10, 4, o.get("temperature_dependence_gas")),
             E(10, 4, o.get("effective_strength_vapor"))]]
    ts = o.get("t_steps")
    ts = [ts] if not _is_seq(ts) else list(ts)
    nl = -(-len(ts) // 8)
    recs.append([E(10, 4, o.get("t_ini")), E(10, 4, o.get("t_max")), E(10, 4, -float(nl)), E(10, 4, o.get("t_step_max")),
                 X(10), E(10, 4, o.get("gravity")), E(10, 4, o.get("t_reduce_factor")),
                 E(10, 4, o.get("mesh_scale_factor"))])
    for i in range(nl):
        recs.append([E(10, 4, x) for x in ts[8 * i:8 * i + 8]])
    recs.append([E(10, 4, o.get("eps1")), E(10, 4, o.get("eps2")), X(10), E(10, 4, o.get("w_upstream")),
                 E(10, 4, o.get("w_newton")), E(10, 4, o.get("derivative_factor"))])
    ic = list(_nn(default.get("initial_condition")))
    recs.append([E(20, 13, x) for x in ic[:4]])
    for i in range(4, len(prune(ic)), 4):
        recs.append([E(20, 13, x) for x in ic[i:i + 4]])
    B["PARAM"] = recs

    if P.get("selections"):
        s = P["selections"]
        ints = dict((k, v) for k, v in (s.get("integers") or {}).items())
        fl = s.get("floats")
        rows = []
        if fl is not None and len(fl):
            rows = [list(r) for r in fl] if _is_seq(fl[0]) else [list(fl)]
            ints[1] = len(rows)
        B["SELEC"] = [[I(5, ints.get(i)) for i in range(1, 17)]] + [[E(10, 3, x) for x in r] for r in rows]

    ind = [(n, list(P["rocks"][n]["initial_condition"])) for n in names
           if P["rocks"][n].get("initial_condition") is not None and "initial_condition" in P["rocks"][n]]
    if any(any(x is not None for x in v[:4]) for _, v in ind):
        recs = []
        for n, v in ind:
            if any(x is not None for x in v):
                recs.append([S(5, n)])
                recs.append([E(20, 13, x) for x in v[:4]])
                for i in range(4, len(prune(v)), 4):
                    recs.append([E(20, 13, x) for x in v[i:i + 4]])
        B["INDOM"] = recs + [None]

    if P.get("more_options"):
        mm = P["more_options"]
        B["MOMOP"] = [[S(40, "".join(" " if mm.get(i) is None else str(int(mm[i])) for i in range(1, 41)))]]

    if P.get("times") is not None:
        t = P["times"]
        t = list(t) if np.ndim(t) else [t]
        B["TIMES"] = [[I(5, len(t))]] + [[E(10, 4, x) for x in t[8 * i:8 * i + 8]] for i in range(-(-len(t) // 8))]

    for key, blk, w in (("element_history", "FOFT", 9), ("connection_history", "COFT", 18), ("generator_history", "GOFT", 9)):
        if P.get(key) is not None:
            B[blk] = [[S(w, x)] for x in P[key]] + [None]

    if P.get("generators"):
        n = len(next(iter(P["generators"])))
        a = GENER_N[n]
        recs = []
        for label, g in gener_components(P):
            table = _is_seq(g["times"])
            enth = g["specific_enthalpy"]
            ltab = len(g["times"]) if table else None
            recs.append([S(a[0], label), S(a[1], g["name"]), I(a[2], g["nseq"]), I(a[3], g["nadd"]), I(a[4], g["nads"]),
                         I(5, ltab), X(5), S(4, g["type"]), I(1, 1 if table and enth is not None else None),
                         E(10, 3, None if table else g["rates"]), E(10, 3, None if table else enth),
                         E(10, 3, g["layer_thickness"])])
            if table:
                cols = [list(g["times"]), list(g["rates"])]
                if enth is not None:
                    cols.append(list(enth) if _is_seq(enth) else [enth] * ltab)
                for c in cols:
                    recs += [[E(14, 7, x) for x in c[4 * i:4 * i + 4]] for i in range(-(-len(c) // 4))]
        B["GENER"] = recs + [None]

    if P.get("diffusion") is not None:
        B["DIFFU"] = [[E(10, 3, x) for x in row] for row in P["diffusion"]]

    if P.get("output"):
        o = P["output"]
        recs = []
        if o.get("format"):
            recs.append([S(20, o["format"].upper())])
        if o.get("variables"):
            rows = output_rows(o["variables"])
            recs.append([S(15, str(len(rows)))])
            recs += [[S(20, k.upper())] + [I(5, x) for x in v] for k, v in rows]
        B["OUTPU"] = recs

    if P.get("elements"):
        names_e = ordered(P, "elements")
        n = len(names_e[0])
        a = ELEME_N[n]
        recs = []
        for k in names_e:
            e = P["elements"][k]
            mat = e.get("material", "")
            m = R(5, str(int(mat))) if isinstance(mat, (int, np.integer)) else S(5, mat)
            c = e.get("center")
            c = [None] * 3 if c is None else list(c)
            recs.append([S(a[0], k), I(a[1], e.get("nseq")), I(a[2], e.get("nadd")), m, E(10, 4, e.get("volume")),
                         E(10, 4, e.get("heat_exchange_area")), E(10, 4, e.get("permeability_modifier")),
                         E(10, 3, c[0]), E(10, 3, c[1]), E(10, 3, c[2])])
        B["ELEME"] = recs + [None]
        if P.get("coordinates"):
            B["COORD"] = [[E(20, 13, x) for x in P["elements"][k]["center"]] for k in names_e] + [None]

    if P.get("connections"):
        names_c = ordered(P, "connections")
        n = len(names_c[0]) // 2
        a = CONNE_N[n]
        recs = []
        for k in names_c:
            c = P["connections"][k]
            nadd = c.get("nadd")
            nadd = [None, None] if nadd is None else list(nadd)
            nd = c.get("nodal_distances")
            nd = [None, None] if nd is None else list(nd)
            recs.append([S(a[0], k), I(a[1], c.get("nseq")), I(a[2], nadd[0]), I(a[3], nadd[1]),
                         I(a[4], c.get("permeability_direction")), E(10, 4, nd[0]), E(10, 4, nd[1]),
                         E(10, 4, c.get("interface_area")), E(10, 3, c.get("gravity_cosine_angle")),
                         E(10, 3, c.get("radiant_emittance_factor"))])
        B["CONNE"] = recs + [None]

    if P.get("initial_conditions"):
        names_i = ordered(P, "initial_conditions")
        n = len(names_i[0])
        a = INCON_N[n]
        recs = []
        for k in names_i:
            c = P["initial_conditions"][k]
            ux = list(c.get("userx") if c.get("userx") is not None else [])
            v = list(c.get("values") if c.get("values") is not None else [])
            recs.append([S(a[0], k), X(a[1]), X(a[2]), E(15, 9, c.get("porosity"))] + [E(10, 3, x) for x in ux])
            recs.append([E(20, 13, x) for x in v[:4]])
            for i in range(4, len(prune(v)), 4):
                recs.append([E(20, 13, x) for x in v[i:i + 4]])
        B["INCON"] = recs + [None]

    if P.get("nover"):
        B["NOVER"] = []
    B["ENDCY"] = []
    return B


def output_rows(variables):
    rows = []
    for k, v in variables.items():
        if np.ndim(v) == 0:
            rows.append((k, [v]))
        elif np.ndim(v[0]) == 0:
            rows.append((k, list(v)))
        else:
            rows += [(k, list(x)) for x in v]
    return rows


def parse_fortran(s):
    s = s.strip()
    try:
        return float(s)
    except ValueError:
        t = s.replace("D", "E").replace("d", "e")
        for i in range(len(t) - 1, 0, -1):
            if t[i] in "+-" and t[i - 1] not in "eE+-":
                t = t[:i] + "e" + t[i:]
                break
        return float(t)


def record_error(line, rec):
    """Why ``line`` is not the record ``rec`` (None when it is)."""
    pos = 0
    for f in rec:
        text = line[pos:pos + f.w]
        a, pos = pos, pos + f.w
        where = "columns %d-%d %r of %r" % (a + 1, pos, text, line)
        if f.kind == "x" or f.v is None:
            if text.strip():
                return "%s should be blank" % where
        elif f.kind == "s":
            want = str(f.v)[:f.w]
            if text.ljust(f.w) != want.ljust(f.w):
                return "%s should hold %r" % (where, want)
        elif f.kind == "r":
            if text.strip() != f.v or text.rjust(f.w) != f.v.rjust(f.w):
                return "%s should hold %r right-justified" % (where, f.v)
        elif f.kind == "i":
            try:
                ok = int(text) == int(f.v)
            except ValueError:
                ok = False
            if not ok:
                return "%s should hold integer %r" % (where, f.v)
        elif f.kind == "e":
            try:
                x = parse_fortran(text)
                ok = Q(f.v, f.w, f.p).accepts(x)
            except ValueError:
                ok = False
            if not ok:
                return "%s should hold %r" % (where, f.v)
    if line[pos:].strip():
        return "trailing text %r beyond the last field of %r" % (line[pos:], line)
    return None


KEYWORDS = ["ROCKS", "RPCAP", "FLAC", "MULTI", "SOLVR", "START", "PARAM", "SELEC", "INDOM", "MOMOP", "TIMES",
            "FOFT", "COFT", "GOFT", "GENER", "DIFFU", "OUTPU", "ELEME", "COORD", "CONNE", "INCON", "NOVER", "ENDCY"]


def keyword_of(line):
    """Block keyword of a header line as written by the library (keyword + ruler)."""
    for k in KEYWORDS:
        if line[:5].rstrip() == k and (line[5:].strip() == "" or line[5:9] == "----"):
            return k
    return None


def check_deck(text, blocks, width=80):
    """Check a deck text against expected blocks. Return an error or None.

    The order in which blocks appear is not constrained except that titles come
    first and ENDCY (when expected) last.
    """
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    want = OrderedDict(blocks)
    i = 0
    for rec in want.pop("TITLE", []):
        if i >= len(lines):
            return "file ends inside the title"
        e = record_error(lines[i], rec)
        if e:
            return "title: " + e
        i += 1
    seen = []
    blank_ok = True
    while i < len(lines):
        k = keyword_of(lines[i])
        if k is None:
            if lines[i][:5] == "----*" and seen and seen[-1] == "START":
                i += 1
                continue
            if not lines[i].strip() and seen and seen[-1] == "PARAM" and keyword_of(lines[i - 1]) is None and blank_ok:
                # a blank fifth record (no default beyond the fourth variable)
                blank_ok = False
                i += 1
                continue
            return "line %d %r is not inside any block (after %s)" % (i + 1, lines[i], seen[-1:] or "title")
        if k in seen:
            return "block %s written twice" % k
        if k not in want:
            return "unexpected block %s" % k
        seen.append(k)
        i += 1
        recs = want[k]
        if recs is None:
            continue
        for j, rec in enumerate(recs):
            if i >= len(lines):
                return "file ends inside block %s" % k
            if rec is None:
                if lines[i].strip():
                    return "block %s: line %d %r where the blank terminator is expected" % (k, i + 1, lines[i])
            else:
                e = record_error(lines[i], rec)
                if e:
                    return "block %s record %d: %s" % (k, j + 1, e)
                if len(lines[i].rstrip()) > width:
                    return "block %s record %d longer than %d columns" % (k, j + 1, width)
            i += 1
    missing = [k for k in want if k not in seen]
    if missing:
        return "missing blocks %s" % missing
    if "ENDCY" in want and seen[-1] != "ENDCY":
        return "ENDCY is not the last block"
    return None


# ---------------------------------------------------------------------------
# Rendering decks in other legal styles (for the reader)
# ---------------------------------------------------------------------------
def fmt_float(v, w, p, style):
    v = float(v)
    q = fit_precision(v, w, p)
    if style == "e" or not math.isfinite(v):
        return "%.*e" % (q, v)
    if style == "E":
        return ("%.*e" % (q, v)).upper()
    if style == "fixed":
        s = repr(v)
        if "e" not in s and len(s) <= w and abs(v) < 1e15:
            if s.endswith(".0"):
                s = s[:-1]
            return s
        return "%.*e" % (q, v)
    if style in ("D", "d"):  # Fortran double precision
        return ("%.*e" % (q, v)).replace("e", style)
    if style == "short":  # Fortran reads an exponent without letter
        m, _, e = ("%.*e" % (q, v)).partition("e")
        return m + e[0] + (e[1:].lstrip("0") or "0")
    if style == "noexp":  # Fortran drops the exponent letter for 3 digits
        s = "%.*e" % (q, v)
        m, _, e = s.partition("e")
        if len(e) == 4:
            return m + e
        if v != 0.0:
            return m + e[0] + "0" + e[1:]
        return s
    raise ValueError(style)


def render_record(rec, rng, style, just):
    out = ""
    for f in rec:
        if f.v is None or f.kind == "x":
            t = " " * f.w
        elif f.kind == "s":
            t = str(f.v)[:f.w].ljust(f.w)
        elif f.kind == "r":
            t = f.v.rjust(f.w)
        elif f.kind == "i":
            t = str(int(f.v)).rjust(f.w)
        else:
            st = rng.choice(["e", "E", "fixed", "noexp", "D", "d", "short"]) if style == "mix" else style
            t = fmt_float(f.v, f.w, f.p, st)
            if len(t) > f.w:
                t = fmt_float(f.v, f.w, f.p, "e")
            t = t.ljust(f.w) if just == "left" else t.rjust(f.w)
        assert len(t) == f.w, (t, f)
        out += t
    return out


# ---------------------------------------------------------------------------
# Canonical parameter form
# ---------------------------------------------------------------------------
def _q(v, w, p):
    return None if v is None else Q(v, w, p)


def _qs(vs, w, p):
    return [_q(v, w, p) for v in prune(list(vs))]


def _model(m, w=10, p=3):
    return {"id": int(m["id"]), "parameters": _qs(m["parameters"], w, p)}


def _nn(v):
    return [] if v is None else list(v)


def _drop(d):
    return {k: v for k, v in d.items() if v is not None}


def _int(v):
    return None if v is None else int(v)


def effective(P, blocks=None):
    """What reading a deck holding P must give, in canonical form."""
    B = blocks if blocks is not None else deck_blocks(P)
    C = {}
    default = P.get("default") or {}
    if "TITLE" in B:
        t = P.get("title", "")
        C["title"] = [x.strip() for x in ([t] if isinstance(t, str) else t)]
    names = rock_names(P) if "ROCKS" in B else []
    if "ROCKS" in B:
        C["rocks"] = OrderedDict()
        for n in names:
            rock = P["rocks"][n]
            d = {}
            for k in ROCK1 + ROCK2:
                v = rock_prop(P, n, k)
                if k == "permeability":
                    if v is not None and any(x is not None for x in per3(v)):
                        # (equal values may be spelled with different digits by others)
                        d["isotropic"] = False if len(set(per3(v))) > 1 else True if blocks is not None else ANY
                    v = None if v is None or all(x is None for x in per3(v)) else [_q(x, 10, 4) for x in per3(v)]
                else:
                    v = _q(v, 10, 4)
                d[k] = v
            for k in ("relative_permeability", "capillarity"):
                if rock.get(k) and rock[k]["id"] is not None:
                    d[k] = _model(rock[k])
            if "FLAC" in B:
                for k in ("permeability_model", "equivalent_pore_pressure"):
                    d[k] = _model(rock_model(P, n, k))
            if "INDOM" in B and rock.get("initial_condition") is not None:
                v = _qs(rock["initial_condition"], 20, 13)
                if v:
                    d["initial_condition"] = v
            C["rocks"][n] = _drop(d)
    if "RPCAP" in B or "PARAM" in B:
        d = {}
        if "RPCAP" in B:
            for k in ("relative_permeability", "capillarity"):
                if default.get(k) and default[k]["id"] is not None:
                    d[k] = _model(default[k])
        v = _qs(_nn(default.get("initial_condition")), 20, 13)
        if v:
            d["initial_condition"] = v
        C["default"] = d
    if "FLAC" in B:
        f = P["flac"]
        C["flac"] = _drop({"creep": bool(f.get("creep", False)), "porosity_model": _int(f.get("porosity_model")),
                           "version": _int(f.get("version"))})
    if "MULTI" in B:
        m = [f.v for f in B["MULTI"][0]]
        C["multi"] = {"n_component": m[0], "isothermal": m[0] == m[1], "n_phase": m[2], "n_component_mass": _int(m[4])}
    if "SOLVR" in B:
        m = [f.v for f in B["SOLVR"][0]]
        C["solver"] = _drop({"method": _int(m[0]), "z_precond": m[2], "o_precond": m[4], "rel_iter_max": _q(m[5], 10, 4),
                             "eps": _q(m[6], 10, 4)})
    C["start"] = "START" in B
    C["nover"] = "NOVER" in B
    if "PARAM" in B:
        o = P.get("options") or {}
        d = {}
        for k in ("n_iteration", "verbosity", "n_cycle", "n_second", "n_cycle_print"):
            d[k] = _int(o.get(k))
        for k in ("temperature_dependence_gas", "effective_strength_vapor", "t_ini", "t_max", "t_step_max", "gravity",
                  "t_reduce_factor", "mesh_scale_factor", "eps1", "eps2", "w_upstream", "w_newton", "derivative_factor"):
            d[k] = _q(o.get(k), 10, 4)
        ts = o.get("t_steps")
        ts = [] if ts is None else (list(ts) if _is_seq(ts) else [ts])
        d["t_steps"] = [_q(x, 10, 4) for x in ts] or None
        C["options"] = _drop(d)
        C["extra_options"] = {k: int(v) for k, v in (P.get("extra_options") or {}).items() if v is not None}
    if "SELEC" in B:
        ints = {i: f.v for i, f in zip(range(1, 17), B["SELEC"][0])}
        C["selections"] = {"integers": {k: int(v) for k, v in ints.items() if v is not None},
                           "floats": [_qs([f.v for f in r], 10, 3) for r in B["SELEC"][1:]]}
        if len(B["SELEC"]) > 1:
            C["selections"]["table"] = len(B["SELEC"]) > 2
    if "MOMOP" in B:
        C["more_options"] = {k: int(v) for k, v in P["more_options"].items() if v is not None}
    if "TIMES" in B:
        t = P["times"]
        C["times"] = [_q(x, 10, 4) for x in (list(t) if np.ndim(t) else [t])]
    for key, blk in (("element_history", "FOFT"), ("connection_history", "COFT"), ("generator_history", "GOFT")):
        if blk in B:
            C[key] = [str(x) for x in P[key]]
    if "GENER" in B:
        C["generators"] = OrderedDict()
        for label, g in gener_components(P):
            C["generators"].setdefault(label, []).append(canon_gener(g, q=True))
    if "DIFFU" in B:
        C["diffusion"] = [_qs(r, 10, 3) for r in P["diffusion"]]
    if "OUTPU" in B:
        o = P["output"]
        C["output"] = {"format": o["format"].lower() if o.get("format") else None,
                       "variables": [(k.lower(), [_int(x) for x in prune(v)]) for k, v in output_rows(o.get("variables") or {})]}
        C["output"]["variables"] = _group_rows(C["output"]["variables"])
        C["output"]["forms"] = {k: "table" if len(v) > 1 else ("none", "scalar", "list")[min(len(v[0]), 2)] for k, v in C["output"]["variables"].items()}
    if "ELEME" in B:
        C["elements"] = OrderedDict()
        for k in ordered(P, "elements"):
            e = P["elements"][k]
            c = e.get("center")
            w = (20, 13) if "COORD" in B else (10, 3)
            m = e.get("material", "")
            C["elements"][k] = _drop({
                "nseq": _int(e.get("nseq")), "nadd": _int(e.get("nadd")),
                "material": int(m) if isinstance(m, (int, np.integer)) else m,
                "volume": _q(e.get("volume"), 10, 4), "heat_exchange_area": _q(e.get("heat_exchange_area"), 10, 4),
                "permeability_modifier": _q(e.get("permeability_modifier"), 10, 4),
                "center": None if c is None else [_q(x, *w) for x in c]})
        C["coordinates"] = "COORD" in B
    if "CONNE" in B:
        C["connections"] = OrderedDict()
        for k in ordered(P, "connections"):
            c = P["connections"][k]
            nd = c.get("nodal_distances")
            na = c.get("nadd")
            C["connections"][k] = _drop({
                "nseq": _int(c.get("nseq")), "nadd": None if na is None else [_int(x) for x in na],
                "permeability_direction": _int(c.get("permeability_direction")),
                "nodal_distances": None if nd is None else [_q(x, 10, 4) for x in nd],
                "interface_area": _q(c.get("interface_area"), 10, 4),
                "gravity_cosine_angle": _q(c.get("gravity_cosine_angle"), 10, 3),
                "radiant_emittance_factor": _q(c.get("radiant_emittance_factor"), 10, 3)})
    if "INCON" in B:
        C["initial_conditions"] = OrderedDict()
        for k in ordered(P, "initial_conditions"):
            c = P["initial_conditions"][k]
            ux = _qs(c.get("userx") if c.get("userx") is not None else [], 10, 3)
            C["initial_conditions"][k] = _drop({
                "porosity": _q(c.get("porosity"), 15, 9), "userx": ux or None,
                "values": _qs(c.get("values") if c.get("values") is not None else [], 20, 13)})
    return C


def _group_rows(rows):
    out = OrderedDict()
    for k, v in rows:
        out.setdefault(k, []).append(v)
    return dict(out)


def canon_gener(g, q):
    num = (lambda x, w, p: _q(x, w, p)) if q else (lambda x, w, p: x)
    d = {"name": g.get("name"), "nseq": _int(g.get("nseq")), "nadd": _int(g.get("nadd")), "nads": _int(g.get("nads")),
         "type": g.get("type"), "layer_thickness": num(g.get("layer_thickness"), 10, 3)}
    if _is_seq(g.get("times")):
        d["times"] = [num(x, 14, 7) for x in g["times"]]
        d["rates"] = [num(x, 14, 7) for x in g["rates"]]
        h = g.get("specific_enthalpy")
        if h is not None:
            h = list(h) if _is_seq(h) else [h] * len(d["times"])
            d["specific_enthalpy"] = [num(x, 14, 7) for x in h]
    else:
        d["rates"] = num(g.get("rates"), 10, 3)
        d["specific_enthalpy"] = num(g.get("specific_enthalpy"), 10, 3)
    return _drop(d)


def canonical_read(R):
    """Canonical form of a dictionary returned by the reader."""
    C = {}
    if "title" in R:
        C["title"] = [x.strip() for x in ([R["title"]] if isinstance(R["title"], str) else R["title"])]
    if "rocks" in R:
        C["rocks"] = OrderedDict()
        order = R["rocks_order"]
        if sorted(order) != sorted(R["rocks"]) or len(order) != len(set(order)):
            return {"malformed": "rocks_order %r does not list rocks %r" % (order, list(R["rocks"]))}
        for n in order:
            d = dict(R["rocks"][n])
            if "permeability" in d:
                d["permeability"] = list(per3(d["permeability"]))
                if all(x is None for x in d["permeability"]):
                    del d["permeability"]
                else:
                    d["isotropic"] = not _is_seq(R["rocks"][n]["permeability"])
            for k in ("relative_permeability", "capillarity", "permeability_model", "equivalent_pore_pressure"):
                if k in d:
                    d[k] = {"id": d[k]["id"], "parameters": list(d[k]["parameters"])}
            if "initial_condition" in d:
                d["initial_condition"] = list(d["initial_condition"])
            C["rocks"][n] = _drop(d)
    if "default" in R:
        d = dict(R["default"])
        for k in ("relative_permeability", "capillarity"):
            if k in d:
                d[k] = {"id": d[k]["id"], "parameters": list(d[k]["parameters"])}
        if "initial_condition" in d:
            d["initial_condition"] = list(d["initial_condition"])
        C["default"] = d
    if "flac" in R:
        C["flac"] = _drop({k: v for k, v in R["flac"].items()})
    if "n_component" in R or "n_phase" in R:
        C["multi"] = {k: R.get(k) for k in ("n_component", "isothermal", "n_phase", "n_component_mass")}
    if "solver" in R:
        C["solver"] = _drop(R["solver"])
    C["start"] = bool(R.get("start", False))
    C["nover"] = bool(R.get("nover", False))
    if "options" in R:
        d = _drop(R["options"])
        if "t_steps" in d:
            t = d["t_steps"]
            d["t_steps"] = list(t) if _is_seq(t) else [t]
            if not d["t_steps"]:
                del d["t_steps"]
        C["options"] = d
        C["extra_options"] = dict(R.get("extra_options") or {})
    if "selections" in R:
        s = R["selections"]
        fl = s.get("floats")
        if fl is None or not len(fl):
            rows = []
        elif _is_seq(fl[0]):
            rows = [list(r) for r in fl]
        else:
            rows = [list(fl)]
        C["selections"] = {"integers": _drop(s.get("integers") or {}), "floats": rows}
        if rows:
            C["selections"]["table"] = _is_seq(fl[0])
    if "more_options" in R:
        C["more_options"] = _drop(R["more_options"])
    if "times" in R:
        t = R["times"]
        C["times"] = list(t) if np.ndim(t) else [t]
    for key in ("element_history", "connection_history", "generator_history"):
        if key in R:
            C[key] = list(R[key])
    if "generators" in R:
        C["generators"] = OrderedDict()
        for label, g in R["generators"].items():
            comps = gener_components({"generators": {label: g}})
            C["generators"][label] = [canon_gener(c, q=False) for _, c in comps]
    if "diffusion" in R:
        C["diffusion"] = [list(r) for r in R["diffusion"]]
    if "output" in R:
        o = R["output"]
        C["output"] = {"format": o["format"].lower() if o.get("format") else None, "variables": {}}
        for k, v in (o.get("variables") or {}).items():
            rows = output_rows({k: v})
            C["output"]["variables"][k] = [[_int(x) for x in ([] if v is None else r)] for _, r in rows]
        C["output"]["forms"] = {k: "none" if v is None else "scalar" if np.ndim(v) == 0 else "table" if any(_is_seq(x) for x in v) else "list"
                                for k, v in (o.get("variables") or {}).items()}
    if "elements" in R:
        C["elements"] = OrderedDict()
        order = R["elements_order"]
        if sorted(order) != sorted(R["elements"]):
            return {"malformed": "elements_order does not list the elements"}
        for k in order:
            d = dict(R["elements"][k])
            d.setdefault("material", "")
            c = d.get("center")
            if c is not None and all(x is None for x in c):
                d["center"] = None
            elif c is not None:
                d["center"] = list(c)
            C["elements"][k] = _drop(d)
        C["coordinates"] = bool(R.get("coordinates", False))
    if "connections" in R:
        C["connections"] = OrderedDict()
        order = R["connections_order"]
        if sorted(order) != sorted(R["connections"]):
            return {"malformed": "connections_order does not list the connections"}
        for k in order:
            d = dict(R["connections"][k])
            for kk in ("nadd", "nodal_distances"):
                c = d.get(kk)
                if c is not None and all(x is None for x in c):
                    d[kk] = None
                elif c is not None:
                    d[kk] = list(c)
            C["connections"][k] = _drop(d)
    if "initial_conditions" in R:
        C["initial_conditions"] = OrderedDict()
        order = R["initial_conditions_order"]
        if sorted(order) != sorted(R["initial_conditions"]):
            return {"malformed": "initial_conditions_order does not list the initial conditions"}
        for k in order:
            d = dict(R["initial_conditions"][k])
            if d.get("userx") is not None:
                d["userx"] = list(d["userx"]) or None
            d["values"] = list(_nn(d.get("values")) or [])
            C["initial_conditions"][k] = _drop(d)
    return C


def render(P, rng, style="mix", strip=True, just="mix", headers="mix", shuffle=True, start_at=None, nad0=True,
           noise=True):
    """Render the deck of P in a legal style; returns text.

    Everything that varies here is free in the TOUGH deck format: where numbers
    sit in their field and how they are spelled, trailing blanks, what follows
    the keyword on header lines, the order of blocks, blank lines between blocks.
    """
    B = deck_blocks(P)
    keys = [k for k in B if k not in ("TITLE", "ENDCY", "ROCKS")]
    if shuffle:
        rng.shuffle(keys)
        if "COORD" in keys:  # COORD refers to the preceding ELEME
            keys.remove("COORD")
            i = keys.index("ELEME")
            keys.insert(rng.randint(i + 1, len(keys)), "COORD")
    out = []
    if "TITLE" in B:
        out += [r[0].v for r in B["TITLE"]]
    first = 0
    if shuffle and "ROCKS" in B and rng.random() < 0.3:  # INDOM and FLAC refer to the preceding ROCKS
        first = rng.randint(0, min([i for i, k in enumerate(keys) if k in ("INDOM", "FLAC", "COORD")] + [len(keys)]))
    order = keys[:first] + (["ROCKS"] if "ROCKS" in B else []) + keys[first:] + (["ENDCY"] if "ENDCY" in B else [])
    ruler = "----1----*----2----*----3----*----4----*----5----*----6----*----7----*----8"
    for k in order:
        h = rng.choice(["ruler", "bare", "blank", "text"]) if headers == "mix" else headers
        if k in ("INCON", "GENER", "ELEME") and h == "text":
            h = "sim"
        if k == order[0] and k != "ROCKS" and "ROCKS" in order and h in ("text", "sim"):
            h = "ruler"
        out.append({"ruler": k.ljust(5) + ruler, "bare": k, "blank": k.ljust(80), "text": k.ljust(5) + " block",
                    "sim": k + " -- DATA FOR    5 ELEMENTS AT TIME  0.1000E+05"}[h])
        recs = B[k]
        if recs is None:
            if rng.random() < 0.5:
                out.append("----*----1----*-MOP: 123456789*123456789*1234----*----5----*----6----*----7----*----8")
            continue
        for rec in recs:
            if rec is None:
                if k in ("INCON", "CONNE") and noise and rng.random() < 0.3:
                    out.append("+++")
                    if k == "CONNE":
                        out.append("    1    2    2    3")
                    else:
                        out.append("   12   34    5 0.00000000E+00 0.10000000E+05")
                    out.append("")
                else:
                    out.append(" " * 80 if rng.random() < 0.3 else "")
                continue
            j = rng.choice(["left", "right"]) if just == "mix" else just
            line = render_record(rec, rng, style, j)
            if k == "ROCKS" and nad0 and len(rec) == 9 and rec[0].kind == "s" and rec[1].v is None and rng.random() < 0.3:
                line = line[:9] + "0" + line[10:]
            if strip is True or (strip == "mix" and rng.random() < 0.5):
                line = line.rstrip()
            else:
                line = line.ljust(80)
            out.append(line)
        if k == "DIFFU" or (k in ("NOVER", "SOLVR", "TIMES", "RPCAP", "MULTI", "MOMOP", "SELEC") and noise and rng.random() < 0.2):
            if rng.random() < 0.5:
                out.append("")
        if k in ("FOFT", "COFT", "GOFT", "ELEME", "COORD") and noise and rng.random() < 0.1:
            out.append("")
    if "ENDCY" in B and noise and rng.random() < 0.15:  # the same without a simulation of flow
        i = max(j for j, line in enumerate(out) if line.startswith("ENDCY"))
        out[i] = "ENDFI" + out[i][5:]
    if "ENDCY" in B and noise and rng.random() < 0.3:
        out += ["", "anything after ENDCY", "ROCKS is not a block here", "PARAM"]
    return "\n".join(out) + ("\n" if rng.random() < 0.8 or "ENDCY" not in B else "")
