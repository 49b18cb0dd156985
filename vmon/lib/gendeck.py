"""Seeded generator of valid parameter dictionaries (every block, boundary-rich)."""
import numpy as np

ALNUM = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIG = "0123456789"


def num(rng, lo=-6, hi=9, sign=0.0, ints=True, wild=True):
    """A number of a random kind and magnitude."""
    k = rng.random()
    if k < 0.08:
        v = 0.0
    elif k < 0.2 and ints:
        v = rng.randint(0, 10 ** rng.randint(1, 6))
    elif k < 0.27 and wild:
        v = rng.uniform(1, 10) * 10.0 ** rng.choice([-99, -100, -150, 98, 99, 100, 120])
    elif k < 0.35:
        v = 9.99995 * 10.0 ** rng.randint(lo, hi)
    else:
        v = rng.uniform(1, 10) * 10.0 ** rng.randint(lo, hi)
    if rng.random() < sign:
        v = -v
    k = rng.random()
    if k < 0.12:
        v = np.float64(v)
    elif k < 0.16 and abs(v) < 1e30 and (v == 0 or abs(v) > 1e-30):
        v = np.float32(v)
    elif k < 0.2 and isinstance(v, int):
        v = rng.choice([np.int32, np.int64])(v)
    return v


def intg(rng, width, neg=True):
    hi = 10 ** min(width, 5) - 1
    v = rng.choice([0, 1, 2, hi, rng.randint(0, hi)])
    if neg and width > 1 and rng.random() < 0.2:
        v = -rng.randint(1, 10 ** (min(width, 5) - 1) - 1)
    if rng.random() < 0.15:
        v = rng.choice([np.int32, np.int64])(v)
    return v


def maybe(rng, p, f):
    return f() if rng.random() < p else None


def arr(rng, v, allow_np=True):
    """List, tuple or array with the same contents."""
    k = rng.random()
    if k < 0.2:
        return tuple(v)
    if k < 0.4 and allow_np and all(x is not None for x in v) and len(v):
        return np.array(v, dtype=float)
    return list(v)


def holes(rng, n, f, p=0.15):
    return [None if rng.random() < p else f() for _ in range(n)]


def rock_name(rng, used):
    while True:
        n = rng.randint(1, 5)
        s = rng.choice(ALNUM) + "".join(rng.choice(ALNUM + "abcxyz" + DIG + "_-") for _ in range(n - 1))
        if rng.random() < 0.04:
            s = rng.choice(["inf", "nan", "INF", "NaN", "1e5", "2D3", "3-2", "0x1"])  # names that look like numbers
        if s not in used and not s.lower().startswith(("seed", "refco")):
            used.add(s)
            return s


def label(rng, n, used):
    while True:
        s = "".join(rng.choice(ALNUM) for _ in range(1)) + "".join(rng.choice(ALNUM + DIG) for _ in range(2)) + \
            "".join(rng.choice(DIG) for _ in range(n - 3))
        if n == 5 and rng.random() < 0.1:
            s = s[:3] + " " + s[4]  # numbers below ten as TOUGH itself prints them
        if s not in used and not s.lower().startswith(("inf", "nan")):
            used.add(s)
            return s


def gen_model(rng, maxid=12, nmax=7, sign=0.2):
    n = rng.choice([0, 1, 2, 4, nmax, rng.randint(0, nmax)])
    return {"id": rng.randint(1, maxid), "parameters": arr(rng, holes(rng, n, lambda: num(rng, sign=sign)))}


def gen_rock(rng, flac, ic):
    d = {}
    for k in ("density", "porosity", "conductivity", "specific_heat"):
        if rng.random() < 0.8:
            d[k] = maybe(rng, 0.9, lambda: num(rng, sign=0.15))
    if rng.random() < 0.8:
        k = rng.random()
        if k < 0.4:
            d["permeability"] = num(rng, -20, -10, sign=0.1)
        elif k < 0.9:
            # no negative zero, which would equal the others (+ 0.0)
            d["permeability"] = arr(rng, [num(rng, -20, -10, sign=0.1) + 0.0 for _ in range(3)])
        else:
            v = num(rng, -20, -10)
            d["permeability"] = [v, v, v]
    if rng.random() < 0.5:
        for k in ("compressibility", "expansivity", "conductivity_dry", "tortuosity", "klinkenberg_parameter",
                  "distribution_coefficient_3", "distribution_coefficient_4"):
            if rng.random() < 0.35:
                d[k] = maybe(rng, 0.9, lambda: num(rng, sign=0.2))
    if rng.random() < 0.35:
        d["relative_permeability"] = gen_model(rng)
    if rng.random() < 0.35:
        d["capillarity"] = gen_model(rng)
    if flac:
        if rng.random() < 0.6:
            d["permeability_model"] = gen_model(rng)
        if rng.random() < 0.6:
            d["equivalent_pore_pressure"] = gen_model(rng)
    if ic and rng.random() < 0.7:
        ic = rng.choice(NVAR) if rng.random() < 0.1 else ic
        d["initial_condition"] = gen_ic(rng, ic) if rng.random() > 0.06 else [None] * rng.choice([0, 1, ic])
    return d


NVAR = [1, 2, 3, 4, 4, 5, 6, 8] * 3 + [7, 9, 12, 13]


def gen_ic(rng, n):
    """n values, every four of them hold at least one value."""
    v = holes(rng, n, lambda: num(rng, sign=0.2), 0.1)
    if all(x is None for x in v[:4]):
        v[0] = 1.0e5
    for i in range(4, n, 4):
        if all(x is None for x in v[i:i + 4]):
            v[i] = 1.0
    if n <= 4 and rng.random() < 0.2:
        v = v + [None] * (4 - n)
    return arr(rng, v)


def gen_generators(rng, nlab, p_int=0.3, big=False):
    out = {}
    used = set()
    for _ in range(rng.choice([1, 1, 2, 3, 5]) if not big else rng.choice([2, 45] if big == 1 else [120, 1100])):
        lab = label(rng, nlab, used)
        ncomp = rng.choice([0, 0, 1, 2, 3])

        def one():
            g = {"type": rng.choice(["COM1", "COM2", "HEAT", "MASS", "WATE", "DELV", "AIR", "COM"])}
            g["name"] = maybe(rng, 0.6, lambda: rng.choice(ALNUM) + "".join(rng.choice(ALNUM + DIG) for _ in range(rng.randint(0, 4))))
            for k, w in (("nseq", 3), ("nadd", 3), ("nads", 3)):
                g[k] = maybe(rng, p_int, lambda: intg(rng, w, neg=False))
            k = rng.random()
            if k < 0.5:
                n = rng.choice([2, 3, 4, 5, 7, 8, 9, 16, 17]) if not big or rng.random() < 0.9 else rng.choice([41, 305] if big == 1 else [41, 1201])
                g["times"] = arr(rng, sorted(float(num(rng, 0, 9, wild=False)) for _ in range(n)))
                g["rates"] = arr(rng, [num(rng, sign=0.4, wild=False) for _ in range(n)])
                h = rng.random()
                if h < 0.4:
                    g["specific_enthalpy"] = arr(rng, [num(rng, 3, 6) for _ in range(n)])
                else:
                    g["specific_enthalpy"] = None
            else:
                g["times"] = None
                g["rates"] = maybe(rng, 0.9, lambda: num(rng, sign=0.4))
                g["specific_enthalpy"] = maybe(rng, 0.5, lambda: num(rng, 3, 6))
            g["layer_thickness"] = maybe(rng, 0.3, lambda: num(rng, 0, 3))
            return g

        if ncomp == 0:
            g = one()
            g = {k: v for k, v in g.items() if v is not None or rng.random() < 0.3}
        else:
            comps = [one() for _ in range(ncomp)]
            g = {}
            for k in comps[0]:
                v = [c[k] for c in comps]
                if k != "type" and all(x is None for x in v) and rng.random() < 0.8:
                    continue
                g[k] = v if rng.random() < 0.7 else tuple(v)
        out[lab] = g
    return out


def gen_elements(rng, nlab, rocks, n=None, center=True, used=None):
    used = set() if used is None else used
    n = rng.choice([1, 2, 3, 6, 12]) if n is None else n
    w = {5: (5, 5), 6: (5, 4), 7: (4, 4), 8: (4, 3), 9: (3, 3)}[nlab]
    out = {}
    for _ in range(n):
        e = {}
        # a sequence number filling its whole field would make the label length
        # of the record ambiguous, as it would for the simulator's user
        e["nseq"] = maybe(rng, 0.2, lambda: intg(rng, w[0] - 1, neg=False))
        e["nadd"] = maybe(rng, 0.2, lambda: intg(rng, w[1] - 1, neg=False))
        k = rng.random()
        if k < 0.6 and rocks:
            e["material"] = rng.choice(rocks)
        elif k < 0.75:
            e["material"] = rng.choice([1, 2, 12, 99999, np.int64(3), np.int32(27)])
        elif k < 0.85:
            e["material"] = ""
        else:
            e["material"] = rock_name(rng, set())
        if e["material"] == "" and rng.random() < 0.5:
            del e["material"]
        e["volume"] = maybe(rng, 0.95, lambda: num(rng, -3, 12, sign=0.1))
        e["heat_exchange_area"] = maybe(rng, 0.3, lambda: num(rng, -2, 6, sign=0.3))
        e["permeability_modifier"] = maybe(rng, 0.3, lambda: num(rng, -4, 3, sign=0.3))
        if center or rng.random() < 0.6:
            e["center"] = arr(rng, [num(rng, -2, 5, sign=0.5) for _ in range(3)])
        e = {k: v for k, v in e.items() if v is not None or rng.random() < 0.3}
        out[label(rng, nlab, used)] = e
    return out


def gen_connections(rng, labels, nlab, big=False):
    w = {5: (5, 5), 6: (5, 4), 7: (5, 3), 8: (3, 3), 9: (3, 2)}[nlab]
    out = {}
    n = rng.choice([1, 2, 5, 10]) if not big else rng.choice([13, 330] if big == 1 else [1030, 2500])
    for _ in range(n):
        a, b = rng.choice(labels), rng.choice(labels)
        c = {}
        c["nseq"] = maybe(rng, 0.2, lambda: intg(rng, w[0], neg=False))
        if rng.random() < 0.2:
            c["nadd"] = arr(rng, [intg(rng, w[1], neg=False), intg(rng, w[1], neg=False)], allow_np=False)
        c["permeability_direction"] = maybe(rng, 0.9, lambda: rng.choice([1, 2, 3, -1, -2, -3, np.int64(2)]))
        if rng.random() < 0.9:
            c["nodal_distances"] = arr(rng, [num(rng, -9, 5, sign=0.05), num(rng, -9, 5)])
        c["interface_area"] = maybe(rng, 0.95, lambda: num(rng, -4, 8, sign=0.05))
        c["gravity_cosine_angle"] = maybe(rng, 0.6, lambda: rng.choice([1.0, -1.0, 0.0, rng.uniform(-1, 1)]))
        c["radiant_emittance_factor"] = maybe(rng, 0.2, lambda: rng.uniform(0, 1) * rng.choice([1, -1]))
        c = {k: v for k, v in c.items() if v is not None or rng.random() < 0.3}
        out[a + b] = c
    return out


def gen_incons(rng, labels):
    n = rng.choice(NVAR)
    mixed = rng.random() < 0.1
    out = {}
    for lab in labels:
        c = {}
        n = rng.choice(NVAR) if mixed else n
        c["porosity"] = maybe(rng, 0.6, lambda: num(rng, -6, 0, sign=0.1))
        if rng.random() < 0.4:
            m = rng.randint(0, 5)
            c["userx"] = arr(rng, holes(rng, m, lambda: num(rng, sign=0.3)))
        c["values"] = gen_ic(rng, n)
        if rng.random() < 0.05 and (n <= 4 or mixed):
            del c["values"]
        c = {k: v for k, v in c.items() if v is not None or rng.random() < 0.3}
        out[lab] = c
    return out


TITLES = ["", "Sample run", "*SAM1* sample problem - radial flow", "MULTIPHASE FLOW BENCHMARK", "PARAMETRIC STUDY 3",
          "TIMES OF ARRIVAL, CASE B", "STARTING POINT 1", "   indented title", "ENDCYCLE TEST", "x" * 80,
          "COORDINATED RUN", "FLACCID 1", "SOLVRent 2", "SELECTED CASES 8", "OUTPUT OF A"]


def gen_params(rng, only=None, big=False):
    """A valid parameter dictionary; ``only`` restricts the optional blocks, ``big`` is 1 (hundreds of entries) or 2 (thousands)."""
    P = {}

    def on(block, p):
        return rng.random() < p if only is None else block in only

    nlab = rng.choice([5, 5, 6, 7, 8, 9])
    used = set()
    k = rng.random()
    if k < 0.5:
        P["title"] = rng.choice(TITLES)
    elif k < 0.9:
        P["title"] = [rng.choice(TITLES) for _ in range(rng.randint(1, 4))]

    flac = on("FLAC", 0.35)
    ic = rng.choice(NVAR) if on("INDOM", 0.35) else 0
    rocks = [rock_name(rng, used) for _ in range(rng.choice([0, 1, 2, 3, 5] if only is None else [1, 2, 3]) if not big else rng.choice([13, 45] if big == 1 else [101, 260]))]
    P["rocks"] = {r: gen_rock(rng, flac, ic) for r in rocks}
    if rng.random() < 0.3:
        o = list(rocks)
        rng.shuffle(o)
        if rng.random() < 0.3 and o:
            o = o[:rng.randint(1, len(o))]
        P["rocks_order"] = rng.choice([list, list, tuple, np.array])(o)
    if rng.random() < 0.6:
        d = {}
        if rng.random() < 0.7:
            d = gen_rock(rng, flac, 0)
        if not on("RPCAP", 0.6):
            d.pop("relative_permeability", None)
            d.pop("capillarity", None)
        if rng.random() < 0.6:
            d["initial_condition"] = gen_ic(rng, rng.choice(NVAR))
        P["default"] = d
    if flac:
        f = {}
        if rng.random() < 0.7:
            f["creep"] = rng.random() < 0.5
        if rng.random() < 0.7:
            f["porosity_model"] = rng.choice([0, 1, 2, np.int64(3)])
        if rng.random() < 0.7:
            f["version"] = rng.choice([3, 5, 6, 7, 12345])
        P["flac"] = f
    if on("MULTI", 0.6):
        if rng.random() < 0.6:
            P["eos"] = rng.choice(["eos1", "eos2", "eos3", "eos4", "eos5", "eos7", "eos8", "eos9", "eoswasg", "eco2n",
                                   "eco2n_v2", "eco2m"])
        if rng.random() < 0.6:
            P["n_component"] = rng.choice([1, 2, 3, 4, np.int64(3), 12])
            P["n_phase"] = rng.choice([1, 2, 3, np.int32(2)])
        if rng.random() < 0.5:
            P["isothermal"] = rng.random() < 0.6
        if rng.random() < 0.2:
            P["n_component_mass"] = rng.choice([1, 2, 9])
    if on("SOLVR", 0.5):
        s = {}
        if rng.random() < 0.7:
            s["method"] = rng.choice([1, 2, 3, 4, 5, 6, np.int64(3)])
        if rng.random() < 0.6:
            s["z_precond"] = rng.choice(["Z0", "Z1", "Z4"])
        if rng.random() < 0.6:
            s["o_precond"] = rng.choice(["O0", "O1", "O4"])
        if rng.random() < 0.6:
            s["rel_iter_max"] = rng.choice([0.1, 0.9, 1.0e-1, 1])
        if rng.random() < 0.6:
            s["eps"] = rng.choice([1e-6, 1.0e-7, 1.0e-10])
        P["solver"] = s
    if rng.random() < 0.4:
        P["start"] = rng.random() < 0.5
    if rng.random() < 0.4:
        P["nover"] = rng.random() < 0.5
    if on("PARAM", 0.8):
        o = {}
        for k, w in (("n_iteration", 2), ("n_cycle", 4), ("n_second", 4), ("n_cycle_print", 4), ("verbosity", 2)):
            if rng.random() < 0.5:
                o[k] = intg(rng, w)
        for k in ("temperature_dependence_gas", "effective_strength_vapor", "t_ini", "t_max", "t_step_max",
                  "t_reduce_factor", "gravity", "mesh_scale_factor", "eps1", "eps2", "w_upstream", "w_newton",
                  "derivative_factor"):
            if rng.random() < 0.5:
                o[k] = maybe(rng, 0.95, lambda: num(rng, sign=0.3))
        k = rng.random()
        if k < 0.2:
            o["t_steps"] = num(rng, sign=0.1)
        elif k < 0.7:
            n = rng.choice([1, 2, 7, 8, 9, 15, 16, 17, 24])
            o["t_steps"] = arr(rng, [num(rng, 0, 8) for _ in range(n)])
        elif k < 0.8:
            o["t_steps"] = None
        P["options"] = o
    if on("MOP", 0.6):
        P["extra_options"] = {i: rng.choice([0, 1, 5, 9, None, np.int64(4)]) for i in range(1, 25) if rng.random() < 0.4}
    if on("MOMOP", 0.4):
        P["more_options"] = {i: rng.choice([0, 1, 5, 9, None, np.int64(4)]) for i in range(1, 41) if rng.random() < 0.4}
    if on("SELEC", 0.4):
        s = {"integers": {i: rng.choice([None, intg(rng, 5)]) for i in range(2, 17) if rng.random() < 0.4}}
        k = rng.random()
        if k < 0.4:
            m = rng.choice([1, 2, 7, 8])
            v = holes(rng, m, lambda: num(rng, sign=0.3))
            v[0] = 1.5 if all(x is None for x in v) else v[0]
            s["floats"] = arr(rng, v)
        elif k < 0.8:
            rows = []
            for _ in range(rng.choice([1, 2, 3, 10])):
                m = rng.choice([1, 2, 7, 8])
                v = [num(rng, sign=0.3) for _ in range(m)]
                rows.append(v)
            s["floats"] = rows
        elif k < 0.9:
            s["floats"] = None
            s["integers"][rng.randint(2, 16)] = 3
        else:
            s["integers"][rng.randint(2, 16)] = 4
        if rng.random() < 0.1 and s.get("floats") is not None:
            s["integers"] = None
        elif rng.random() < 0.3 and s.get("floats") is not None:
            s["integers"][1] = rng.randint(1, 20)  # the number of records follows from the floats
        P["selections"] = s
    if on("TIMES", 0.5):
        k = rng.random()
        if k < 0.2:
            P["times"] = num(rng, 0, 9)
        else:
            n = rng.choice([1, 2, 7, 8, 9, 16, 17, 33]) if not big else rng.choice([41, 99, 305] if big == 1 else [1001, 2049])
            P["times"] = arr(rng, [num(rng, 0, 9, sign=0.05) for _ in range(n)])

    lused = set()
    need_el = on("ELEME", 0.5)
    center = rng.random() < 0.8
    coord = need_el and center and on("COORD", 0.5)
    elements = gen_elements(rng, nlab, rocks, n=rng.choice([13, 45, 320] if big == 1 else [1001, 1500]) if big else None, center=center, used=lused)
    labels = list(elements)
    if need_el:
        P["elements"] = elements
        if rng.random() < 0.3:
            o = list(labels)
            rng.shuffle(o)
            P["elements_order"] = rng.choice([list, tuple, np.array])(o)
        if coord or rng.random() < 0.3:
            P["coordinates"] = coord
    if on("CONNE", 0.5):
        P["connections"] = gen_connections(rng, labels, nlab, big)
        if rng.random() < 0.3:
            o = list(P["connections"])
            rng.shuffle(o)
            P["connections_order"] = rng.choice([list, tuple, np.array])(o)
    if on("INCON", 0.5):
        P["initial_conditions"] = gen_incons(rng, labels)
        if rng.random() < 0.3:
            o = list(labels)
            rng.shuffle(o)
            P["initial_conditions_order"] = rng.choice([list, tuple, np.array])(o)
    if on("GENER", 0.5):
        P["generators"] = gen_generators(rng, nlab, big=big)
    if on("FOFT", 0.3):
        P["element_history"] = arr(rng, [rng.choice(labels) for _ in range(rng.randint(1, 5) if not big else rng.choice([13, 45, 305] if big == 1 else [101, 1100]))], allow_np=False)
    if on("COFT", 0.3):
        P["connection_history"] = arr(rng, [rng.choice(labels) + rng.choice(labels) for _ in range(rng.randint(1, 5) if not big else rng.choice([13, 45, 305] if big == 1 else [101, 1100]))], allow_np=False)
    if on("GOFT", 0.3):
        P["generator_history"] = arr(rng, [rng.choice(labels) for _ in range(rng.randint(1, 4) if not big else rng.choice([13, 45, 305] if big == 1 else [101, 1100]))], allow_np=False)
    if on("DIFFU", 0.35):
        m = rng.choice([1, 2, 3, 8])
        rows = [[num(rng, -8, -3, sign=0.3) for _ in range(m)] for _ in range(rng.choice([1, 2, 3]))]
        P["diffusion"] = rng.choice([rows, tuple(rows), np.array(rows, dtype=float)])
    if on("OUTPU", 0.4):
        o = {}
        k = rng.random()
        if k < 0.5:
            o["format"] = rng.choice(["csv", "CSV", "tecplot", "petrasim"])
        if k > 0.25:
            v = {}
            for name in rng.sample(["pressure", "temperature", "saturation", "mass fraction", "flow", "velocity",
                                    "coordinate", "relative perm", "secondary", "index", "x"], rng.choice([1, 2, 4])):
                j = rng.random()
                if j < 0.3:
                    v[name] = rng.choice([None, 1, 2])
                elif j < 0.6:
                    v[name] = rng.choice([[1, 2], [3, -1], (2, 1)])
                else:
                    v[name] = [[rng.randint(-1, 3), rng.randint(1, 3)] for _ in range(rng.choice([1, 2, 3]))]
                    if rng.random() < 0.2:
                        v[name] = [[x[0]] for x in v[name]]
            o["variables"] = v
        P["output"] = o
    return P
