"""C07 - malformed parameters are refused before a file is touched; unknown keys are skipped with a warning."""
import copy
import logging

import numpy as np
import toughio

from vmon.lib import gendeck, tio

RULE = ("Case = valid seeded parameter dictionary with one value replaced by one of the wrong type / inconsistent length, or "
        "with unknown keys added, at a random depth, written over an existing file. Distinct = injected path kind x wrong type.")
ASSUMPTIONS = ["None always means undefined"]
SCALARS = {
    "rocks": ["density", "porosity", "conductivity", "specific_heat", "compressibility", "expansivity", "conductivity_dry",
              "tortuosity", "klinkenberg_parameter", "distribution_coefficient_3", "distribution_coefficient_4"],
    "options": ["temperature_dependence_gas", "effective_strength_vapor", "t_ini", "t_max", "t_step_max", "t_reduce_factor",
                "gravity", "mesh_scale_factor", "eps1", "eps2", "w_upstream", "w_newton", "derivative_factor"],
    "elements": ["volume", "heat_exchange_area", "permeability_modifier"],
    "connections": ["interface_area", "gravity_cosine_angle", "radiant_emittance_factor"],
    "initial_conditions": ["porosity"],
    "solver": ["rel_iter_max", "eps"],
}
INTS = {
    "options": ["n_iteration", "n_cycle", "n_second", "n_cycle_print", "verbosity"],
    "elements": ["nseq", "nadd"],
    "connections": ["nseq", "permeability_direction"],
    "solver": ["method"],
    "flac": ["porosity_model", "version"],
}
TOP = {
    "eos": "str", "n_component": "int", "n_phase": "int", "n_component_mass": "int", "isothermal": "bool", "start": "bool",
    "nover": "bool", "coordinates": "bool", "rocks_order": "array_like", "times": "scalar_array_like",
    "element_history": "array_like", "connection_history": "array_like", "generator_history": "array_like",
    "diffusion": "array_like", "elements_order": "array_like", "connections_order": "array_like",
    "initial_conditions_order": "array_like", "title": "str_array_like", "output": "dict", "elements": "dict",
    "connections": "dict", "initial_conditions": "dict", "generators": "dict", "selections": "dict", "solver": "dict",
    "options": "dict", "extra_options": "dict", "more_options": "dict", "flac": "dict",
}
# values that are not of the kind
WRONG = {
    "int": [1.5, "1", [1], {"a": 1}, np.float64(2.0), (1, 2)],
    "scalar": ["1.0", [1.0], {"a": 1}, (1.0,), np.array([1.0]), "abc"],
    "str": [1, 1.5, ["a"], {"a": "b"}],
    "bool": [2, "yes", 0.0, [True], {"a": True}],
    "dict": [[1], "abc", 3, (1, 2), np.array([1.0, 2.0])],
    "array_like": ["abc", 1, 2.5, {"a": 1}],
    "scalar_array_like": ["abc", {"a": 1}],
    "str_array_like": [1, 2.5, {"a": 1}],
    "str_int": [1.5, [1], {"a": 1}],
}
REACH = {"refused": 1500, "kept": 1000, "unknown_key": 300, "wrong:int": 30, "wrong:scalar": 30, "wrong:dict": 30,
         "wrong:array_like": 30, "wrong:bool": 30, "wrong:str": 20, "wrong:scalar_array_like": 20, "inconsistent": 100}
ALL = {"RPCAP", "FLAC", "MULTI", "SOLVR", "PARAM", "MOP", "SELEC", "INDOM", "MOMOP", "TIMES", "FOFT", "COFT", "GOFT", "GENER",
       "DIFFU", "OUTPU", "ELEME", "COORD", "CONNE", "INCON"}


def base(rng):
    P = gendeck.gen_params(rng, only=ALL)
    P["solver"] = P["solver"] or {"method": 3}
    P["solver"].setdefault("method", 4)
    P["selections"]["integers"] = P["selections"].get("integers") or {2: 1}
    P["options"] = P["options"] or {}
    P["extra_options"] = P["extra_options"] or {1: 2}
    P["more_options"] = P["more_options"] or {1: 2}
    P["flac"] = P["flac"] or {"version": 5}
    P["output"] = P["output"] or {"format": "csv"}
    P["default"] = P.get("default") or {}
    return P


def pick(rng, d):
    return d[rng.choice(list(d))]


def inject_type(rng, P):
    """Replace one value; return (path, kind)."""
    k = rng.choice(["top", "top", "scalar", "scalar", "int", "model", "rocks", "gener", "other", "momop"])
    if k == "top":
        key = rng.choice(list(TOP))
        kind = TOP[key]
        P[key] = copy.deepcopy(rng.choice(WRONG[kind]))
        return key, kind
    if k == "scalar":
        g = rng.choice(list(SCALARS))
        key = rng.choice(SCALARS[g])
        where = P[g] if g in ("options", "solver") else pick(rng, P[g])
        if g == "rocks" and rng.random() < 0.2:
            where = P["default"]
        where[key] = copy.deepcopy(rng.choice(WRONG["scalar"]))
        return g + "/" + key, "scalar"
    if k == "int":
        g = rng.choice(list(INTS))
        key = rng.choice(INTS[g])
        where = P[g] if g in ("options", "solver", "flac") else pick(rng, P[g])
        where[key] = copy.deepcopy(rng.choice(WRONG["int"]))
        return g + "/" + key, "int"
    if k == "model":
        m = rng.choice(["relative_permeability", "capillarity", "permeability_model", "equivalent_pore_pressure"])
        where = pick(rng, P["rocks"]) if rng.random() < 0.6 else P["default"]
        if rng.random() < 0.5:
            where[m] = {"id": rng.choice(WRONG["int"]), "parameters": [1.0]}
            return m + "/id", "int"
        where[m] = {"id": 1, "parameters": copy.deepcopy(rng.choice(WRONG["array_like"]))}
        return m + "/parameters", "array_like"
    if k == "rocks":
        where = pick(rng, P["rocks"])
        key, kind = rng.choice([("permeability", "scalar_array_like"), ("initial_condition", "array_like"),
                                ("relative_permeability", "dict"), ("capillarity", "dict"), ("permeability_model", "dict"),
                                ("equivalent_pore_pressure", "dict")])
        where[key] = copy.deepcopy(rng.choice([w for w in WRONG[kind] if key != "initial_condition" or not isinstance(w, dict)]))
        return "rocks/" + key, kind
    if k == "gener":
        where = pick(rng, P["generators"])
        key, kind = rng.choice([("name", "str_array_like"), ("nseq", "scalar_array_like"), ("nadd", "scalar_array_like"),
                                ("nads", "scalar_array_like"), ("type", "str_array_like"), ("times", "scalar_array_like"),
                                ("rates", "scalar_array_like"), ("specific_enthalpy", "scalar_array_like"),
                                ("layer_thickness", "scalar_array_like")])
        where[key] = copy.deepcopy(rng.choice(WRONG[kind]))
        return "generators/" + key, kind
    if k == "momop":
        g, n = rng.choice([("extra_options", 24), ("more_options", 40)])
        P[g][rng.randint(1, n)] = copy.deepcopy(rng.choice(WRONG["int"]))
        return g, "int"
    path, kind = rng.choice([("elements/material", "str_int"), ("elements/center", "array_like"),
                             ("connections/nadd", "array_like"), ("connections/nodal_distances", "array_like"),
                             ("initial_conditions/userx", "array_like"), ("initial_conditions/values", "array_like"),
                             ("selections/integers", "dict"), ("selections/floats", "array_like"), ("flac/creep", "bool"),
                             ("options/t_steps", "scalar_array_like"), ("solver/z_precond", "str"), ("solver/o_precond", "str"),
                             ("output/format", "str"), ("output/variables", "dict")])
    g, key = path.split("/")
    where = P[g] if g in ("selections", "flac", "options", "solver", "output") else pick(rng, P[g])
    where[key] = copy.deepcopy(rng.choice(WRONG[kind]))
    return path, kind


def inject_value(rng, P):
    """Break a consistency rule between values."""
    how = rng.choice(["eos", "gener-table", "gener-rates", "gener-components", "gener-notable", "gener-scalar", "floats",
                      "floats2", "permeability"])
    lab = next(iter(P["generators"]))
    if how == "eos":
        P["eos"] = rng.choice(["eos99", "EOS3x", "tmvoc?", "eco3n"])
    elif how == "gener-table":
        P["generators"][lab] = {"type": "MASS", "times": [0.0, 1.0, 2.0], "rates": [1.0] * rng.choice([1, 2, 4]),
                                "specific_enthalpy": rng.choice([None, [1.0] * 3])}
    elif how == "gener-rates":
        P["generators"][lab] = {"type": "MASS", "times": [0.0, 1.0, 2.0], "rates": [1.0] * 3,
                                "specific_enthalpy": [1.0] * rng.choice([1, 2, 4])}
    elif how == "gener-components":
        g = {"type": ["COM1", "COM2"], "rates": [1.0, 2.0]}
        g[rng.choice(["rates", "name", "specific_enthalpy", "nseq"])] = rng.choice([[1.0], [1.0, 2.0, 3.0]])
        P["generators"][lab] = g
    elif how == "gener-scalar":
        g = {"type": ["COM1", "COM2"], "rates": [1.0, 2.0]}
        g[rng.choice(["rates", "name", "specific_enthalpy", "nseq"])] = rng.choice([1.0, 3])
        P["generators"][lab] = g
    elif how == "gener-notable":
        P["generators"][lab] = {"type": "MASS", rng.choice(["rates", "specific_enthalpy"]): [1.0, 2.0]}
    elif how == "floats":
        P["selections"]["floats"] = [1.0] * rng.choice([9, 12])
    elif how == "floats2":
        P["selections"]["floats"] = [[1.0, 2.0], [1.0] * 9]
    elif how == "permeability":
        pick(rng, P["rocks"])["permeability"] = [1.0e-12] * rng.choice([1, 2, 4])
    return how


def refuse(case, P, tag):
    f = case.path("INFILE")
    before = "precious contents\n" * 3
    tio.write_text(f, before)
    snap = tio.snapshot(P)
    case.refused(tag, (TypeError, ValueError), toughio.write_input, f, P)
    case.check(tio.read_text(f) == before, "file-touched", "a refused write changed the existing file (%s)" % tag)
    case.count("kept")
    case.check(tio.snapshot(P) == snap, "argument-changed", "a refused write changed the parameters (%s)" % tag)


def wrong_type(case):
    logging.disable(logging.CRITICAL)
    P = base(case.rng)
    path, kind = inject_type(case.rng, P)
    case.count("wrong:%s" % kind)
    g = path
    for k in ("elements", "connections", "initial_conditions", "generators"):
        if path.startswith(k):
            g = k
    case.shape(path, kind)
    case.note = {"path": path, "kind": kind}
    refuse(case, P, g)


def wrong_value(case):
    logging.disable(logging.CRITICAL)
    P = base(case.rng)
    how = inject_value(case.rng, P)
    case.count("inconsistent")
    case.shape(how)
    refuse(case, P, how)


def unknown(case):
    """Unknown keys: a warning each, and the deck is the one without them."""
    logging.disable(logging.NOTSET)
    rng = case.rng
    P = base(rng)
    a, b = case.path("A"), case.path("B")
    logging.disable(logging.CRITICAL)
    case.call("write_input", toughio.write_input, a, P)
    logging.disable(logging.NOTSET)
    Q = copy.deepcopy(P)
    names = []
    for _ in range(rng.choice([1, 2, 3])):
        name = "zz_" + "".join(rng.choice("abcdef") for _ in range(6))
        val = rng.choice([1, "x", [1.0], {"a": 1}, None])
        g = rng.choice(["top", "rocks", "options", "solver", "flac", "elements", "connections", "initial_conditions",
                        "generators", "output", "selections", "model", "extra_options", "more_options"])
        if g in ("extra_options", "more_options"):
            n = 25 if g == "extra_options" else 41
            Q[g][n], name = 7, str(n)
            names.append((g, name))
            continue
        if g == "top":
            where = Q
        elif g in ("options", "solver", "flac", "output", "selections"):
            where = Q[g]
        elif g == "model":
            m = rng.choice(["relative_permeability", "capillarity"])
            r = pick(rng, Q["rocks"])
            if m not in r:
                continue
            where = r[m]
        else:
            where = pick(rng, Q[g])
        where[name] = val
        names.append((g, name))
    with tio.captured_logs() as rec:
        case.call("write_unknown", toughio.write_input, b, Q)
    msgs = [r.getMessage() for r in rec if r.levelno >= logging.WARNING]
    for g, n in names:
        case.check(any(n in m for m in msgs), "unknown-silent", "no warning names the unknown key %s of %s: %r" % (n, g, msgs[:5]))
        case.count("unknown_key")
        case.shape("unknown", g, len(names))
    case.check(tio.read_text(a) == tio.read_text(b), "unknown-written", "unknown keys %r changed the deck" % (names,))


BAD_CALLS = [
    ("write_input-filename", (TypeError,), lambda c: toughio.write_input(3, {})),
    ("write_input-params", (TypeError,), lambda c: toughio.write_input(c.path("f"), [1])),
    ("write_input-format", (ValueError,), lambda c: toughio.write_input(c.path("f"), {}, file_format="yaml")),
    ("write_input-block", (ValueError,), lambda c: toughio.write_input(c.path("f"), {}, block="rocks")),
    ("read_input-filename", (TypeError,), lambda c: toughio.read_input(3)),
    ("read_input-format", (ValueError,), lambda c: toughio.read_input(c.path("f"), file_format="yaml")),
    ("read_input-label", (TypeError,), lambda c: toughio.read_input(c.path("f"), label_length="5")),
    ("read_input-label4", (ValueError,), lambda c: toughio.read_input(c.path("f"), label_length=4)),
    ("read_input-label10", (ValueError,), lambda c: toughio.read_input(c.path("f"), label_length=10)),
    ("read_output-filename", (TypeError,), lambda c: toughio.read_output(3)),
    ("read_output-order", (TypeError,), lambda c: toughio.read_output(c.path("f"), labels_order="AAA10")),
    ("write_output-filename", (TypeError,), lambda c: toughio.write_output(3, [])),
    ("write_output-output", (TypeError,), lambda c: toughio.write_output(c.path("o.csv"), [1])),
    ("write_output-dict", (TypeError,), lambda c: toughio.write_output(c.path("o.csv"), {"a": 1})),
    ("read_history-filename", (TypeError,), lambda c: toughio.read_history(3)),
    ("read_mesh-filename", (TypeError,), lambda c: toughio.read_mesh(3)),
]


def bad_call(case):
    import os

    name, types, fn = BAD_CALLS[case.index % len(BAD_CALLS)]
    f = case.path("f")
    tio.write_text(f, "precious\n")
    case.refused(name, types, fn, case)
    case.check(tio.read_text(f) == "precious\n" and os.listdir(case.scratch) == ["f"], "file-touched", name)
    case.count("kept")
    case.shape(name)


SCALE = 3  # cases of the quick tier are this many times those listed
FAMILIES = {"wrong_type": (wrong_type, 3000, 40000), "wrong_value": (wrong_value, 400, 4000),
            "unknown": (unknown, 400, 6000), "bad_call": (bad_call, 16, 16)}
