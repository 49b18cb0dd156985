"""C18 - initial conditions of a mesh reach the INCON file, cell by cell."""
import logging
import os

import numpy as np
import toughio

from vmon import core
from vmon.lib import genmesh, meshfile, tio

RULE = ("Case = seeded mesh with initial conditions (1-8 variables, some undefined), porosity and permeability modifiers, exported "
        "alone or together with MESH; every record parsed by an independent fixed-column reader and compared cell by cell, then "
        "read back as initial conditions and as an output. Distinct = variables x cells x label length x optional columns x entry point.")
ASSUMPTIONS = ["an undefined value is -1e9 (as documented)", "defined values are between 1e-90 and 1e90 in magnitude and above -1e9, or zero",
               "for more than 4 variables, every cell defines at least one of those beyond the fourth"]
REACH = {"large": 18, "cells": 2000, "undefined": 200, "porosity": 50, "userx": 50, "with_mesh": 100, "alone": 100, "skipped": 20,
         "read_back": 150, "third_record": 50, "refused": 20, "negative_only": 20}
UNDEF = -1.0e9


def val(rng):
    k = rng.random()
    if k < 0.08:
        return 0.0
    x = rng.uniform(1, 10) * 10.0 ** rng.choice([rng.randint(-8, 8), rng.randint(-90, 89)])
    return -x if rng.random() < 0.25 and x < 9e8 else x


def write(case, m, how, cwd_only=False):
    d = case.subdir("out")
    f = os.path.join(d, "INCON")
    mesh = os.path.join(d, case.rng.choice(["MESH", "mymesh", "a.mesh"]))
    old = os.getcwd()
    rel = case.rng.random() < 0.3
    if rel:
        os.chdir(d)
    try:
        if how == "alone":
            f = os.path.join(d, case.rng.choice(["INCON", "ic.txt"]))
            case.call("write_incon", m.write_incon, os.path.basename(f) if rel else f)
        else:
            case.call("write_tough", m.write_tough, os.path.basename(mesh) if rel else mesh, incon=True)
    finally:
        os.chdir(old)
    return d, f, mesh


def one(case):
    logging.disable(logging.CRITICAL)
    rng = case.rng
    m, ref = genmesh.mesh(rng, dims=[rng.choice([1, 2, 3]), rng.choice([1, 2]), rng.choice([1, 2])] if rng.random() < 0.8 else None)
    n = len(ref["cells"])
    nv = rng.choice([1, 2, 3, 4, 4, 5, 6, 8] * 2 + [7, 9, 12, 13])
    style = rng.random()
    ic = np.array([[val(rng) for _ in range(nv)] for _ in range(n)])
    if style < 0.6:
        for i in range(n):
            for j in range(nv):
                if rng.random() < 0.2:
                    ic[i, j] = UNDEF
            if rng.random() < 0.2:
                ic[i, :] = UNDEF
            for a in range(4, nv, 4):
                if (ic[i, a:a + 4] == UNDEF).all():
                    ic[i, rng.randrange(a, min(a + 4, nv))] = val(rng)
    if rng.random() < 0.2:
        i = rng.randrange(n)
        ic[i] = -np.abs(ic[i])
        ic[i][ic[i] == 0.0] = -3.5
        ic[i][ic[i] <= -9e8] = UNDEF if nv <= 4 else -1.5
        case.count("negative_only")
    if (ic == UNDEF).all():
        ic[rng.randrange(n), 0] = val(rng)
    m.add_cell_data("initial_condition", ic)
    por = per = None
    if rng.random() < 0.4:
        por = np.array([rng.choice([0.0, rng.uniform(0, 1), rng.uniform(0, 1) * 1e-5]) for _ in range(n)])
        m.add_cell_data("porosity", por)
        case.count("porosity")
    if rng.random() < 0.4:
        per = np.array([[rng.choice([-1, 1]) * rng.uniform(1, 10) * 10.0 ** rng.randint(-20, 3) for _ in range(3)] for _ in range(n)])
        if rng.random() < 0.5:
            per = per[:, 0]
        m.add_cell_data("permeability", per)
        case.count("userx")
    labels = [str(l) for l in m.labels]
    how = rng.choice(["alone", "mesh"])
    case.count("alone" if how == "alone" else "with_mesh")
    snap = tio.snapshot([m.points, [tuple(c) for c in m.cells], m.cell_data, m.field_data])
    d, f, mesh = write(case, m, how)
    case.check(tio.snapshot([m.points, [tuple(c) for c in m.cells], m.cell_data, m.field_data]) == snap, "mesh-changed", "export changed the mesh")
    case.check(os.path.isfile(f), "missing", "no INCON next to MESH: %r" % os.listdir(d))
    case.check(sorted(os.listdir(d)) == sorted([os.path.basename(f)] + ([os.path.basename(mesh)] if how == "mesh" else [])), "files",
               lambda: "%r" % os.listdir(d))
    text = tio.read_text(f)
    try:
        B = meshfile.parse(text, len(labels[0]), 1 + -(-nv // 4))
        R = meshfile.incon(B["INCON"], len(labels[0]), nv)
        case.check(set(B) == {"INCON"}, "blocks", lambda: "%r" % list(B))
    except (ValueError, KeyError) as e:
        case.check(False, "records", str(e))
    keep = [i for i in range(n) if por is not None or per is not None or (ic[i] > UNDEF).any()]
    case.check([r["label"] for r in R] == [labels[i] for i in keep], "cells", lambda: "%r / %r" % ([labels[i] for i in keep][:6], [r["label"] for r in R][:6]))
    for r, i in zip(R, keep):
        case.count("cells")
        w = [None if x <= UNDEF else x for x in ic[i]]
        case.count("undefined", sum(x is None for x in w))
        case.check(all((a is None and b is None) or (a is not None and b is not None and abs(a - b) <= 5.1e-14 * abs(a)) for a, b in zip(w, r["values"])),
                   "values", lambda: "%s: %r / %r" % (r["label"], w, r["values"]))
        case.check(not any(x is not None for x in r["rest"]) and not r["blank"].strip(), "unexpected-field", lambda: "%r" % (r,))
        p = None if por is None else por[i]
        case.check((p is None and r["porosity"] is None) or (p is not None and r["porosity"] is not None and abs(p - r["porosity"]) <= 5.1e-10 * abs(p)),
                   "porosity", lambda: "%s: %r / %r" % (r["label"], p, r["porosity"]))
        u = [] if per is None else np.atleast_1d(per[i]).tolist()
        u += [None] * (5 - len(u))
        case.check(all((a is None and b is None) or (a is not None and b is not None and abs(a - b) <= 5.1e-4 * abs(a)) for a, b in zip(u, r["userx"])),
                   "userx", lambda: "%s: %r / %r" % (r["label"], u, r["userx"]))
    case.count("third_record", int(nv > 4))
    # read back by the library
    P = case.call("read_input", toughio.read_input, f)
    got = P["initial_conditions"]
    case.check(list(got) == [labels[i] for i in keep], "read-cells", lambda: "%r" % list(got)[:5])
    for r in R:
        g = got[r["label"]]
        w = list(r["values"])
        while w and w[-1] is None:
            w.pop()
        case.check(list(g.get("values", [])) == w and g.get("porosity") == r["porosity"], "read-values", lambda: "%r / %r" % (g, r))
    case.count("read_back")
    if not any(x is None for r in R for x in r["values"]):
        out = case.call("read_output", toughio.read_output, f)
        if len(keep) == n:
            order = [str(x) for x in out.labels]
            m2 = toughio.Mesh(m.points, [tuple(c) for c in m.cells])
            m2.label_length = m.label_length
            case.call("mesh.read_output", m2.read_output, out)
            for j in range(nv):
                case.check([r["values"][j] for r in R] == list(m2.cell_data["X%d" % (j + 1)]), "read-into-mesh", "")
    case.shape(nv, n, len(labels[0]), por is not None, None if per is None else per.ndim, how)
    case.note = {"variables": nv, "cells": n, "label_length": len(labels[0]), "how": how}


def skipped(case):
    """Nothing defined: no INCON; malformed arrays: refused and an existing INCON is left alone."""
    logging.disable(logging.CRITICAL)
    rng = case.rng
    m, ref = genmesh.mesh(rng, dims=[2, rng.choice([1, 2]), 1], kind="hexa")
    n = len(ref["cells"])
    how = rng.choice(["none", "all-undefined", "bad-porosity", "bad-permeability"])
    if how != "none":
        m.add_cell_data("initial_condition", np.full((n, rng.choice([1, 2, 4])), UNDEF if how == "all-undefined" else 1.0))
    if how == "bad-porosity":
        m.cell_data["porosity"] = np.ones((n, 2)) if rng.random() < 0.5 else np.ones(n + 1)
    if how == "bad-permeability":
        m.cell_data["permeability"] = rng.choice([np.ones((n, 2)), np.ones((n, 3, 1)), np.ones(n + 1), np.ones((n + 1, 3))])
    d = case.subdir("out")
    f = os.path.join(d, "INCON")
    keep = rng.random() < 0.5
    if keep:
        tio.write_text(f, "precious\n")
    if how.startswith("bad"):
        case.refused("write_incon", ValueError, m.write_incon, f)
    else:
        case.call("write_incon", m.write_incon, f)
        case.count("skipped")
    if keep:
        case.check(tio.read_text(f) == "precious\n", "clobber", "INCON changed although nothing is exported (%s)" % how)
    else:
        case.check(not os.path.exists(f), "clobber", "INCON created although nothing is exported (%s)" % how)
    if not how.startswith("bad"):
        case.call("write_tough", m.write_tough, os.path.join(d, "MESH"), incon=True)
        case.check(os.path.exists(f) == keep, "clobber", "INCON created although nothing is exported (%s)" % how)
    case.call("write_tough", m.write_tough, os.path.join(d, "MESH2"))
    case.check(os.path.exists(f) == keep, "clobber", "INCON written without being asked for")
    case.shape("skipped", how, keep, n)


SCALE = 2  # cases of the quick tier are this many times those listed
FAMILIES = {"large": (core.large(one), 24, 240), "incon": (one, 700, 7000), "skipped": (skipped, 120, 1000)}
