"""C17 - a mesh exported for the simulator describes the same cells and interfaces."""
import logging
import os

import numpy as np
import toughio

from vmon.lib import deck, genmesh, genout, meshfile, tio

RULE = ("Case = seeded conforming mesh with materials, boundary cells and label length exported as MESH (both nodal distances, "
        "renamed materials, materials moved to the end, long coordinates); every record parsed by an independent fixed-column "
        "reader and compared with the polyhedron model. Distinct = cell types x cells x label length x options.")
ASSUMPTIONS = ["planar faces, conforming, positively oriented first-order cells", "at most 26*35*35*100 cells for 5-character labels"]
REACH = {"edited": 200, "elements": 5000, "connections": 5000, "boundary": 200, "orthogonal": 100, "line": 100, "material_end": 50, "renamed": 50,
         "coord": 50, "read_back": 200, "nameless": 10, "isot": 2000, "large": 2}
G4, G3, G13 = 5.1e-5, 5.1e-4, 5.1e-14


def rel(a, b, tol, abs_=0.0):
    return b is not None and abs(a - b) <= tol * abs(a) + abs_


def expected_material(name, rename):
    if name.startswith("#"):  # identifier without a name
        name = rename.get(int(name[1:]), "%5d" % int(name[1:]))
    name = rename.get(name, name)
    return ("%-5s" % name)[:5]


def check_mesh(case, text, m, ref, G, labels, bound, rename, end, coord, nodal):
    n = len(ref["cells"])
    nlab = len(labels[0])
    try:
        B = meshfile.parse(text, nlab)
        E, C = meshfile.elements(B["ELEME"], nlab), meshfile.connections(B["CONNE"], nlab)
        X = meshfile.coords(B["COORD"]) if "COORD" in B else None
    except (ValueError, KeyError) as e:
        case.check(False, "records", "%s" % e)
    case.check(set(B) == {"ELEME", "CONNE"} | ({"COORD"} if coord else set()), "blocks", lambda: "%r" % list(B))
    order = [i for i in range(n) if ref["materials"][i].strip() not in end] + [i for i in range(n) if ref["materials"][i].strip() in end]
    case.check([e["label"] for e in E] == [labels[i] for i in order], "order", lambda: "%r / %r" % (
        [labels[i] for i in order][:6], [e["label"] for e in E][:6]))
    scale = np.abs(ref["points"]).max()
    for e, i in zip(E, order):
        v = G["volumes"][i] * (1e50 if bound[i] else 1.0)
        case.check(e["material"] == expected_material(ref["materials"][i].strip(), rename), "material", lambda: "%s: %r / %r" % (
            e["label"], expected_material(ref["materials"][i].strip(), rename), e["material"]))
        case.check(rel(v, e["volume"], G4), "volume", lambda: "%s: %r / %r" % (e["label"], v, e["volume"]))
        case.check(all(rel(a, b, G3, 1e-11 * scale) for a, b in zip(G["centers"][i], e["center"])), "center", lambda: "%s: %r / %r" % (
            e["label"], G["centers"][i], e["center"]))
        case.check(not e["blank"].strip() and e["ahtx"] is None and e["pmx"] is None, "unexpected-field", lambda: "%r" % (e,))
        case.count("elements")
        case.count("boundary", int(bool(bound[i])))
    if coord:
        case.check(len(X) == n and all(rel(a, b, G13, 1e-11 * scale) for x, i in zip(X, order) for a, b in zip(G["centers"][i], x)),
                   "coord", lambda: "%r" % X[:3])
        case.count("coord")
    idx = {l: i for i, l in enumerate(labels)}
    seen = set()
    for c in C:
        case.check(c["labels"][0] in idx and c["labels"][1] in idx, "connection-labels", lambda: "%r" % (c,))
        i, j = idx[c["labels"][0]], idx[c["labels"][1]]
        k = (min(i, j), max(i, j))
        case.check(k in G["pairs"], "not-neighbours", lambda: "%r" % (c,))
        case.check(k not in seen, "connection-twice", lambda: "%r" % (c,))
        seen.add(k)
        face = G["pairs"][k]
        ids, S = next((f, S) for f, S in G["faces"][i] if frozenset(f) == face)
        A = np.linalg.norm(S)
        nrm = S / A
        x, y = G["centers"][i], G["centers"][j]
        line = y - x
        L = np.linalg.norm(line)
        p = ref["points"][ids[0]]
        # areas and distances
        case.check(rel(A, c["area"], G4, 1e-9 * scale), "area", lambda: "%r: %r" % (c, A))
        if nodal == "line":
            d1 = abs((p - x).dot(nrm) / line.dot(nrm)) * L
            d2 = abs((p - y).dot(nrm) / line.dot(nrm)) * L
        else:
            d1, d2 = abs((p - x).dot(nrm)), abs((p - y).dot(nrm))
        d1, d2 = (1e-9 if bound[i] else d1), (1e-9 if bound[j] else d2)
        eps = 1e-9 * scale
        case.check(rel(d1, c["d"][0], G4, 0 if bound[i] else eps) and rel(d2, c["d"][1], G4, 0 if bound[j] else eps), "distance",
                   lambda: "%s %r: expected %r" % (nodal, c, (d1, d2)))
        beta = -line[2] / L
        case.check(rel(beta, c["beta"], G3, 1e-9), "gravity", lambda: "%r: %r" % (c, beta))
        comp = np.sort(np.abs(line) / L)
        if comp[1] < 1e-12:
            want = int(np.argmax(np.abs(line))) + 1
            case.check(c["isot"] == want, "direction", lambda: "%r: %r (line %r)" % (c, want, line))
            case.count("isot")
        elif comp[1] > 1e-6:
            case.check(c["isot"] == 1, "direction", lambda: "%r: 1 (line %r)" % (c, line))
            case.count("isot")
        case.check(not c["blank"].strip() and not c["sig"], "unexpected-field", lambda: "%r" % (c,))
        case.count("connections")
    case.check(len(seen) == len(G["pairs"]), "connections", lambda: "%d connections of %d: missing %r" % (
        len(seen), len(G["pairs"]), [(labels[a], labels[b]) for a, b in set(G["pairs"]) - seen][:3]))
    return E, C


def options(case, ref):
    rng = case.rng
    opts = {}
    used = sorted({x.strip() for x in ref["materials"]})
    rename, end = {}, []
    if rng.random() < 0.4:
        for k in used:
            if rng.random() < 0.6:
                rename[k] = rng.choice(["NEW%02d" % rng.randint(0, 99), "N%d" % rng.randint(0, 9)])
        rename["other"] = "OTHER"
        opts["material_name"] = dict(rename)
        case.count("renamed")
    if rng.random() < 0.4:
        end = rng.sample(used, rng.randint(0, len(used)))
        if rng.random() < 0.3:
            end.append("none!")
        opts["material_end"] = end[0] if len(end) == 1 and rng.random() < 0.5 else rng.choice([list, tuple])(end)
        case.count("material_end")
    nodal = rng.choice(["line", "orthogonal"])
    if nodal == "orthogonal" or rng.random() < 0.5:
        opts["nodal_distance"] = nodal
    case.count(nodal)
    coord = rng.random() < 0.3
    if coord:
        opts["coord"] = True
    return opts, rename, end, nodal, coord


def labels_ok(case, m, n):
    labels = [str(l) for l in m.labels]
    case.check(len(labels) == n and len(set(labels)) == n and len({len(l) for l in labels}) == 1, "labels", lambda: "%r" % labels[:4])
    return labels


def large(case):
    """More cells than the last digits of a label can count."""
    one(case, kind="hexa", dims=case.rng.choice([(15, 16, 15), (3, 40, 30), (1, 60, 60), (11, 33, 10)]))
    case.count("large")


def one(case, **kw):
    logging.disable(logging.CRITICAL)
    rng = case.rng
    m, ref = genmesh.mesh(rng, mirror=True, **kw)
    n = len(ref["cells"])
    bound = np.zeros(n, dtype=int)
    if rng.random() < 0.5:
        bound = np.array([int(rng.random() < 0.3) for _ in range(n)])
        if rng.random() < 0.3:  # any value but zero
            bound = bound * np.array([rng.choice([1, 2, -1, 7]) for _ in range(n)])
        m.add_cell_data("boundary_condition", rng.choice([bound, bound, bound.astype(bool), bound.astype(float), bound.astype("int8")]))
    nameless = rng.random()
    if nameless < 0.1:
        ids = {k: int(v[0]) for k, v in m.field_data.items()}
        ref["materials"] = ["#%d" % ids[k] for k in ref["materials"]]
        m.field_data.clear()
        if nameless < 0.03:
            m.cell_data.pop("material")
            ref["materials"] = ["#1"] * n
        case.count("nameless")
    opts, rename, end, nodal, coord = options(case, ref)
    if nameless < 0.1 and "material_name" in opts:
        opts["material_name"] = {(int(k[1:]) if k.startswith("#") else k): v for k, v in rename.items()}
        rename = dict(opts["material_name"])
    if nameless < 0.1:
        opts.pop("material_end", None)
        end = []
    labels = labels_ok(case, m, n)
    case.check(len(labels[0]) == (m.label_length or 5), "label-length", lambda: "%r" % labels[:2])
    snap = tio.snapshot([m.points, [tuple(c) for c in m.cells], m.cell_data, m.field_data, opts])
    f = case.path("MESH")
    k = rng.random()
    if k < 0.4:
        case.call("write_tough", m.write_tough, f, **opts)
    elif k < 0.7:
        case.call("write", m.write, f, file_format="tough", **opts)
    else:
        case.call("write_mesh", toughio.write_mesh, f, m, file_format="tough", **opts)
    case.check(tio.snapshot([m.points, [tuple(c) for c in m.cells], m.cell_data, m.field_data, opts]) == snap, "mesh-changed", "export changed the mesh")
    text = tio.read_text(f)
    G = genmesh.geometry(ref)
    E, C = check_mesh(case, text, m, ref, G, labels, bound, rename, end, coord, nodal)
    # what the library reads is what was written
    kw = {"label_length": len(labels[0])} if rng.random() < 0.3 else {}
    R = case.call("read_mesh", toughio.read_mesh, f, file_format="tough", **kw)
    case.check(list(R["elements"]) == [e["label"] for e in E] and list(R["elements_order"]) == list(R["elements"]), "read-elements", "")
    for q, e in enumerate(E):
        r = R["elements"][e["label"]]
        x = meshfile.coords(meshfile.parse(text, len(labels[0]))["COORD"])[q] if coord and q == 0 else None
        case.check(r.get("volume") == e["volume"] and str(r.get("material", "")).strip() == e["material"].strip() and
                   (coord or list(r["center"]) == e["center"]) and (x is None or list(r["center"]) == x), "read-element", lambda: "%r / %r" % (r, e))
    case.check(list(R["connections"]) == ["".join(c["labels"]) for c in C], "read-connections", lambda: "%r" % list(R["connections"])[:3])
    for c in C:
        r = R["connections"]["".join(c["labels"])]
        case.check(r["permeability_direction"] == c["isot"] and tuple(r["nodal_distances"]) == c["d"] and r["interface_area"] == c["area"]
                   and r["gravity_cosine_angle"] == c["beta"], "read-connection", lambda: "%r / %r" % (r, c))
    case.count("read_back")
    again(case, m, f, text, opts)
    case.shape(tuple(t for t, _ in ref["blocks"])[:6], n, len(labels[0]), nodal, coord, bool(rename), bool(end))
    case.note = {"cells": n, "blocks": [t for t, _ in ref["blocks"]][:10], "options": {k: repr(v) for k, v in opts.items()}}


def again(case, m, f, text, opts):
    """The file says what the mesh is now: written again, and written after the mesh was edited."""
    rng = case.rng
    f2 = case.path("AGAIN")
    case.call("write_mesh", toughio.write_mesh, f2, m, file_format="tough", **opts)
    case.check(tio.read_text(f2) == text, "again", "the mesh written again gives another file")
    if rng.random() < 0.5:
        return
    k = rng.choice(["points", "material", "length", "boundary", "cells"])
    if k == "points":
        m.points = np.asarray(m.points) * 2.0 + 1.0
    elif k == "material":
        if "material" not in m.cell_data:
            return
        case.call("set_material", m.set_material, "other", rng.sample(range(m.n_cells), rng.randint(1, m.n_cells)))
    elif k == "length":
        m.label_length = 9 if m.label_length != 9 else 6
    elif k == "boundary":
        m.add_cell_data("boundary_condition", np.array([int(rng.random() < 0.5) for _ in range(m.n_cells)]))
    else:
        c = m.cells[0].data
        if len(c) < 2:
            return
        m.cells = [(b.type, b.data[::-1].copy()) for b in m.cells]
    fresh = toughio.Mesh(np.array(m.points), [(c.type, np.array(c.data)) for c in m.cells], cell_data={a: np.array(v) for a, v in m.cell_data.items()},
                         field_data={a: np.array(v) for a, v in m.field_data.items()})
    fresh.label_length = m.label_length
    case.call("write_mesh", toughio.write_mesh, f, m, file_format="tough", **opts)
    case.call("write_mesh", toughio.write_mesh, f2, fresh, file_format="tough", **opts)
    case.check(tio.read_text(f) == tio.read_text(f2), "edited", lambda: "after an edit (%s) the mesh is written otherwise than a new mesh with the same contents" % k)
    case.count("edited")


SCALE = 2  # cases of the quick tier are this many times those listed
FAMILIES = {"mesh": (one, 600, 5000), "large": (large, 2, 12)}
