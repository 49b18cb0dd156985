"""C20 - editing a mesh changes what was asked and keeps everything else with its cell."""
import copy
import logging

import numpy as np
import toughio

from vmon import core
from vmon.lib import genmesh, tio

RULE = ("Case = seeded history of 6-20 edits (add data, set materials by indices or mask, extrude with one or several heights along any axis, "
        "remove duplicates, change label length, split, select by box or nearness, refused edits; in place or not) on a 2D or 3D mesh with data, sometimes "
        "with repeated points and cells. A shadow model follows the same history cell by cell and point by point; after every edit the whole mesh is compared "
        "with it. Some meshes have surfaces or lines among their cells, with materials numbered apart per dimension. Interpolation cell <-> point ends some histories. Distinct = kind of mesh x sequence of edits.")
ASSUMPTIONS = ["names of materials are distinct from one another and every material number has a name", "no two different cells of a mesh have the same vertices unless they are repeated on purpose",
               "the documented material array exists when materials are set"]
REACH = {"large": 18, "edits": 3000, "extrude": 100, "prune": 60, "pruned_points": 30, "set_material": 500, "refused": 300, "interpolated": 60, "box": 100, "near": 100, "shared number": 300, "named apart": 500, "integer points": 20}
TOL = 1e-9


class Model(object):
    """Cells and points in the order of the mesh, keyed by nothing but position."""

    def __init__(self, m, mats):
        P = np.asarray(m.points, dtype=float)
        self.dim = P.shape[1]
        self.points = [{"x": P[i].copy(), "d": {k: np.array(v[i]) for k, v in m.point_data.items()}} for i in range(len(P))]
        self.cells = []
        i = 0
        for t, b in m.cells:
            for c in b:
                self.cells.append({"t": t, "x": P[np.asarray(c)].copy(), "mat": mats[i],
                                   "d": {k: np.array(v[i]) for k, v in m.cell_data.items() if k != "material"}})
                i += 1
        self.names = set(m.field_data)
        self.label_length = m.label_length
        self.apart = False  # materials of cells of different dimensions are numbered apart


def image(m):
    return tio.snapshot([np.asarray(m.points), [(c.type, np.asarray(c.data)) for c in m.cells], m.point_data, m.cell_data, m.field_data, m.label_length])


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def agree(case, m, M, what):
    """The mesh is what the model says, cell by cell in the same order."""
    P = np.asarray(m.points)
    case.check(P.shape == (len(M.points), M.dim), "points", lambda: "after %s: points of shape %r, model has %d" % (what, P.shape, len(M.points)))
    case.check(all(same(P[i], p["x"]) for i, p in enumerate(M.points)), "points", lambda: "after %s: coordinates of points differ" % what)
    case.check(m.n_points == len(M.points) and m.n_cells == len(M.cells), "sizes", lambda: "after %s: %d points %d cells" % (what, m.n_points, m.n_cells))
    i = 0
    for t, b in m.cells:
        for c in np.asarray(b):
            e = M.cells[i]
            case.check(t == e["t"], "type", lambda: "after %s: cell %d is a %s, was %s" % (what, i, t, e["t"]))
            case.check(same(P[c], e["x"]), "vertices", lambda: "after %s: vertices of cell %d: %r, expected %r" % (what, i, P[c].tolist(), e["x"].tolist()))
            i += 1
    case.check(i == len(M.cells), "sizes", lambda: "after %s: %d cells" % (what, i))
    for name, data, rows in (("cell", m.cell_data, M.cells), ("point", m.point_data, M.points)):
        keys = set(rows[0]["d"])
        case.check(set(data) - {"material"} == keys, "keys", lambda: "after %s: %s data %r, expected %r" % (what, name, sorted(data), sorted(keys)))
        for k in keys:
            v = np.asarray(data[k])
            case.check(len(v) == len(rows), "length", lambda: "after %s: %s data %s has %d rows of %d" % (what, name, k, len(v), len(rows)))
            bad = [j for j, r in enumerate(rows) if not same(v[j], r["d"][k])]
            case.check(not bad, name + "-data", lambda: "after %s: %s data %s of %d is %r, expected %r" % (what, name, k, bad[0], v[bad[0]], rows[bad[0]]["d"][k]))
            case.count("rows", len(rows))
    mats = [str(x) for x in m.materials]
    want = [c["mat"] for c in M.cells]
    case.check(mats == want, "materials", lambda: "after %s: materials %r, expected %r" % (what, mats[:12], want[:12]))
    case.check(set(m.field_data) == M.names, "field-data", lambda: "after %s: field data %r, expected %r" % (what, sorted(m.field_data), sorted(M.names)))
    ids = [tuple(map(int, v)) if M.apart else int(v[0]) for v in m.field_data.values()]
    case.check(len(set(ids)) == len(ids), "field-data", lambda: "after %s: two materials have the same number: %r" % (what, m.field_data))
    case.check(m.label_length == M.label_length, "label-length", lambda: "after %s: label length %r" % (what, m.label_length))
    text = repr(m)
    case.check(str(len(M.points)) in text and all("%s: %d" % (t, len(c)) in text for t, c in m.cells) and all(k in text for k in list(m.point_data) + list(m.cell_data)),
               "described", lambda: "after %s: mesh described as %r" % (what, text))


def match(case, got, want, what):
    """Index of the wanted entry of every obtained one (by coordinates)."""
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    case.check(got.shape == want.shape, "count", lambda: "%s: %d, expected %d" % (what, len(got), len(want)))
    scale = max(1.0, np.abs(want).max())
    d = np.abs(got[:, None, :] - want[None, :, :]).max(axis=2)
    j = d.argmin(axis=1)
    case.check(float(d[np.arange(len(got)), j].max()) <= TOL * scale, "place", lambda: "%s: something is where nothing should be" % what)
    case.check(len(set(j.tolist())) == len(j), "place", lambda: "%s: some are missing or repeated" % what)
    return j


# --- starting meshes -------------------------------------------------------------------
def flat_mesh(rng):
    nx, ny = rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3])
    if getattr(rng, "big", False):
        nx, ny = rng.choice([(40, 30), (1005, 1), (1, 1100)])
    dx, dy = genmesh.steps(rng, nx), genmesh.steps(rng, ny)
    X, Y = np.concatenate(([0.0], np.cumsum(dx))), np.concatenate(([0.0], np.cumsum(dy)))
    ox, oy = rng.choice([0.0, rng.uniform(-50, 50)]), rng.choice([0.0, rng.uniform(-50, 50)])
    P = np.array([[x + ox, y + oy] for y in Y for x in X])
    idx = lambda i, j: i + (nx + 1) * j
    cells = []
    for j in range(ny):
        for i in range(nx):
            q = [idx(i, j), idx(i + 1, j), idx(i + 1, j + 1), idx(i, j + 1)]
            if rng.random() < 0.4:
                cells += [("triangle", [q[0], q[1], q[2]]), ("triangle", [q[0], q[2], q[3]])]
            else:
                cells.append(("quad", q))
    if rng.random() < 0.5:
        rng.shuffle(cells)
    axis = None
    if rng.random() < 0.12:
        # integer coordinates
        P = np.column_stack([np.unique(x, return_inverse=True)[1] for x in P.T]) * rng.choice([1, 2, 10])
    if rng.random() < 0.5:
        axis = rng.choice([0, 1, 2])
        c = rng.choice([0.0, rng.uniform(-10, 10)])
        P = np.insert(P, axis, c if P.dtype.kind == "f" else int(c), axis=1)
    return P, cells, axis


def start(case):
    logging.disable(logging.CRITICAL)
    rng = case.rng
    flat = rng.random() < 0.45
    axis = None
    if flat:
        P, cells, axis = flat_mesh(rng)
    else:
        P, cells = genmesh.build(rng, dims=[rng.choice([1, 2, 3]) for _ in range(3)])
    dup = 0
    if rng.random() < 0.35:
        P, cells, dup = repeat(rng, P, cells)
    B = genmesh.blocks(rng, cells)
    m = toughio.Mesh(P.copy(), [(t, c.copy()) for t, c in B])
    n = m.n_cells
    names = rng.sample(genmesh.MATS, rng.choice([1, 2, 3]))
    ids = rng.sample(range(1, 12), len(names))
    mat = np.array([rng.randrange(len(names)) for _ in range(n)])
    m.add_cell_data("material", np.array(ids)[mat])
    for i, k in zip(ids, names):
        m.field_data[k] = np.array([i, 2 if flat else 3])
    if rng.random() < 0.7:
        genmesh.fill(rng, m)
    M = Model(m, [names[i] for i in mat])
    M.flat, M.axis, M.dup = flat, axis, dup
    return m, M


def repeat(rng, P, cells):
    """Points (and sometimes cells) written several times."""
    P = [p for p in P]
    cells = [(t, list(c)) for t, c in cells]
    mode = rng.choice(["points", "points", "cells", "all"])
    base = len(P)
    if mode in ("points", "all"):
        if rng.random() < 0.5:  # every cell with its own points
            new = []
            Q = []
            for t, c in cells:
                ids = []
                for a in c:
                    ids.append(len(Q))
                    Q.append(P[a])
                new.append((t, ids))
            P, cells = Q, new
        else:
            for _ in range(rng.randint(1, 4)):
                a = rng.randrange(base)
                P.append(P[a].copy())
                for i, (t, c) in enumerate(cells):
                    if a in c and rng.random() < 0.5:
                        cells[i] = (t, [len(P) - 1 if x == a else x for x in c])
        if any(not any(i in c for _, c in cells) for i in range(len(P))):
            # keep every point used
            used = sorted({a for _, c in cells for a in c})
            inv = {a: i for i, a in enumerate(used)}
            P = [P[a] for a in used]
            cells = [(t, [inv[a] for a in c]) for t, c in cells]
    if mode in ("cells", "all"):
        for _ in range(rng.randint(1, 3)):
            t, c = rng.choice(cells)
            c = list(c)
            if t in ("tetra", "triangle") and rng.random() < 0.5:
                rng.shuffle(c)
            cells.insert(rng.randrange(len(cells) + 1), (t, c))
    return np.array(P), cells, 1


# --- edits ------------------------------------------------------------------------------
def rows(rng, n):
    k = rng.choice(["float", "float", "int", "vec", "bool", "const", "tensor"])
    r = np.random.RandomState(rng.randrange(2 ** 31))
    if k == "int":
        a = r.randint(-5, 100, n)
    elif k == "vec":
        a = r.normal(size=(n, rng.choice([1, 2, 3])))
    elif k == "tensor":
        a = r.normal(size=(n, 3, 3)) if rng.random() < 0.7 else r.normal(size=(n, 2, 1, 4))
    elif k == "bool":
        a = r.rand(n) < 0.5
    elif k == "const":
        a = np.full(n, rng.uniform(-5, 5))
    else:
        a = r.normal(size=n) * 10.0 ** rng.randint(-9, 9)
    c = rng.choice(["list", "tuple", "array", "array"])
    return (a.tolist() if c == "list" else tuple(a.tolist()) if c == "tuple" else a), a


def do_add(case, m, M):
    rng = case.rng
    cell = rng.random() < 0.6
    ent = M.cells if cell else M.points
    arg, a = rows(rng, len(ent))
    k = rng.choice(["A", "B", "PRES", "long name", "x.y", "porosity_"])
    snap = tio.snapshot(arg)
    case.call("add_data", m.add_cell_data if cell else m.add_point_data, k, arg)
    case.check(tio.snapshot(arg) == snap, "argument-changed", "adding data changed it")
    for e, v in zip(ent, a):
        e["d"][k] = np.array(v)
    return "add"


def do_material(case, m, M):
    rng = case.rng
    n = len(M.cells)
    name = rng.choice(sorted(M.names) + genmesh.MATS[:4] + ["new%d" % rng.randint(0, 3)])
    k = rng.choice(["idx", "idx", "mask", "array", "npmask", "empty", "tuple", "repeat"])
    sel = sorted(rng.sample(range(n), rng.randint(1, n)))
    rng.shuffle(sel)
    if k == "idx":
        arg = list(sel)
    elif k == "tuple":
        arg = tuple(sel)
    elif k == "array":
        arg = np.array(sel, dtype=rng.choice([np.int32, np.int64]))
    elif k == "repeat":
        arg = sel + sel[:2]
    elif k == "mask":
        arg = [i in sel for i in range(n)]
    elif k == "npmask":
        if rng.random() < 0.2:
            sel = []
        arg = np.isin(np.arange(n), sel)
    else:
        sel, arg = [], rng.choice([[], (), np.array([], dtype=int)])
    snap = tio.snapshot(arg)
    case.call("set_material", m.set_material, name, arg)
    case.check(tio.snapshot(arg) == snap, "argument-changed", "setting a material changed the list of cells")
    if len(sel) and name in m.field_data and M.apart:
        case.count("named apart")
    for i in sel:
        M.cells[i]["mat"] = name
    if len(sel):
        M.names.add(name)
    elif name in m.field_data:
        M.names.add(name)  # naming a material that no cell has is allowed
    case.count("set_material")
    return "material"


def do_refused(case, m, M):
    rng = case.rng
    n, p = len(M.cells), len(M.points)
    before = image(m)
    k = rng.choice(["len", "plen", "label", "data", "high", "low", "mask", "float", "axis", "solid", "split", "near"])
    V, T = ValueError, TypeError
    new = rng.choice(["zzz", sorted(M.names)[0]])
    if k == "len":
        a = V, m.add_cell_data, "A", [0.0] * (n + rng.choice([-1, 1]))
    elif k == "plen":
        a = V, m.add_point_data, "A", np.zeros(p + rng.choice([-1, 1]))
    elif k == "label":
        a = T, rng.choice([m.add_cell_data, m.add_point_data]), rng.choice([None, 1, b"A"]), [0.0] * n
    elif k == "data":
        a = T, rng.choice([m.add_cell_data, m.add_point_data]), "A", rng.choice([1.0, None, {"a": 1}, {1, 2}])
    elif k == "high":
        a = V, m.set_material, new, [0, n + rng.randint(0, 2)]
    elif k == "low":
        a = V, m.set_material, new, [0, -rng.randint(1, 3)]
    elif k == "mask":
        a = V, m.set_material, new, [True] * (n + rng.choice([-1, 1])) if n > 1 else [True] * 2
    elif k == "float":
        a = T, m.set_material, new, rng.choice([[0.0], [0, 0.5], ["0"], np.array([0.0])])
    elif k == "axis":
        a = V, m.extrude_to_3d, 1.0, rng.choice([3, -1, None, "z"])
    elif k == "solid":
        if M.dim == 2 or (M.flat and M.axis is None):
            return "none"
        ax = [x for x in range(3) if len({float(q["x"][x]) for q in M.points}) > 1]
        if not ax:
            return "none"
        a = V, m.extrude_to_3d, 1.0, rng.choice(ax)
    elif k == "split":
        a = V, m.split, [0] * (n + rng.choice([-1, 1]))
    else:
        a = (T, m.near, 1.0) if rng.random() < 0.5 else (V, m.near, [0.0] * (M.dim + rng.choice([-1, 1])))
    case.refused(k, a[0], a[1], *a[2:])
    case.check(image(m) == before, "refused-edit", "the refused edit (%s) changed the mesh" % k)
    return "refused-" + k


def do_split(case, m, M):
    arg, a = rows(case.rng, len(M.cells))
    out = case.call("split", m.split, arg)
    case.check(len(out) == len(m.cells), "split", lambda: "%d blocks, %d arrays" % (len(m.cells), len(out)))
    i = 0
    for c, o in zip(m.cells, out):
        case.check(same(o, a[i:i + len(c.data)]), "split", lambda: "block of %d cells, array %r" % (len(c.data), o))
        i += len(c.data)
    return "split"


def do_near(case, m, M):
    rng = case.rng
    C = np.array([c["x"].mean(axis=0) for c in M.cells])
    q = [[rng.uniform(a - 1, b + 1) for a, b in zip(C.min(axis=0), C.max(axis=0))] for _ in range(rng.choice([1, 2, 3, 4, 5, 5, 60, 300]))]
    if rng.random() < 0.3:
        q[0] = C[rng.randrange(len(C))].tolist()
    one = rng.random() < 0.4
    got = case.call("near", m.near, rng.choice([tuple, list, np.array])(q[0]) if one else rng.choice([list, np.array])(q))
    got = [int(got)] if one else [int(g) for g in got]
    case.check(len(got) == (1 if one else len(q)), "near", "number of answers")
    for p, g in zip(q, got):
        d = np.sqrt(((C - p) ** 2).sum(axis=1))
        case.check(0 <= g < len(C) and d[g] <= d.min() + TOL * (1 + np.abs(C).max()), "near", lambda: "cell %d at %r is nearer to %r than cell %d" % (d.argmin(), C[d.argmin()], p, g))
    case.count("near")
    return "near"


def do_box(case, m, M):
    rng = case.rng
    if M.dim != 3:
        return "none"
    C = np.array([c["x"].mean(axis=0) for c in M.cells])
    lo, hi = C.min(axis=0) - 1, C.max(axis=0) + 1
    kw, ok = {}, np.ones(len(C), dtype=bool)
    sure = np.ones(len(C), dtype=bool)
    tol = TOL * (1 + np.abs(C).max())
    for i, x in enumerate("xyz"):
        if rng.random() < 0.6:
            a = rng.uniform(lo[i], hi[i])
            kw[x + "0"] = a
            ok &= C[:, i] >= a
            sure &= np.abs(C[:, i] - a) > tol
            if rng.random() < 0.6:
                d = rng.uniform(0, hi[i] - a)
                kw["d" + x] = d
                ok &= C[:, i] <= a + d
                sure &= np.abs(C[:, i] - a - d) > tol
    got = case.call("filter.box", m.filter.box, **kw) if rng.random() < 0.5 else case.call("filter", m.filter, **dict(kw, filter_="box"))
    inside = np.isin(np.arange(len(C)), got)
    case.check(bool(np.all(inside[sure] == ok[sure])), "box", lambda: "box %r: cells %r, expected %r" % (kw, list(got), np.nonzero(ok)[0].tolist()))
    case.check(len(got) == inside.sum(), "box", "repeated cells")
    case.count("box")
    return "box"


def do_length(case, m, M):
    rng = case.rng
    M.label_length = rng.choice([None, 5, 6, 7, 8])
    m.label_length = M.label_length
    labs = [str(x) for x in case.call("labels", lambda: m.labels)]
    case.check(len(set(labs)) == len(M.cells) and {len(x) for x in labs} == {M.label_length or 5}, "labels", lambda: "labels %r" % labs[:5])
    return "length"


def do_extrude(case, m, M):
    rng = case.rng
    if not M.flat or M.dup:
        return m, "none"
    h = rng.choice([1.0, 2, rng.uniform(0.1, 30), -1.5])
    heights = [h]
    if rng.random() < 0.6:
        heights = [abs(x) for x in genmesh.steps(rng, rng.choice([1, 2, 3, 4]))]
        h = rng.choice([list, tuple, np.array])(heights)
    axis = M.axis if M.dim == 3 else rng.choice([0, 1, 2])
    kw = {}
    if axis != 2 or rng.random() < 0.5:
        kw["axis"] = axis
    inplace = rng.random() < 0.7
    if not inplace:
        kw["inplace"] = False
    before = image(m)
    if m.points.dtype.kind != "f" and M.dim == 3:
        case.count("integer points")
    old = m
    dims = {k: int(m.field_data[k][1]) for k in M.names}
    if np.ndim(h) == 0 and h == 1.0 and rng.random() < 0.5:
        out = case.call("extrude_to_3d", m.extrude_to_3d, **kw)
    else:
        out = case.call("extrude_to_3d", m.extrude_to_3d, h, **kw)
    if inplace:
        case.check(out is None or out is m, "return", "edit in place returned %r" % type(out))
    else:
        case.check(image(old) == before, "not-in-place", "extrusion not in place changed the mesh")
        m = out

    def lift(x, s):
        x = np.asarray(x, dtype=float)
        if M.dim == 2:
            x = np.insert(x, 2, 0.0, axis=-1)
            x[..., [axis, 2]] = x[..., [2, axis]]
        else:
            x = x.copy()
        x[..., axis] += s
        return x

    z = np.concatenate(([0.0], np.cumsum(heights)))
    pts = [{"x": lift(p["x"], s), "d": copy.deepcopy(p["d"])} for s in z for p in M.points]
    cells = []
    for a, b in zip(z[:-1], z[1:]):
        for c in M.cells:
            if c["t"] == "line":
                continue  # only faces become volumes
            cells.append({"t": {"triangle": "wedge", "quad": "hexahedron"}[c["t"]], "x": np.vstack((lift(c["x"], a), lift(c["x"], b))),
                          "mat": c["mat"], "d": copy.deepcopy(c["d"])})
    P = np.asarray(m.points, dtype=float)
    case.check(P.shape == (len(pts), 3), "points", lambda: "extruded points %r" % (P.shape,))
    j = match(case, P, [p["x"] for p in pts], "extruded points")
    M.points = [pts[i] for i in j]
    flat = [(t, P[c]) for t, b in m.cells for c in np.asarray(b)]
    case.check(len(flat) == len(cells), "count", lambda: "%d extruded cells, expected %d" % (len(flat), len(cells)))
    j = match(case, [x.mean(axis=0) for _, x in flat], [c["x"].mean(axis=0) for c in cells], "extruded cells")
    M.cells = [cells[i] for i in j]
    scale = TOL * max(1.0, np.abs(P).max())
    for (t, x), c in zip(flat, M.cells):
        case.check(t == c["t"] and x.shape == c["x"].shape and np.abs(x - c["x"]).max() <= scale, "vertices", lambda: "extruded cell %r, expected %r" % (x, c["x"]))
        c["x"] = x.copy()
    for p, x in zip(M.points, P):
        p["x"] = x.copy()
    M.dim, M.flat, M.axis = 3, False, None
    for k in M.names:
        case.check(int(m.field_data[k][1]) == (min(dims[k] + 1, 3) if M.apart else 3), "field-data", lambda: "dimension of material %s is %r" % (k, m.field_data[k]))
    case.count("extrude")
    return m, "extrude%d%s" % (axis, "" if inplace else "-copy")


def do_prune(case, m, M):
    rng = case.rng
    kw = {} if rng.random() < 0.6 else {"inplace": rng.random() < 0.5}
    before = image(m)
    old = m
    # data of points at the same place are the same thing for the caller: give them the same rows half of the time
    out = case.call("prune_duplicates", m.prune_duplicates, **kw)
    if kw.get("inplace", True):
        case.check(out is None or out is m, "return", "edit in place returned %r" % type(out))
    else:
        case.check(image(old) == before, "not-in-place", "pruning not in place changed the mesh")
        m = out
    P = np.asarray(m.points)
    groups = {}
    for p in M.points:
        groups.setdefault(tuple(p["x"].tolist()), []).append(p)
    case.check(len(P) == len(groups) and len({tuple(x) for x in P.tolist()}) == len(P), "prune-points", lambda: "%d different points, %d left" % (len(groups), len(P)))
    if len(groups) < len(M.points):
        case.count("pruned_points")
    pts = []
    for i, x in enumerate(P.tolist()):
        g = groups.get(tuple(x))
        case.check(g is not None, "prune-points", lambda: "point %r appeared" % (x,))
        fit = [p for p in g if all(k in m.point_data and same(np.asarray(m.point_data[k])[i], v) for k, v in p["d"].items())]
        case.check(len(fit) > 0, "prune-point-data", lambda: "point %r does not have the data of any point that was there" % (x,))
        pts.append(fit[0])
    M.points = pts
    groups = {}
    for c in M.cells:
        groups.setdefault((c["t"], frozenset(tuple(x) for x in c["x"].tolist())), []).append(c)
    flat = [(t, P[c]) for t, b in m.cells for c in np.asarray(b)]
    case.check(len(flat) == len(groups), "prune-cells", lambda: "%d different cells, %d left" % (len(groups), len(flat)))
    mats = [str(x) for x in m.materials]
    cells, seen = [], set()
    for i, (t, x) in enumerate(flat):
        key = (t, frozenset(tuple(a) for a in x.tolist()))
        g = groups.get(key)
        case.check(g is not None and key not in seen, "prune-cells", lambda: "cell %r appeared or is repeated" % (x.tolist(),))
        seen.add(key)
        fit = [c for c in g if same(c["x"], x) and c["mat"] == mats[i] and
               all(k in m.cell_data and same(np.asarray(m.cell_data[k])[i], v) for k, v in c["d"].items())]
        case.check(len(fit) > 0, "prune-cell-data", lambda: "cell %r does not have the data of any cell that was there" % (x.tolist(),))
        cells.append(fit[0])
    M.cells = cells
    M.dup = 0
    case.count("prune")
    return m, "prune"


def do_interpolate(case, m, M):
    """Ends the history: cell data to points (volume weighted) or point data to cells (mean)."""
    rng = case.rng
    down = rng.random() < 0.5
    if M.dim != 3 or M.flat or any(c["t"] in ("line", "triangle", "quad") for c in M.cells):
        down = True
    flat = [np.asarray(c) for _, b in m.cells for c in np.asarray(b)]
    P = np.asarray(m.points, dtype=float)
    if down:
        want = {k: np.array([np.mean([M.points[a]["d"][k] for a in c], axis=0) for c in flat]) for k in M.points[0]["d"]}
        keep = {k: np.asarray(v).copy() for k, v in m.cell_data.items()}
        case.call("point_data_to_cell_data", m.point_data_to_cell_data)
        got, left = m.cell_data, m.point_data
    else:
        V = np.abs(genmesh.geometry({"points": P, "cells": [(t, list(map(int, c))) for t, b in m.cells for c in np.asarray(b)]})["volumes"])
        of = [[] for _ in P]
        for i, c in enumerate(flat):
            for a in c:
                of[a].append(i)
        if any(not o for o in of):
            return "none"
        want = {}
        for k in list(M.cells[0]["d"]):
            v = np.array([c["d"][k] for c in M.cells], dtype=float)
            want[k] = np.array([np.tensordot(V[o], v[o], 1) / V[o].sum() for o in of])
        keep = {k: np.asarray(v).copy() for k, v in m.point_data.items()}
        mats = np.asarray(m.cell_data["material"], dtype=float)
        want["material"] = np.array([(V[o] * mats[o]).sum() / V[o].sum() for o in of])
        case.call("cell_data_to_point_data", m.cell_data_to_point_data)
        got, left = m.point_data, m.cell_data
    for k, v in want.items():
        g = np.asarray(got.get(k))
        case.check(g.shape == v.shape, "interpolated", lambda: "%s: shape %r, expected %r" % (k, g.shape, v.shape))
        s = np.abs(v).max() + 1e-300 if v.size else 1
        src = np.array([e["d"][k] for e in (M.points if down else M.cells)], dtype=float) if k != "material" else np.array([1.0])
        s = max(s, np.abs(src).max())
        case.check(bool(np.all(np.abs(g - v) <= 1e-7 * s)), "interpolated", lambda: "%s: %r, expected %r" % (k, g[:5], v[:5]))
    for k, v in keep.items():
        if k not in want:
            case.check(k in got and same(got[k], v), "interpolated-other", lambda: "%s was changed" % k)
    case.check(not left, "interpolated-left", lambda: "the source data are still there: %r" % sorted(left))
    case.check(np.array_equal(np.asarray(m.points), P), "points", "interpolation moved points")
    case.count("interpolated")
    return "down" if down else "up"


def sections(case):
    """Cells of several dimensions (surfaces or lines among the others) whose materials are numbered apart, as mesh generators do."""
    logging.disable(logging.CRITICAL)
    rng = case.rng
    flat = rng.random() < 0.4
    axis = None
    if flat:
        P, cells, axis = flat_mesh(rng)
    else:
        P, cells = genmesh.build(rng, dims=[rng.choice([1, 2]) for _ in range(3)])
    more = {}
    for t, c in rng.sample(cells, min(len(cells), rng.randint(1, 4))):
        f = list(c[:2])
        if not flat and rng.random() < 0.8:
            f = [c[a] for a in rng.choice(genmesh.FACES[t])]
        more.setdefault((len(f), frozenset(f)), ({2: "line", 3: "triangle", 4: "quad"}[len(f)], f))
    more = list(more.values())
    cells = cells + more if rng.random() < 0.5 else more + cells
    B = genmesh.blocks(rng, cells)
    dims = [{"line": 1, "triangle": 2, "quad": 2}.get(t, 3) for t, b in B for _ in b]
    names = rng.sample(genmesh.MATS + ["inlet", "top", "fault"], 6)
    of = {1: names[:2], 2: names[2:4], 3: names[4:]}
    of = {d: of[d] for d in set(dims)}
    ids = {d: rng.sample(range(1, 5), len(of[d])) for d in of}
    pick = [rng.randrange(len(of[d])) for d in dims]
    fd = [(a, np.array([i, d])) for d in of for a, i in zip(of[d], ids[d])]
    rng.shuffle(fd)
    m = toughio.Mesh(np.array(P), [(t, np.array(c)) for t, c in B], field_data=dict(fd))
    m.add_cell_data("material", np.array([ids[d][k] for d, k in zip(dims, pick)]))
    if rng.random() < 0.6:
        genmesh.fill(rng, m)
    M = Model(m, [of[d][k] for d, k in zip(dims, pick)])
    M.flat, M.axis, M.dup, M.apart = flat, axis, 0, True
    if len({int(v[0]) for _, v in fd}) < len(fd):
        case.count("shared number")
    return m, M


def history(case, start=start):
    rng = case.rng
    m, M = start(case)
    kind = ("flat" if M.flat else "solid", M.dim, M.dup, M.apart)
    agree(case, m, M, "building")
    n = rng.randint(6, 20) if not case.thorough else rng.randint(6, 40)
    seq = []
    for i in range(n):
        k = rng.choices(["add", "material", "refused", "split", "near", "box", "length", "extrude", "prune"], [4, 5, 4, 1, 1, 1, 1, 2.5, 2])[0]
        if k == "extrude":
            m, what = do_extrude(case, m, M)
        elif k == "prune":
            m, what = do_prune(case, m, M)
        else:
            what = {"add": do_add, "material": do_material, "refused": do_refused, "split": do_split, "near": do_near, "box": do_box,
                    "length": do_length}[k](case, m, M)
        if what == "none":
            continue
        seq.append(what)
        case.count("edits")
        agree(case, m, M, what)
    if rng.random() < 0.4:
        if not M.dup:
            seq.append(do_interpolate(case, m, M))
    case.shape(kind, tuple(seq))
    case.note = {"mesh": kind, "cells": len(M.cells), "edits": seq}


SCALE = 6  # cases of the quick tier are this many times those listed
FAMILIES = {"large": (core.large(history), 24, 80), "history": (history, 600, 6000), "sections": (lambda case: history(case, sections), 150, 1500)}
