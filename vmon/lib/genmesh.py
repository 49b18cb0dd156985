"""Seeded conforming meshes and independent reference geometry (pure NumPy, divergence theorem)."""
import numpy as np
import toughio

FACES = {
    "tetra": [(1, 2, 3), (0, 3, 2), (0, 1, 3), (0, 2, 1)],
    "pyramid": [(0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4), (0, 3, 2, 1)],
    "wedge": [(0, 2, 1), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (0, 3, 5, 2)],
    "hexahedron": [(0, 3, 2, 1), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (0, 4, 7, 3)],
}
KUHN = [(0, 1, 2, 6), (0, 2, 3, 6), (0, 3, 7, 6), (0, 7, 4, 6), (0, 4, 5, 6), (0, 5, 1, 6)]
NVERT = {"tetra": 4, "pyramid": 5, "wedge": 6, "hexahedron": 8, "triangle": 3, "quad": 4, "line": 2, "vertex": 1}


def steps(rng, n, lo=0.1, hi=20.0):
    k = rng.random()
    if k < 0.3:
        return [rng.choice([1.0, 2.0, 0.5])] * n
    if k < 0.6:
        return [float(rng.randint(1, 9)) for _ in range(n)]
    return [rng.uniform(lo, hi) for _ in range(n)]


def grid(rng, nx, ny, nz, dx=None, dy=None, dz=None, origin=(0, 0, 0)):
    """Points of a structured grid and vertex index function."""
    dx, dy, dz = dx or steps(rng, nx), dy or steps(rng, ny), dz or steps(rng, nz)
    X, Y, Z = [np.concatenate(([0.0], np.cumsum(d))) + o for d, o in zip((dx, dy, dz), origin)]
    P = np.array([[x, y, z] for z in Z for y in Y for x in X])
    idx = lambda i, j, k: i + (nx + 1) * (j + (ny + 1) * k)
    return P, idx


def hexa(idx, i, j, k):
    return [idx(i, j, k), idx(i + 1, j, k), idx(i + 1, j + 1, k), idx(i, j + 1, k),
            idx(i, j, k + 1), idx(i + 1, j, k + 1), idx(i + 1, j + 1, k + 1), idx(i, j + 1, k + 1)]


def build(rng, kind=None, dims=None, warp=True):
    """(points, [(type, vertices)]) of a conforming mesh with planar faces, positively oriented cells."""
    kind = kind or rng.choice(["hexa", "hexa", "mixed", "mixed", "tetra", "wedge", "pyra"])
    if getattr(rng, "big", False):
        dims = rng.choice([(11, 10, 10), (34, 31, 1), (1, 1, 1020), (9, 8, 15)] if kind in ("hexa", "mixed", "wedge") else [(9, 8, 3), (1, 180, 1)])
    nx, ny, nz = dims or [rng.choice([1, 2, 2, 3, 4]) for _ in range(3)]
    if dims is None and rng.random() < 0.03:
        nx, ny, nz = rng.choice([(7, 5, 2), (1, 1, 30), (13, 1, 2), (1, 11, 3), (5, 5, 5)])
    if dims is None and nx * ny * nz == 1 and kind in ("hexa", "mixed"):
        nx = 2
    P, idx = grid(rng, nx, ny, nz, origin=[rng.choice([0.0, rng.uniform(-1000, 1000)]) for _ in range(3)])
    P = list(P)
    cells = []
    boundary = lambda i, j, k: i in (0, nx - 1) or j in (0, ny - 1) or k in (0, nz - 1)
    for j in range(ny):
        for i in range(nx):
            column = {"hexa": "hexa", "wedge": "wedge", "tetra": "tetra", "pyra": "hexa"}.get(kind) or rng.choice(["hexa", "hexa", "wedge"])
            diag = rng.random() < 0.5
            for k in range(nz):
                h = hexa(idx, i, j, k)
                if column == "tetra":
                    cells += [("tetra", [h[a] for a in t]) for t in KUHN]
                elif column == "wedge":
                    tri = [(0, 1, 2), (0, 2, 3)] if diag else [(0, 1, 3), (1, 2, 3)]
                    cells += [("wedge", [h[a] for a in t] + [h[a + 4] for a in t]) for t in tri]
                elif kind == "pyra" or (kind == "mixed" and rng.random() < 0.35):
                    c = len(P)
                    P.append(np.mean([P[a] for a in h], axis=0))
                    for f in FACES["hexahedron"]:
                        q = [h[a] for a in f][::-1]  # seen from the centre
                        # a pyramid on an outer face may be split in two tetrahedra
                        outer = (set(f) == {0, 3, 2, 1} and k == 0) or (set(f) == {4, 5, 6, 7} and k == nz - 1)
                        if kind == "mixed" and outer and rng.random() < 0.7:
                            cells += [("tetra", [q[0], q[1], q[2], c]), ("tetra", [q[0], q[2], q[3], c])]
                        else:
                            cells.append(("pyramid", q + [c]))
                else:
                    cells.append(("hexahedron", h))
    P = np.array(P)
    if warp and rng.random() < 0.6:
        # affine map keeps planar faces; positive determinant keeps orientation
        while True:
            A = np.array([[rng.gauss(0, 1) for _ in range(3)] for _ in range(3)]) * 0.4 + np.eye(3)
            if np.linalg.det(A) > 0.3:
                break
        P = P.dot(A.T)
    if warp and rng.random() < 0.35:
        # projective map: planes stay planes, parallelograms become general quadrilaterals
        c, w = P.mean(axis=0), np.ptp(P, axis=0).max()
        a = np.array([rng.gauss(0, 1) for _ in range(3)])
        u = (P - c) / w
        P = c + w * u / (1.0 + 0.8 * u.dot(a / np.abs(a).sum()))[:, None]
    if warp and rng.random() < 0.3:
        P = P * 10.0 ** rng.choice([-6, -5, -3, -2, -1, 1, 3, 5])
    if rng.random() < 0.5:
        # vertex heights of a column may vary when all its faces stay planar: translation along z of whole columns of
        # vertices by a plane (shear) is affine already; renumber the vertices instead
        perm = list(range(len(P)))
        rng.shuffle(perm)
        inv = np.argsort(perm)
        P = P[perm]
        cells = [(t, [int(inv[a]) for a in c]) for t, c in cells]
    if rng.random() < 0.5:
        rng.shuffle(cells)
    # equivalent vertex orders of the same oriented cell
    if rng.random() < 0.5:
        cells = [(t, rotate(rng, t, c)) for t, c in cells]
    return P, cells


ROT = {
    "tetra": [(0, 1, 2, 3), (1, 2, 0, 3), (2, 0, 1, 3), (0, 2, 3, 1), (3, 1, 0, 2)],
    "pyramid": [(0, 1, 2, 3, 4), (1, 2, 3, 0, 4), (2, 3, 0, 1, 4), (3, 0, 1, 2, 4)],
    "wedge": [(0, 1, 2, 3, 4, 5), (1, 2, 0, 4, 5, 3), (2, 0, 1, 5, 3, 4), (3, 5, 4, 0, 2, 1)],
    "hexahedron": [(0, 1, 2, 3, 4, 5, 6, 7), (1, 2, 3, 0, 5, 6, 7, 4), (4, 7, 6, 5, 0, 3, 2, 1), (0, 4, 5, 1, 3, 7, 6, 2)],
}


def rotate(rng, t, c):
    return [c[a] for a in rng.choice(ROT[t])]


def blocks(rng, cells, maxblocks=8, merge=None):
    """Consecutive blocks of cells of one type, in the given order (or grouped)."""
    if merge is None:
        merge = rng.random() < 0.6
    if merge:
        order = []
        for t, _ in cells:
            if t not in order:
                order.append(t)
        rng.shuffle(order)
        cells = [c for t in order for c in cells if c[0] == t]
    out = []
    for t, c in cells:
        if out and out[-1][0] == t and not (rng.random() < 0.02):
            out[-1][1].append(c)
        else:
            out.append((t, [c]))
    return [(t, np.array(c)) for t, c in out]


MATS = ["dfalt", "ROCK1", "sand", "CLAY ", "lmstn", "bound", "A", "SAND2", "10sd"]


def mesh(rng, kind=None, dims=None, materials=None, label_length=None, data=False, merge=None, warp=True, mirror=False):
    """A toughio.Mesh with materials, and the reference description."""
    P, cells = build(rng, kind, dims, warp)
    mirror = mirror and rng.random() < 0.15
    if mirror:  # the same mesh seen in a mirror: vertices of all cells in the other orientation
        k = rng.randrange(3)
        P[:, k] = -P[:, k]
    B = blocks(rng, cells, merge=merge)
    m = toughio.Mesh(P.copy(), [(t, c.copy()) for t, c in B])
    n = sum(len(c) for _, c in B)
    nm = materials or rng.choice([1, 2, 3])
    names = rng.sample(MATS, nm)
    ids = rng.sample(range(1, 12), nm)
    mat = np.array([rng.randrange(nm) for _ in range(n)])
    m.add_cell_data("material", np.array(ids)[mat])
    for i, k in zip(ids, names):
        m.field_data[k] = np.array([i, 3])
    if label_length or rng.random() < 0.25:
        m.label_length = label_length or rng.choice([5, 6, 7, 8, 9])
    if data:
        fill(rng, m)
    ref = {"points": P, "cells": [(t, list(map(int, c))) for t, b in B for c in b], "blocks": B,
           "materials": [names[i] for i in mat], "mirror": mirror}
    return m, ref


def fill(rng, m, cell=True, point=True):
    r = np.random.RandomState(rng.randrange(2 ** 31))
    if cell:
        for k in rng.sample(["PRES", "TEMP", "flag", "vec", "data 1"[:4]], rng.randint(1, 3)):
            a = r.normal(size=(m.n_cells, 3) if k == "vec" else m.n_cells) * 10.0 ** rng.randint(-6, 8)
            m.add_cell_data(k, r.randint(0, 9, m.n_cells) if k == "flag" else a)
    if point:
        for k in rng.sample(["disp", "u", "id"], rng.randint(1, 2)):
            a = r.normal(size=(m.n_points, 3) if k == "disp" else m.n_points) * 10.0 ** rng.randint(-6, 8)
            m.add_point_data(k, r.randint(0, 9, m.n_points) if k == "id" else a)


# ---------------------------------------------------------------------------
# Reference geometry
# ---------------------------------------------------------------------------
def polygon_vector(p):
    """Area vector of a planar polygon (shoelace about its first vertex)."""
    a = np.zeros(3)
    for i in range(1, len(p) - 1):
        a += np.cross(p[i] - p[0], p[i + 1] - p[0])
    return a / 2.0


def geometry(ref):
    """Per cell: centre, volume, faces (vertex tuples, area vector); per pair of cells: the common face."""
    P = ref["points"]
    C, V, F = [], [], []
    owner = {}
    for n, (t, c) in enumerate(ref["cells"]):
        x = P[c]
        ctr = x.mean(axis=0)
        vol, fs = 0.0, []
        for f in FACES[t]:
            ids = [c[a] for a in f]
            S = polygon_vector(P[ids])
            vol += S.dot(P[ids].mean(axis=0) - ctr) / 3.0
            fs.append((ids, S))
            owner.setdefault(frozenset(ids), []).append((n, len(fs) - 1))
        C.append(ctr)
        V.append(-vol if ref.get("mirror") else vol)
        F.append(fs)
    pairs = {}
    for k, v in owner.items():
        if len(v) == 2:
            pairs[(min(v[0][0], v[1][0]), max(v[0][0], v[1][0]))] = k
    return {"centers": np.array(C), "volumes": np.array(V), "faces": F, "pairs": pairs, "owner": owner}
