"""C19 - generated meshes fill exactly the asked domain, in the documented order."""
import logging

import numpy as np
import toughio

from vmon import core
from vmon.lib import genmesh, meshfile, tio

RULE = ("Case = seeded grid increments, origin, order, material and containers; every cell of the generated mesh compared with the box "
        "(ring, simplex) that closed forms give for its position in the documented order; exported connections of cylindrical meshes "
        "compared with analytic areas and distances; clouds of points triangulated (empty circumspheres, hull filled, no overlap) and "
        "voxelized. Distinct = maker x dimensions x order x containers.")
ASSUMPTIONS = ["positive increments", "points to triangulate are in general position",
               "points to voxelize are the centres of a grid that starts at the given origin",
               "along an axis with one coordinate only, a voxelized grid has one cell of size 1"]
REACH = {"large": 30, "cells": 20000, "layer": 200, "column": 200, "origin": 200, "cylindric": 100, "exported": 50, "triangulated": 50, "voxelized": 100,
         "refused": 100, "quads": 50, "adjacent": 5000}


def increments(rng, n):
    k = rng.random()
    if k < 0.25:
        d = [rng.choice([1, 2, 5])] * n
    elif k < 0.5:
        d = [rng.randint(1, 9) for _ in range(n)]
    elif k < 0.9:
        d = [rng.uniform(0.1, 30.0) for _ in range(n)]
    else:
        d = [10.0 ** rng.uniform(-3, 4) for _ in range(n)]
    return d


def container(rng, d):
    k = rng.random()
    if k < 0.4:
        return list(d)
    if k < 0.6:
        return tuple(d)
    if k < 0.8:
        return np.array(d)
    return np.array(d, dtype=float)


def edges(d, o):
    return np.concatenate(([0.0], np.cumsum(np.array(d, dtype=float)))) + o


def order3(nx, ny, nz, layer):
    if layer:
        return [(i, j, k) for k in reversed(range(nz)) for j in range(ny) for i in range(nx)]
    return [(i, j, k) for i in range(nx) for j in range(ny) for k in reversed(range(nz))]


def check_boxes(case, m, X, Y, Z, layer, material, adjacency=True):
    nx, ny, nz = len(X) - 1, len(Y) - 1, len(Z) - 1
    n = nx * ny * nz
    case.check(m.n_cells == n and m.n_points == (nx + 1) * (ny + 1) * (nz + 1), "counts", lambda: "%d cells, %d points of a %dx%dx%d grid" % (
        m.n_cells, m.n_points, nx, ny, nz))
    case.check({c.type for c in m.cells} == {"hexahedron"}, "type", "")
    P = np.asarray(m.points, dtype=float)
    case.check(P.shape[1] == 3 and len(np.unique(np.round(P / (np.abs(P).max() + 1e-300), 15), axis=0)) == len(P) or len(np.unique(P, axis=0)) == len(P),
               "points", "points of a grid are not unique")
    scale = max(np.abs(X).max(), np.abs(Y).max(), np.abs(Z).max(), 1e-300)
    V = P[np.concatenate([c.data for c in m.cells])]
    ijk = np.array(order3(nx, ny, nz, layer))
    lo = np.column_stack((X[ijk[:, 0]], Y[ijk[:, 1]], Z[ijk[:, 2]]))
    hi = np.column_stack((X[ijk[:, 0] + 1], Y[ijk[:, 1] + 1], Z[ijk[:, 2] + 1]))
    e = 1e-12 * scale
    bad = np.nonzero((np.abs(V.min(axis=1) - lo) > e).any(axis=1) | (np.abs(V.max(axis=1) - hi) > e).any(axis=1))[0]
    case.check(not len(bad), "box", lambda: "cell %d of %dx%dx%d (layer=%r): %r-%r, expected %r-%r" % (
        bad[0], nx, ny, nz, layer, V[bad[0]].min(axis=0), V[bad[0]].max(axis=0), lo[bad[0]], hi[bad[0]]))
    case.count("cells", n)
    # the eight corners, in an order that makes a positively oriented hexahedron
    for q in range(n):
        s = {tuple((V[q][a] - lo[q] > (hi[q] - lo[q]) / 2).astype(int)) for a in range(8)}
        case.check(len(s) == 8, "corners", lambda: "cell %d: %r" % (q, V[q]))
        w = V[q]
        case.check(np.dot(np.cross(w[1] - w[0], w[3] - w[0]), w[4] - w[0]) > 0, "orientation", lambda: "cell %d: %r" % (q, w))
        for f in genmesh.FACES["hexahedron"]:
            flat = np.ptp(w[list(f)], axis=0)
            case.check((flat <= e).sum() >= 1, "corners", lambda: "cell %d: face %r is not a rectangle" % (q, w[list(f)]))
    vol = np.prod(hi - lo, axis=1)
    v = np.asarray(case.call("volumes", lambda: m.volumes))
    case.check(np.allclose(v, vol, rtol=1e-9, atol=1e-12 * scale * np.max(hi - lo) ** 2), "volumes", lambda: "%r / %r" % (v[:4], vol[:4]))
    case.check(np.allclose(np.asarray(m.centers), (lo + hi) / 2, rtol=0, atol=4 * e), "centers", "")
    case.check([str(x) for x in m.materials] == [material] * n, "material", lambda: "%r" % list(m.materials)[:3])
    case.check([k for k in m.field_data] == [material] and int(m.field_data[material][1]) == 3, "field-data", lambda: "%r" % (m.field_data,))
    if adjacency and n <= 200:
        C = np.asarray(case.call("connections", lambda: m.connections))
        at = {tuple(x): q for q, x in enumerate(ijk.tolist())}
        for q, (i, j, k) in enumerate(ijk.tolist()):
            want = sorted(at[x] for x in [(i - 1, j, k), (i + 1, j, k), (i, j - 1, k), (i, j + 1, k), (i, j, k - 1), (i, j, k + 1)] if x in at)
            case.check(sorted(int(x) for x in C[q] if x >= 0) == want, "adjacency", lambda: "cell %d: %r / %r" % (q, C[q], want))
            case.count("adjacent")
    return lo, hi


def material_of(rng):
    return rng.choice(["dfalt", "ROCK1", "sand", "A", "my own"])


def structured(case):
    logging.disable(logging.CRITICAL)
    rng = case.rng
    two = rng.random() < 0.25
    dims = [rng.choice([1, 2, 3, 4, 6]) for _ in range(3)]
    if rng.random() < 0.03:
        dims[rng.randrange(3)] = rng.randint(20, 60)
    if getattr(rng, "big", False):
        dims = list(rng.choice([(11, 10, 10), (1, 1, 1100), (1040, 1, 1), (2, 600, 1), (32, 33, 2)]))
    d = [increments(rng, n) for n in dims]
    layer = rng.random() < 0.5
    mat = material_of(rng)
    kw = {}
    o = [0.0, 0.0, -float(np.sum(np.array(d[2], dtype=float)))] if not two else [0.0, 0.0]
    if rng.random() < 0.6:
        o = [rng.choice([rng.randint(-50, 50), rng.uniform(-1e4, 1e4), 0]) for _ in o]
        kw["origin"] = container(rng, o) if any(isinstance(x, float) for x in o) or rng.random() < 0.5 else rng.choice([list, tuple])(o)
        case.count("origin")
    if mat != "dfalt" or rng.random() < 0.3:
        kw["material"] = mat
    if layer or rng.random() < 0.3:
        kw["layer"] = layer
    case.count("layer" if layer else "column")
    args = [container(rng, x) for x in (d[:2] if two else d)]
    snap = tio.snapshot([args, kw])
    m = case.call("structured_grid", toughio.meshmaker.structured_grid, *args, **kw)
    case.check(tio.snapshot([args, kw]) == snap, "arguments-changed", "")
    if not two:
        check_boxes(case, m, edges(d[0], o[0]), edges(d[1], o[1]), edges(d[2], o[2]), layer, mat)
    else:
        X, Y = edges(d[0], o[0]), edges(d[1], o[1])
        nx, ny = dims[:2]
        case.count("quads")
        case.check(m.n_cells == nx * ny and m.n_points == (nx + 1) * (ny + 1) and {c.type for c in m.cells} == {"quad"}, "counts", "")
        P = np.asarray(m.points)
        case.check(P.shape[1] == 3 and (P[:, 2] == 0).all() and len(np.unique(P, axis=0)) == len(P), "points", lambda: "%r" % P[:3])
        V = P[np.concatenate([c.data for c in m.cells])][:, :, :2]
        ij = [(i, j) for j in range(ny) for i in range(nx)] if layer else [(i, j) for i in range(nx) for j in range(ny)]
        e = 1e-12 * max(np.abs(X).max(), np.abs(Y).max(), 1e-300)
        for q, (i, j) in enumerate(ij):
            w = V[q]
            case.check(np.abs(w.min(axis=0) - [X[i], Y[j]]).max() <= e and np.abs(w.max(axis=0) - [X[i + 1], Y[j + 1]]).max() <= e, "box",
                       lambda: "quad %d: %r" % (q, w))
            w = w - w[0]
            a = 0.5 * sum(w[k - 1][0] * w[k][1] - w[k][0] * w[k - 1][1] for k in range(4))
            s = (X[i + 1] - X[i]) * (Y[j + 1] - Y[j])
            case.check(abs(a - s) <= 1e-9 * s + e * (abs(X[i + 1]-X[i]) + abs(Y[j + 1] - Y[j])), "quad-area", lambda: "%r / %r" % (a, s))
            case.count("cells")
        case.check([str(x) for x in m.materials] == [mat] * len(ij), "material", "")
        # extruded, it is the 3D grid with these columns
        if rng.random() < 0.6:
            dz = increments(rng, rng.choice([1, 2, 3]))
            m3 = m.extrude_to_3d(height=container(rng, dz) if len(dz) > 1 or rng.random() < 0.5 else dz[0], axis=2, inplace=False)
            Z = edges(dz, 0.0)
            C = np.asarray(m3.points)[np.concatenate([c.data for c in m3.cells])]
            want = sorted((round(X[i] + X[i + 1], 6), round(Y[j] + Y[j + 1], 6), round(Z[k] + Z[k + 1], 6)) for i in range(nx) for j in range(ny) for k in range(len(dz)))
            got = sorted(tuple(np.round(w.min(axis=0) + w.max(axis=0), 6)) for w in C)
            case.check(len(got) == len(want) and np.allclose(np.array(got), np.array(want), rtol=1e-9, atol=2e-6), "extruded", "")
            case.check(np.isclose(np.sum(m3.volumes), (X[-1] - X[0]) * (Y[-1] - Y[0]) * Z[-1], rtol=1e-6), "extruded", "")
    case.shape("structured", two, tuple(dims), layer, tuple(type(a).__name__ for a in args))
    case.note = {"increments": [list(map(float, x)) for x in d], "options": repr(kw), "two": two}


def cylindric(case):
    logging.disable(logging.CRITICAL)
    rng = case.rng
    nr, nz = rng.choice([1, 2, 3, 5, 12]), rng.choice([1, 2, 3, 5])
    if getattr(rng, "big", False):
        nr, nz = rng.choice([(33, 32), (1010, 1), (1, 1010), (120, 10)])
    dr, dz = increments(rng, nr), increments(rng, nz)
    layer = rng.random() < 0.5
    mat = material_of(rng)
    kw = {"layer": layer} if layer or rng.random() < 0.3 else {}
    if mat != "dfalt":
        kw["material"] = mat
    oz = -float(np.sum(np.array(dz, dtype=float)))
    if rng.random() < 0.5:
        oz = rng.choice([rng.randint(-100, 100), rng.uniform(-1e3, 1e3), 0])
        kw["origin_z"] = oz
    a, b = container(rng, dr), container(rng, dz)
    snap = tio.snapshot([a, b])
    m = case.call("cylindric_grid", toughio.meshmaker.cylindric_grid, a, b, **kw)
    case.check(tio.snapshot([a, b]) == snap, "arguments-changed", "")
    case.count("cylindric")
    case.count("layer" if layer else "column")
    R, Z = edges(dr, 0.0), edges(dz, oz)
    n = nr * nz
    ik = [(i, k) for k in reversed(range(nz)) for i in range(nr)] if layer else [(i, k) for i in range(nr) for k in reversed(range(nz))]
    C = np.asarray(m.centers)
    case.check(C.shape == (n, 3), "counts", "")
    want = np.array([[(R[i] + R[i + 1]) / 2, 0.0, (Z[k] + Z[k + 1]) / 2] for i, k in ik])
    e = 1e-11 * max(R[-1], np.abs(Z).max())
    case.check(np.abs(C - want).max() <= e, "centers", lambda: "%r / %r" % (C[:3], want[:3]))
    vol = np.array([np.pi * (R[i + 1] ** 2 - R[i] ** 2) * (Z[k + 1] - Z[k]) for i, k in ik])
    tol = 1e-9
    v = np.asarray(case.call("volumes", lambda: m.volumes))
    case.check(v.shape == (n,) and np.allclose(v, vol, rtol=1e-7), "volumes", lambda: "%r / %r" % (v[:4], vol[:4]))
    A, N, F = case.call("faces", lambda: (m.face_areas, m.face_normals, m.connections))
    at = {x: q for q, x in enumerate(ik)}
    case.count("cells", n)
    for q, (i, k) in enumerate(ik):
        h = Z[k + 1] - Z[k]
        s = np.pi * (R[i + 1] ** 2 - R[i] ** 2)
        for f in range(6):
            x = np.asarray(N[q][f])
            if abs(x[2]) > 0.9:
                w, nb = s, at.get((i, k + (1 if x[2] > 0 else -1)))
            elif abs(x[0]) > 0.9:
                r = R[i + 1] if x[0] > 0 else R[i]
                w, nb = 2 * np.pi * r * h, at.get((i + (1 if x[0] > 0 else -1), k))
            else:
                w, nb = (R[i + 1] - R[i]) * h, None
            case.check(abs(A[q][f] - w) <= 1e-7 * w + 1e-12, "areas", lambda: "cell %d face %r: %r / %r" % (q, x, A[q][f], w))
            case.check(int(F[q][f]) == (-1 if nb is None else nb), "adjacency", lambda: "cell %d face %r: %r / %r" % (q, x, F[q][f], nb))
            case.count("adjacent")
    case.check([str(x) for x in m.materials] == [mat] * n, "material", "")
    if n > 1 and R[-1] < 1e4 and min(dr) > 1e-2 and np.abs(Z).max() < 1e5:
        # exported mesh: analytic areas and distances to the rings
        f = case.path("MESH")
        case.call("write_tough", m.write_tough, f)
        try:
            B = meshfile.parse(tio.read_text(f), 5)
            E, K = meshfile.elements(B["ELEME"], 5), meshfile.connections(B["CONNE"], 5)
        except (ValueError, KeyError) as exc:
            case.check(False, "records", str(exc))
        L = [str(x) for x in m.labels]
        case.check([x["label"] for x in E] == L and all(abs(x["volume"] - w) <= 5.1e-5 * w for x, w in zip(E, vol)), "exported-volumes", "")
        case.check(len(K) == nr * (nz - 1) + nz * (nr - 1), "exported-connections", lambda: "%d" % len(K))
        for c in K:
            (i, k), (j, l) = ik[L.index(c["labels"][0])], ik[L.index(c["labels"][1])]
            case.check((abs(i - j), abs(k - l)) in ((0, 1), (1, 0)), "exported-connections", lambda: "%r" % (c,))
            if i == j:
                w = np.pi * (R[i + 1] ** 2 - R[i] ** 2)
                d = (Z[k + 1] - Z[k]) / 2, (Z[l + 1] - Z[l]) / 2
                g = -1.0 if l > k else 1.0
            else:
                w = 2 * np.pi * R[max(i, j)] * (Z[k + 1] - Z[k])
                d = (R[i + 1] - R[i]) / 2, (R[j + 1] - R[j]) / 2
                g = 0.0
            e = 1e-8 * max(R[-1], np.abs(Z).max())
            case.check(abs(c["area"] - w) <= 5.2e-5 * w, "exported-area", lambda: "%r / %r" % (c, w))
            case.check(abs(c["d"][0] - d[0]) <= 5.2e-5 * d[0] + e and abs(c["d"][1] - d[1]) <= 5.2e-5 * d[1] + e, "exported-distance", lambda: "%r / %r" % (c, d))
            case.check(abs(c["beta"] - g) <= 1e-6, "exported-angle", lambda: "%r / %r" % (c, g))
        case.count("exported")
    case.shape("cylindric", nr, nz, layer)
    case.note = {"dr": list(map(float, dr)), "dz": list(map(float, dz)), "options": repr(kw)}


def circum(T):
    A = 2 * (T[1:] - T[0])
    b = (T[1:] ** 2).sum(axis=1) - (T[0] ** 2).sum()
    c = np.linalg.solve(A, b)
    return c, np.linalg.norm(c - T[0])


def cloud(case):
    """triangulate"""
    logging.disable(logging.CRITICAL)
    from scipy.spatial import ConvexHull

    rng = case.rng
    dim = rng.choice([2, 3])
    n = rng.randint(dim + 2, 25) if not getattr(rng, "big", False) else rng.choice([300, 600])
    P = np.array([[rng.uniform(-50, 50) for _ in range(dim)] for _ in range(n)])
    mat = material_of(rng)
    arg = rng.choice([P, P.tolist(), tuple(map(tuple, P.tolist()))])
    m = case.call("triangulate", toughio.meshmaker.triangulate, arg, **({"material": mat} if mat != "dfalt" else {}))
    Q = np.asarray(m.points)
    case.check(len(Q) == n and np.array_equal(Q[:, :dim], P), "points", "")
    case.check({c.type for c in m.cells} == {"triangle" if dim == 2 else "tetra"}, "type", "")
    cells = np.concatenate([c.data for c in m.cells])
    case.check(set(cells.ravel().tolist()) == set(range(n)), "unused-points", "")
    total = 0.0
    for t in cells:
        T = P[t]
        total += abs(np.linalg.det(T[1:] - T[0])) / (2 if dim == 2 else 6)
        try:
            c, r = circum(T)
        except np.linalg.LinAlgError:
            case.check(False, "flat-cell", "%r" % T)
        if r < 1e6:
            d = np.linalg.norm(P - c, axis=1)
            case.check((d >= r * (1 - 1e-6)).all(), "not-delaunay", lambda: "%r" % T)
    hull = ConvexHull(P).volume
    case.check(abs(total - hull) <= 1e-9 * hull, "fill", lambda: "cells fill %r of %r" % (total, hull))
    case.check([str(x) for x in m.materials] == [mat] * len(cells), "material", "")
    if dim == 3:
        case.check(abs(np.sum(m.volumes) - hull) <= 1e-9 * hull, "volumes", "")
    case.count("triangulated")
    case.shape("cloud", dim, n, type(arg).__name__)


def voxels(case):
    logging.disable(logging.CRITICAL)
    rng = case.rng
    dims = [rng.choice([1, 2, 3, 5]) for _ in range(3)]
    if getattr(rng, "big", False):
        dims = list(rng.choice([(11, 10, 10), (1, 3, 400), (105, 10, 1)]))
    d = [increments(rng, k) if k > 1 else [1.0] for k in dims]
    d = [[min(max(float(y), 0.05), 500.0) for y in x] for x in d]
    o = [rng.choice([0.0, rng.uniform(-1000, 1000)]) for _ in range(3)]
    E = [edges(x, y) for x, y in zip(d, o)]
    c = [(e[1:] + e[:-1]) / 2 for e in E]
    pts = [[x, y, z] for x in c[0] for y in c[1] for z in c[2]]
    rng.shuffle(pts)
    layer = rng.random() < 0.5
    mat = material_of(rng)
    kw = {"layer": layer} if layer or rng.random() < 0.3 else {}
    if mat != "dfalt":
        kw["material"] = mat
    arg = rng.choice([list, tuple, np.array])(pts)
    if rng.random() < 0.3:
        how = rng.choice(["origin", "folded", "missing", "extra", "twice"])
        axes = [a for a in range(3) if dims[a] > 1]
        if how == "origin" and axes:
            a = rng.choice(axes)
            o2 = list(o)
            o2[a] = c[a][0] + rng.choice([0.0, 1.0])
            case.refused("voxelize", ValueError, toughio.meshmaker.voxelize, arg, o2, **kw)
        elif how == "folded" and axes:
            # no cell boundaries can lie midway: the second one would come before the first
            a = rng.choice(axes)
            o2 = list(o)
            o2[a] = 2 * c[a][0] - c[a][1] - rng.choice([0.5, 1.0, 7.0]) * (c[a][1] - c[a][0])
            case.refused("voxelize", ValueError, toughio.meshmaker.voxelize, arg, o2, **kw)
        elif how == "missing" and len(axes) >= 2:
            case.refused("voxelize", ValueError, toughio.meshmaker.voxelize, pts[1:], o, **kw)
        elif how == "extra":
            case.refused("voxelize", ValueError, toughio.meshmaker.voxelize, pts + [[x + 1234.5 for x in pts[0]]], o, **kw)
        elif how == "twice" and len(axes) >= 2:
            case.refused("voxelize", ValueError, toughio.meshmaker.voxelize, pts[1:] + [pts[-1]], o, **kw)
    snap = tio.snapshot([arg, o])
    m = case.call("voxelize", toughio.meshmaker.voxelize, arg, rng.choice([list, tuple, np.array])(o), **kw)
    case.check(tio.snapshot([arg, o]) == snap, "arguments-changed", "")
    scale = max(np.abs(e).max() for e in E)
    if all(min(x) > 1e-9 * scale for x in d):
        check_boxes(case, m, *E, layer=layer, material=mat)
    case.count("voxelized")
    case.count("layer" if layer else "column")
    case.shape("voxels", tuple(dims), layer)
    case.note = {"increments": d, "origin": o}


def bad(case):
    rng = case.rng
    mm = toughio.meshmaker
    which = rng.choice(["structured", "cylindric", "triangulate", "voxelize"])
    w = rng.choice([1.0, "abc", None, {"a": 1}])
    if which == "structured":
        args, kw = [[1.0, 2.0], [1.0], [3.0]], {}
        k = rng.randrange(5)
        if k < 3:
            if k == 2 and w is None:
                w = 3
            args[k] = w
            case.refused(which, TypeError, mm.structured_grid, *args, **kw)
        elif k == 3:
            case.refused(which, TypeError, mm.structured_grid, *args, material=rng.choice([1, None, ["a"]]))
        else:
            case.refused(which, ValueError, mm.structured_grid, *args, origin=rng.choice([[0.0, 1.0], [1.0] * 4, 3.0, "abc"]))
    elif which == "cylindric":
        k = rng.randrange(5)
        if k == 0:
            case.refused(which, TypeError, mm.cylindric_grid, w, [1.0])
        elif k == 1:
            case.refused(which, TypeError, mm.cylindric_grid, [1.0], w)
        elif k == 2:
            case.refused(which, TypeError, mm.cylindric_grid, [1.0], [1.0], origin_z=rng.choice(["a", [1.0]]))
        elif k == 3:
            x = [rng.uniform(1, 3) for _ in range(3)]
            x[rng.randrange(3)] = rng.choice([0.0, -1.0])
            case.refused(which, ValueError, mm.cylindric_grid, *rng.choice([(x, [1.0]), ([1.0], x)]))
        else:
            case.refused(which, TypeError, mm.cylindric_grid, [1.0], [1.0], material=1)
    elif which == "triangulate":
        if rng.random() < 0.4:
            case.refused(which, TypeError, mm.triangulate, w)
        elif rng.random() < 0.5:
            case.refused(which, ValueError, mm.triangulate, rng.choice([[1.0, 2.0], [[1.0]] * 4, [[1.0] * 4] * 6]))
        else:
            case.refused(which, TypeError, mm.triangulate, [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]], material=3)
    else:
        if rng.random() < 0.5:
            case.refused(which, TypeError, mm.voxelize, w, [0.0] * 3)
        else:
            case.refused(which, ValueError, mm.voxelize, [1.0, 2.0, 3.0], [0.0] * 3)
    case.shape("bad", which)


SCALE = 6  # cases of the quick tier are this many times those listed
FAMILIES = {"large_structured": (core.large(structured), 16, 160), "large_cylindric": (core.large(cylindric), 8, 80), "large_cloud": (core.large(cloud), 8, 80), "large_voxels": (core.large(voxels), 8, 80),
            "structured": (structured, 900, 9000), "cylindric": (cylindric, 400, 4000), "cloud": (cloud, 200, 3000),
            "voxels": (voxels, 500, 5000), "bad": (bad, 150, 600)}
