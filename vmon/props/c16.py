"""C16 - geometry of a mesh: every cell is the polyhedron its vertices say."""
import logging
import numpy as np
import toughio

from vmon.lib import genmesh, tio

RULE = ("Case = seeded conforming mesh (hexahedra, wedges, pyramids, tetrahedra, mixed; affinely warped, renumbered, shuffled, "
        "several blocks); centres, volumes, faces, areas, normals, connections and qualities compared with an independent "
        "polyhedron model (divergence theorem), and with a renumbered or moved copy. Distinct = cell types x cells x blocks.")
ASSUMPTIONS = ["planar faces, conforming, consistently oriented first-order cells (the sign of normals of mirrored cells is free), no duplicate points"]
REACH = {"cells": 5000, "faces": 20000, "connections": 5000, "type:tetra": 50, "type:pyramid": 50, "type:wedge": 50,
         "type:hexahedron": 50, "moved": 100, "edited": 100, "reordered": 30, "qualities": 100, "mirrored": 20, "large_connections": 60000}


def key(ids):
    return frozenset(int(i) for i in ids if i >= 0)


def compare(case, m, ref):
    G = genmesh.geometry(ref)
    n = len(ref["cells"])
    scale = np.abs(ref["points"]).max()
    size = np.array([np.ptp(ref["points"][c], axis=0).max() for _, c in ref["cells"]])
    case.check(m.n_cells == n and m.n_points == len(ref["points"]), "counts", lambda: "%d cells, %d points" % (m.n_cells, m.n_points))
    case.count("cells", n)
    c = case.call("centers", lambda: np.asarray(m.centers))
    case.check(c.shape == (n, 3) and np.abs(c - G["centers"]).max() <= 1e-11 * scale, "centers", lambda: "max error %g" % np.abs(c - G["centers"]).max())
    v = case.call("volumes", lambda: np.asarray(m.volumes))
    tol = 1e-10 * (size ** 3 + scale * size ** 2)
    case.check(v.shape == (n,) and (np.abs(v - G["volumes"]) <= tol).all(), "volumes", lambda: "cell %d (%s): %r, expected %r" % (
        worst(v, G["volumes"]), ref["cells"][worst(v, G["volumes"])][0], v[worst(v, G["volumes"])], G["volumes"][worst(v, G["volumes"])]))
    case.check(abs(v.sum() - G["volumes"].sum()) <= tol.sum(), "total-volume", "")
    # faces: same vertex sets, areas and normals aligned with them
    faces = case.call("faces", lambda: np.asarray(m.faces))
    areas = case.call("face_areas", lambda: m.face_areas)
    normals = case.call("face_normals", lambda: m.face_normals)
    conne = case.call("connections", lambda: np.asarray(m.connections))
    case.check(len(faces) == len(areas) == len(normals) == len(conne) == n, "face-counts", "")
    slot = []
    for i in range(n):
        want = {frozenset(f): S for f, S in G["faces"][i]}
        rows = [key(f) for f in faces[i] if (np.asarray(f) >= 0).any()]
        case.check(len(rows) == len(want) and set(rows) == set(want), "faces", lambda: "cell %d: %r / %r" % (i, rows, list(want)))
        case.check(len(areas[i]) == len(rows) and len(normals[i]) == len(rows), "face-counts", lambda: "cell %d" % i)
        s = {}
        for j, k in enumerate(rows):
            S = want[k]
            A = np.linalg.norm(S)
            e = 1e-9 * (A + scale * size[i])
            case.check(abs(areas[i][j] - A) <= e, "areas", lambda: "cell %d face %d: %r / %r" % (i, j, areas[i][j], A))
            case.check(abs(np.linalg.norm(normals[i][j]) - 1.0) <= 1e-9, "normals", lambda: "cell %d face %d: %r is no unit vector" % (i, j, normals[i][j]))
            S = -S if ref["mirror"] and np.dot(S, normals[i][j]) < 0 else S
            case.check(np.abs(np.asarray(normals[i][j]) * A - S).max() <= e, "normals", lambda: "cell %d (%s) face %d: %r / %r" % (
                i, ref["cells"][i][0], j, normals[i][j], S / A))
            # vertices of a face are in cyclic order
            ids = [int(a) for a in faces[i][j] if a >= 0]
            P = ref["points"]
            case.check(abs(np.linalg.norm(genmesh.polygon_vector(P[ids])) - A) <= e, "face-order", lambda: "cell %d face %d %r" % (i, j, ids))
            s[k] = j
            case.count("faces")
        slot.append(s)
    # connections: through the common face, in its slot, both ways; nothing else
    expected = np.full((n, conne.shape[1]), -1)
    for (a, b), k in G["pairs"].items():
        expected[a, slot[a][k]] = b
        expected[b, slot[b][k]] = a
        case.count("connections")
    case.check((conne == expected).all(), "connections", lambda: "cell %d: %r / %r" % (
        np.nonzero((conne != expected).any(axis=1))[0][0], conne[np.nonzero((conne != expected).any(axis=1))[0][0]],
        expected[np.nonzero((conne != expected).any(axis=1))[0][0]]))
    if n > 1 and (expected >= 0).any(axis=1).all():
        q = case.call("qualities", lambda: np.asarray(m.qualities))
        w = np.full(n, 2.0)
        for (a, b), k in G["pairs"].items():
            S = dict((frozenset(f), S) for f, S in G["faces"][a])[k]
            d = G["centers"][b] - G["centers"][a]
            w[a] = min(w[a], abs(S.dot(d)) / np.linalg.norm(S) / np.linalg.norm(d))
            w[b] = min(w[b], abs(S.dot(d)) / np.linalg.norm(S) / np.linalg.norm(d))
        case.check(q.shape == (n,) and np.abs(q - w).max() <= 1e-7, "qualities", lambda: "%r / %r" % (q[:6], w[:6]))
        case.count("qualities")
    return c, v


def worst(a, b):
    return int(np.argmax(np.abs(np.asarray(a) - b)))


def one(case, kind=None):
    rng = case.rng
    m, ref = genmesh.mesh(rng, kind, mirror=True)
    case.count("mirrored", int(ref["mirror"]))
    span = np.ptp(ref["points"], axis=0).max()
    snap = tio.snapshot([m.points, [tuple(c) for c in m.cells], m.cell_data])
    compare(case, m, ref)
    case.check(tio.snapshot([m.points, [tuple(c) for c in m.cells], m.cell_data]) == snap, "mesh-changed", "reading properties changed the mesh")
    for t, b in ref["blocks"]:
        case.count("type:%s" % t)
    case.check(list(np.asarray(m.materials)) == ref["materials"], "materials", lambda: "%r / %r" % (list(m.materials)[:5], ref["materials"][:5]))
    if rng.random() < 0.5:
        # the same mesh moved: everything follows
        case.count("moved")
        d = np.array([rng.uniform(-50, 50) for _ in range(3)]) * span
        m2 = toughio.Mesh(m.points + d, [(t, c.copy()) for t, c in ref["blocks"]])
        compare(case, m2, dict(ref, points=ref["points"] + d))
    if rng.random() < 0.5:
        # the mesh itself edited in place after its properties were read
        case.count("edited")
        d = np.array([rng.uniform(-50, 50) for _ in range(3)]) * span
        ref = dict(ref, points=ref["points"] + d)
        m.points[:] = ref["points"]
        if rng.random() < 0.5:
            b = rng.choice([b for _, b in m.cells])
            if len(b) > 1:
                i = list(range(len(b)))
                rng.shuffle(i)
                b[:] = b[i]
                ref["cells"] = [(c.type, x) for c in m.cells for x in c.data.tolist()]
                case.count("reordered")
        compare(case, m, ref)
    # near
    G = genmesh.geometry(ref)
    q = []
    for _ in range(4):
        i = rng.randrange(len(G["centers"]))
        q.append(G["centers"][i] + np.array([rng.gauss(0, 0.1) for _ in range(3)]) * span)
    d = np.linalg.norm(np.array(q)[:, None] - G["centers"][None], axis=2)
    got = case.call("near", m.near, rng.choice([list, np.array, tuple])(q))
    case.check(len(got) == 4 and all(d[i, g] <= d[i].min() * (1 + 1e-9) + 1e-9 * span for i, g in enumerate(got)), "near", lambda: "%r" % (got,))
    g = case.call("near", m.near, list(q[0]))
    case.check(np.ndim(g) == 0 and d[0, g] <= d[0].min() * (1 + 1e-9) + 1e-9 * span, "near", lambda: "%r" % (g,))
    # box filter
    x = G["centers"]
    scale = np.abs(ref["points"]).max()
    lo, hi = x.min(axis=0) - 0.1 * span, x.max(axis=0) + 0.1 * span
    for _ in range(3):
        kw, mask = {}, np.ones(len(x), dtype=bool)
        for a in range(3):
            if rng.random() < 0.5:
                o = rng.uniform(lo[a], hi[a])
                kw["xyz"[a] + "0"] = o
                mask &= x[:, a] >= o
                if rng.random() < 0.6:
                    w = rng.uniform(0, hi[a] - lo[a])
                    kw["d" + "xyz"[a]] = w
                    mask &= x[:, a] <= o + w
        got = case.call("filter", m.filter, "box", **kw) if rng.random() < 0.5 else case.call("filter", m.filter.box, **kw)
        edge = any(np.any(np.abs(x[:, "xyz".index(k[0])] - v) < 1e-9 * scale) for k, v in kw.items() if k.endswith("0"))
        if not edge:
            want = np.nonzero(mask)[0].tolist()
            near_edge = False
            for a in range(3):
                if "d" + "xyz"[a] in kw:
                    near_edge |= bool(np.any(np.abs(x[:, a] - kw["xyz"[a] + "0"] - kw["d" + "xyz"[a]]) < 1e-9 * scale))
            if not near_edge:
                case.check(np.asarray(got).tolist() == want, "filter", lambda: "%r: %r / %r" % (kw, np.asarray(got).tolist(), want))
                case.count("filtered")
    case.shape(tuple(t for t, _ in ref["blocks"])[:6], len(ref["cells"]))
    case.note = {"cells": len(ref["cells"]), "blocks": [t for t, _ in ref["blocks"]][:10]}


def large(case):
    """More cells than small integers can number."""
    rng = case.rng
    dims = [rng.choice([1, 2, 3]), rng.choice([3, 7, 11]), 0]
    dims[2] = 32768 // (dims[0] * dims[1]) + rng.randint(5, 300)
    rng.shuffle(dims)
    nx, ny, nz = dims
    P = np.stack(np.meshgrid(*[np.arange(k + 1.0) for k in dims], indexing="ij"), axis=-1).reshape(-1, 3) * [1.5, 0.5, 2.0]
    I, J, K = [a.ravel() for a in np.meshgrid(*[np.arange(k) for k in dims], indexing="ij")]
    v = lambda i, j, k: (i * (ny + 1) + j) * (nz + 1) + k
    cells = np.stack([v(I, J, K), v(I + 1, J, K), v(I + 1, J + 1, K), v(I, J + 1, K),
                      v(I, J, K + 1), v(I + 1, J, K + 1), v(I + 1, J + 1, K + 1), v(I, J + 1, K + 1)], axis=1)
    n = len(cells)
    cut = rng.choice([n, n, rng.randrange(1, n)])
    m = toughio.Mesh(P, [("hexahedron", c) for c in (cells[:cut], cells[cut:]) if len(c)])
    cell = lambda i, j, k: np.where((i >= 0) & (i < nx) & (j >= 0) & (j < ny) & (k >= 0) & (k < nz), (i * ny + j) * nz + k, -1)
    want = np.sort(np.stack([cell(I - 1, J, K), cell(I + 1, J, K), cell(I, J - 1, K), cell(I, J + 1, K), cell(I, J, K - 1), cell(I, J, K + 1)], axis=1), axis=1)
    got = case.call("connections", lambda: np.asarray(m.connections))
    case.check(got.shape == want.shape and (np.sort(got, axis=1) == want).all(), "connections", lambda: "%d cells: %d wrong rows" % (n, (np.sort(got, axis=1) != want).any(axis=1).sum()))
    case.count("large_connections", int((want >= 0).sum()))
    f = case.call("faces", lambda: np.asarray(m.faces))
    i = np.array([rng.randrange(n) for _ in range(200)] + [n - 1, cut - 1, cut % n])
    case.check(all({frozenset(a) for a in f[k].tolist()} == {frozenset(cells[k][list(a)].tolist()) for a in genmesh.FACES["hexahedron"]} for k in i), "faces", "faces of a large mesh")
    ctr = case.call("centers", lambda: np.asarray(m.centers))
    case.check(np.allclose(ctr, (np.stack([I, J, K], axis=1) + 0.5) * [1.5, 0.5, 2.0], rtol=1e-12), "centers", "centers of a large mesh")
    case.check(np.allclose(case.call("volumes", lambda: m.volumes), 1.5, rtol=1e-11), "volumes", "volumes of a large mesh")
    q = ctr[i] + 0.1
    case.check(np.array_equal(np.asarray(case.call("near", m.near, q[:20])), i[:20]), "near", "nearest cells of a large mesh")
    case.shape("large", tuple(dims), cut == n)
    case.note = {"dims": dims}


FAMILIES = {"mesh": (one, 600, 5000), "large": (large, 2, 8)}
