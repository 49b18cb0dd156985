"""C22 - converted meshes are the same mesh."""
import logging
import os

import numpy as np
import toughio

from vmon import core
from vmon.lib import genmesh, tio
from vmon.props import c20

RULE = ("Case = seeded mesh (2D and 3D cells of every type, any number of blocks, scalar/vector/integer data, materials and unused names) converted to meshio or "
        "pyvista, compared there cell by cell, converted back, compared again; meshes built directly in the other library (UniformGrid, RectilinearGrid, StructuredGrid "
        "with pixels and voxels, meshio meshes with the material keys of its formats) converted from it; then edits on one side with the other side watched; "
        "files written by the library and read by meshio, or the reverse. Distinct = direction x cell types x data shapes x edits.")
ASSUMPTIONS = ["to_pyvista keeps data and cells, not names of materials (it has no place for them)", "point data become double precision in pyvista, as documented by the code"]
REACH = {"large": 30, "groups": 200, "msh": 60, "shared number": 150, "meshio": 150, "pyvista": 150, "edits": 300, "voxel": 40, "pixel": 20, "files": 60, "rows": 20000, "default_material": 30}


def flat(m):
    return [(c[0], [int(a) for a in r]) for c in ((c.type, c.data) for c in m.cells) for r in np.asarray(c[1])]


def gen(case, shapes=((9,),)):
    rng = case.rng
    logging.disable(logging.CRITICAL)
    if rng.random() < 0.3:
        P, cells, axis = c20.flat_mesh(rng)
        if rng.random() < 0.4:
            P, cells = np.asarray(P), cells + [("line", [cells[0][1][0], cells[0][1][1]])]
    else:
        P, cells = genmesh.build(rng, dims=[rng.choice([1, 2, 3]) for _ in range(3)])
    B = genmesh.blocks(rng, cells)
    if rng.random() < 0.2:
        B = [(t, np.asarray(c, dtype=rng.choice([np.int32, np.int64]))) for t, c in B]
    m = toughio.Mesh(np.array(P), [(t, c.copy()) for t, c in B])
    names = rng.sample(genmesh.MATS, rng.choice([1, 2, 3]))
    ids = rng.sample(range(1, 12), len(names))
    if rng.random() < 0.8:
        m.add_cell_data("material", np.array(ids)[np.array([rng.randrange(len(names)) for _ in range(m.n_cells)])])
        for i, k in zip(ids, names):
            m.field_data[k] = np.array([i, 3])
    if rng.random() < 0.8:
        genmesh.fill(rng, m)
    if rng.random() < 0.25:
        r = case.np_rng()
        m.add_cell_data("ten", r.normal(size=(m.n_cells,) + rng.choice(shapes)))
        m.add_point_data("pten", r.normal(size=(m.n_points,) + rng.choice(shapes)))
        case.count("tensor")
    return m


def blocks_eq(case, a, b, what, exact=True):
    case.check(flat(a) == flat(b), "cells", lambda: "%s: cells %r / %r" % (what, flat(a)[:3], flat(b)[:3]))
    if exact:
        case.check([(c.type, len(c.data)) for c in a.cells] == [(c.type, len(c.data)) for c in b.cells], "blocks", lambda: "%s: blocks" % what)


def arr_eq(case, kind, what, k, v, w, dtype=True):
    v, w = np.asarray(v), np.asarray(w)
    case.check(v.shape == w.shape and np.array_equal(v, w), kind, lambda: "%s: %s is %r, was %r" % (what, k, w[:6], v[:6]))
    if dtype:
        case.check(v.dtype.kind == w.dtype.kind, kind, lambda: "%s: %s is %s, was %s" % (what, k, w.dtype, v.dtype))
    case.count("rows", len(v))


def point3(P):
    P = np.asarray(P, dtype=float)
    return P if P.shape[1] == 3 else np.hstack((P, np.zeros((len(P), 1))))


def edits(case, m, watch, what):
    """Edit ``m`` through the API; the other mesh must stay as it is."""
    rng = case.rng
    snap = watch()
    n = rng.randint(1, 5)
    for _ in range(n):
        k = rng.choice(["mat", "mat", "add", "padd", "up", "down", "prune", "extrude"])
        if k == "mat" and "material" in m.cell_data and len(m.cell_data["material"]) == m.n_cells:
            case.call("set_material", m.set_material, rng.choice(genmesh.MATS + ["zz"]), rng.sample(range(m.n_cells), rng.randint(1, m.n_cells)))
        elif k == "add":
            m.add_cell_data(rng.choice(["PRES", "TEMP", "new"]), np.arange(m.n_cells))
        elif k == "padd":
            m.add_point_data(rng.choice(["u", "new"]), np.arange(m.n_points))
        elif k == "up" and {c.type for c in m.cells} <= set(genmesh.FACES) and len(set(np.concatenate([np.ravel(c.data) for c in m.cells]))) == m.n_points:
            case.call("cell_data_to_point_data", m.cell_data_to_point_data)
        elif k == "down":
            case.call("point_data_to_cell_data", m.point_data_to_cell_data)
        elif k == "prune":
            case.call("prune_duplicates", m.prune_duplicates)
        elif k == "extrude" and {c.type for c in m.cells} <= {"triangle", "quad"}:
            ax = [i for i in range(np.asarray(m.points).shape[1]) if len(set(np.asarray(m.points)[:, i])) == 1]
            if np.asarray(m.points).shape[1] == 2 or ax:
                case.call("extrude_to_3d", m.extrude_to_3d, 1.0, ax[0] if ax and np.asarray(m.points).shape[1] == 3 else 2)
        case.count("edits")
        case.check(watch() == snap, "aliasing", lambda: "%s: %s changed the other mesh" % (what, k))


def meshio_image(x):
    return tio.snapshot([np.asarray(x.points), [(c.type, np.asarray(c.data)) for c in x.cells], x.point_data, x.cell_data, x.field_data,
                         x.point_sets, x.cell_sets])


def pv_image(x):
    return tio.snapshot([np.array(x.points), np.array(x.cells), np.array(x.celltypes), {k: np.array(v) for k, v in x.point_arrays.items()},
                         {k: np.array(v) for k, v in x.cell_arrays.items()}])


def to_meshio(case):
    rng = case.rng
    m = gen(case, [(3, 3), (2,), (2, 1, 2), (9,), (1,)])
    before = c20.image(m)
    x = case.call("to_meshio", m.to_meshio)
    case.check(c20.image(m) == before, "source-changed", "to_meshio changed the mesh")
    arr_eq(case, "points", "to_meshio", "points", m.points, x.points)
    blocks_eq(case, m, x, "to_meshio")
    case.check(set(x.cell_data) == set(m.cell_data) and set(x.point_data) == set(m.point_data), "keys", lambda: "to_meshio: %r %r" % (sorted(x.cell_data), sorted(x.point_data)))
    for k, v in m.cell_data.items():
        case.check([len(a) for a in x.cell_data[k]] == [len(c.data) for c in m.cells], "blocks", lambda: "to_meshio: data %s" % k)
        arr_eq(case, "cell-data", "to_meshio", k, v, np.concatenate(x.cell_data[k]))
    for k, v in m.point_data.items():
        arr_eq(case, "point-data", "to_meshio", k, v, x.point_data[k])
    case.check({k: list(map(int, v)) for k, v in x.field_data.items()} == {k: list(map(int, v)) for k, v in m.field_data.items()}, "field-data", lambda: "to_meshio: %r" % x.field_data)
    ximg = meshio_image(x)
    name = rng.choice(["dfalt", "dfalt", "rocks"])
    b = case.call("from_meshio", toughio.from_meshio, x, **({} if name == "dfalt" else {"material": name}))
    case.check(meshio_image(x) == ximg, "source-changed", "from_meshio changed its argument")
    compare_back(case, m, b, "meshio", name)
    if rng.random() < 0.5:
        edits(case, b, lambda: (meshio_image(x), c20.image(m)), "edit of from_meshio(to_meshio(m))")
    else:
        edits(case, m, lambda: meshio_image(x), "edit of m after to_meshio")
    case.count("meshio")
    case.shape("meshio", sorted({c.type for c in m.cells}), len(m.cells), sorted(m.cell_data), sorted(m.point_data))
    case.note = {"cells": m.n_cells, "blocks": len(m.cells), "cell_data": sorted(m.cell_data)}


def compare_back(case, m, b, what, name, pv=False):
    case.check(np.array_equal(point3(b.points), point3(m.points)), "points", "%s and back: points" % what)
    blocks_eq(case, m, b, what + " and back", exact=not pv)
    want = set(m.cell_data) | {"material"}
    case.check(set(b.cell_data) == want and set(b.point_data) == set(m.point_data), "keys", lambda: "%s and back: %r %r" % (what, sorted(b.cell_data), sorted(b.point_data)))
    for k, v in m.cell_data.items():
        arr_eq(case, "cell-data", what + " and back", k, v, b.cell_data[k])
    for k, v in m.point_data.items():
        arr_eq(case, "point-data", what + " and back", k, v, b.point_data[k], dtype=not pv)
    if "material" in m.cell_data:
        if not pv:
            case.check([str(a) for a in b.materials] == [str(a) for a in m.materials], "materials", lambda: "%s and back: %r" % (what, b.materials))
            case.check({k: list(map(int, v)) for k, v in b.field_data.items()} == {k: list(map(int, v)) for k, v in m.field_data.items()}, "field-data", lambda: "%s" % what)
    else:
        case.check([str(a) for a in b.materials] == [name] * m.n_cells, "default-material", lambda: "%s: materials %r" % (what, b.materials))
        case.count("default_material")


def to_pyvista(case):
    rng = case.rng
    m = gen(case, [(2,), (9,), (6,)])
    before = c20.image(m)
    x = case.call("to_pyvista", m.to_pyvista)
    case.check(c20.image(m) == before, "source-changed", "to_pyvista changed the mesh")
    case.check(np.array_equal(np.asarray(x.points, dtype=float), point3(m.points)), "points", "to_pyvista: points")
    got = []
    for i in range(x.n_cells):
        c = x.GetCell(i)
        got.append((c.GetCellType(), [int(c.GetPointId(j)) for j in range(c.GetNumberOfPoints())]))
    vt = {"line": 3, "triangle": 5, "quad": 9, "tetra": 10, "hexahedron": 12, "wedge": 13, "pyramid": 14}
    want = [(vt[t], c) for t, c in flat(m)]
    case.check(got == want, "cells", lambda: "to_pyvista: %r / %r" % (got[:3], want[:3]))
    for k, v in m.cell_data.items():
        case.check(k in x.cell_arrays.keys(), "keys", lambda: "to_pyvista: %r" % x.cell_arrays.keys())
        arr_eq(case, "cell-data", "to_pyvista", k, v, np.asarray(x.cell_arrays[k]))
    for k, v in m.point_data.items():
        case.check(k in x.point_arrays.keys(), "keys", lambda: "to_pyvista: %r" % x.point_arrays.keys())
        arr_eq(case, "point-data", "to_pyvista", k, v, np.asarray(x.point_arrays[k]), dtype=False)
    img = pv_image(x)
    name = rng.choice(["dfalt", "rocks"])
    b = case.call("from_pyvista", toughio.from_pyvista, x, **({} if name == "dfalt" else {"material": name}))
    case.check(pv_image(x) == img, "source-changed", "from_pyvista changed its argument")
    compare_back(case, m, b, "pyvista", name, pv=True)
    if rng.random() < 0.5:
        edits(case, b, lambda: (pv_image(x), c20.image(m)), "edit of from_pyvista(to_pyvista(m))")
    else:
        edits(case, m, lambda: pv_image(x), "edit of m after to_pyvista")
    case.count("pyvista")
    case.shape("pyvista", sorted({c.type for c in m.cells}), len(m.cells), sorted(m.cell_data), sorted(m.point_data))


def from_pyvista(case):
    """Grids of pyvista with voxels, pixels, hexahedra and mixed cells."""
    import pyvista

    rng = case.rng
    logging.disable(logging.CRITICAL)
    r = case.np_rng()
    k = rng.choice(["uniform", "uniform", "plane", "rectilinear", "structured"])
    d = [rng.choice([1, 2, 3]) for _ in range(3)]
    if k in ("uniform", "plane"):
        if k == "plane":
            d[rng.randrange(3)] = 0
        sp, o = [rng.uniform(0.1, 5) for _ in d], [rng.uniform(-5, 5) for _ in d]
        g = pyvista.UniformGrid(dims=(d[0] + 1, d[1] + 1, d[2] + 1), spacing=tuple(sp), origin=tuple(o))
        case.count("voxel" if k == "uniform" else "pixel")
    elif k == "rectilinear":
        g = pyvista.RectilinearGrid(*[np.concatenate(([rng.uniform(-5, 5)], [0] * n)).cumsum() if False else rng.uniform(-5, 5) + np.concatenate(([0.0], np.cumsum(genmesh.steps(rng, n)))) for n in d])
        case.count("voxel")
    else:
        X = [rng.uniform(-5, 5) + np.concatenate(([0.0], np.cumsum(genmesh.steps(rng, n)))) for n in d]
        g = pyvista.StructuredGrid(*np.meshgrid(*X, indexing="ij"))
    g = g.cast_to_unstructured_grid()
    keys = rng.sample(["PRES", "long name", "vec", "flag"], rng.randint(0, 3))
    for a in keys:
        g.cell_arrays[a] = r.randint(0, 9, g.n_cells) if a == "flag" else r.normal(size=(g.n_cells, 3) if a == "vec" else g.n_cells)
    pkeys = rng.sample(["u", "point name"], rng.randint(0, 2))
    for a in pkeys:
        g.point_arrays[a] = r.normal(size=g.n_points)
    mat = None
    if rng.random() < 0.5:
        mat = r.randint(1, 4, g.n_cells)
        g.cell_arrays["material"] = mat
    img = pv_image(g)
    name = rng.choice(["dfalt", "rock"])
    m = case.call("from_pyvista", toughio.from_pyvista, g, **({} if name == "dfalt" else {"material": name}))
    case.check(pv_image(g) == img, "source-changed", "from_pyvista changed its argument")
    P = np.asarray(m.points)
    case.check(np.array_equal(P, np.asarray(g.points)), "points", "from_pyvista: points")
    F = flat(m)
    case.check(len(F) == g.n_cells, "cells", lambda: "%d cells of %d" % (len(F), g.n_cells))
    for i, (t, c) in enumerate(F):
        gc = g.GetCell(i)
        ids = [int(gc.GetPointId(j)) for j in range(gc.GetNumberOfPoints())]
        case.check(sorted(ids) == sorted(c), "cells", lambda: "cell %d: %r / %r" % (i, ids, c))
        if t == "hexahedron":
            V = genmesh.geometry({"points": np.asarray(P, dtype=float), "cells": [(t, c)]})["volumes"][0]
            # the cell is a box: the right vertex order gives its volume
            e = np.ptp(P[c], axis=0).astype(float)
            case.check(abs(V - e.prod()) <= 1e-5 * e.prod(), "vertex-order", lambda: "hexahedron %r has volume %r, its box %r" % (c, V, e.prod()))
        elif t == "quad":
            q = P[c].astype(float)
            S = np.abs(genmesh.polygon_vector(q)).max()
            e = sorted(np.ptp(q, axis=0))[1:]
            case.check(abs(S - e[0] * e[1]) <= 1e-5 * e[0] * e[1], "vertex-order", lambda: "quadrilateral %r" % (q,))
        else:
            case.check(t in ("line", "vertex"), "type", lambda: "cell %d is a %s" % (i, t))
    case.check(set(m.cell_data) == {a.replace(" ", "_") for a in keys} | {"material"}, "keys", lambda: "%r" % sorted(m.cell_data))
    for a in keys:
        arr_eq(case, "cell-data", "from_pyvista", a, np.asarray(g.cell_arrays[a]), m.cell_data[a.replace(" ", "_")])
    for a in pkeys:
        case.check(a.replace(" ", "_") in m.point_data, "keys", lambda: "%r" % sorted(m.point_data))
        arr_eq(case, "point-data", "from_pyvista", a, np.asarray(g.point_arrays[a]), m.point_data[a.replace(" ", "_")])
    if mat is None:
        case.check([str(a) for a in m.materials] == [name] * m.n_cells, "default-material", lambda: "%r" % m.materials)
        case.count("default_material")
    else:
        arr_eq(case, "material", "from_pyvista", "material", mat, m.cell_data["material"])
    edits(case, m, lambda: pv_image(g), "edit of from_pyvista(grid)")
    case.shape(k, tuple(d), sorted(keys), mat is None)


def from_meshio(case):
    """meshio meshes as its readers give them."""
    import meshio

    rng = case.rng
    src = gen(case)
    r = case.np_rng()
    B = [(c.type, np.asarray(c.data)) for c in src.cells]
    key = rng.choice(["material", "gmsh:physical", "medit:ref", None, None])
    n = src.n_cells
    sizes = np.cumsum([len(c) for _, c in B])[:-1]
    cd, fd = {}, {}
    if rng.random() < 0.7:
        for a in rng.sample(["PRES", "gmsh:geometrical", "vec", "a:b", "cell id", "Material"], rng.randint(1, 4)):
            cd[a] = np.split(r.randint(0, 9, n) if "gmsh" in a else r.normal(size=(n, 3) if a == "vec" else n), sizes)
    names = rng.sample(genmesh.MATS, 3)
    ids = rng.sample(range(1, 12), 3)
    mat = r.randint(0, 3, n)
    if key:
        cd[key] = np.split(np.array(ids)[mat], sizes)
    if rng.random() < 0.6 or key:
        for i, a in zip(ids, names):
            fd[a] = np.array([i, 3])
    if rng.random() < 0.5:
        items = list(cd.items())
        rng.shuffle(items)
        cd = dict(items)
    pd = {"u": r.normal(size=src.n_points)} if rng.random() < 0.5 else {}
    x = meshio.Mesh(np.array(src.points), [meshio.CellBlock(t, c) for t, c in B], point_data=pd, cell_data=cd, field_data=fd)
    img = meshio_image(x)
    name = rng.choice(["dfalt", "rock?"])
    m = case.call("from_meshio", toughio.from_meshio, x, **({} if name == "dfalt" else {"material": name}))
    case.check(meshio_image(x) == img, "source-changed", "from_meshio changed its argument")
    arr_eq(case, "points", "from_meshio", "points", x.points, m.points)
    blocks_eq(case, x, m, "from_meshio")
    want = (set(cd) - {key}) | {"material"}
    case.check(set(m.cell_data) == want and set(m.point_data) == set(pd), "keys", lambda: "from_meshio: %r, expected %r" % (sorted(m.cell_data), sorted(want)))
    for a in cd:
        arr_eq(case, "cell-data", "from_meshio", a, np.concatenate(cd[a]), m.cell_data["material" if a == key else a])
    for a in pd:
        arr_eq(case, "point-data", "from_meshio", a, pd[a], m.point_data[a])
    mats = [names[i] for i in mat] if key else [name] * n
    case.check([str(a) for a in m.materials] == mats, "materials", lambda: "from_meshio: materials %r, expected %r" % (list(m.materials)[:6], mats[:6]))
    if not key:
        case.count("default_material")
    edits(case, m, lambda: meshio_image(x), "edit of from_meshio(x)")
    case.shape("meshio-", key, len(B), sorted(cd), bool(fd))


def files(case):
    """Formats handled by meshio: what the library writes, meshio reads; and the reverse."""
    import meshio

    rng = case.rng
    m = gen(case)
    ext = rng.choice([".vtk", ".vtu", ".xdmf"])
    if m.points.shape[1] == 2 and ext != ".xdmf":
        m.points = point3(m.points)
    before = c20.image(m)
    f = case.path("mesh" + ext)
    if rng.random() < 0.6:
        if rng.random() < 0.5:
            case.call("write_mesh", toughio.write_mesh, f, m)
        else:
            case.call("Mesh.write", m.write, f)
        case.check(c20.image(m) == before, "source-changed", "writing a mesh changed it")
    else:
        meshio.write(f, m.to_meshio())
    x = meshio.read(f)
    b = case.call("read_mesh", toughio.read_mesh, f)
    case.check(np.array_equal(point3(x.points), point3(m.points)) and np.array_equal(point3(b.points), point3(m.points)), "points", "%s: points" % ext)
    case.check(flat(x) == flat(m) and flat(b) == flat(m), "cells", "%s: cells" % ext)
    ref = {a.replace(" ", "_"): v for a, v in m.cell_data.items()}
    for a, v in ref.items():
        case.check(a in b.cell_data, "keys", lambda: "%s: %r" % (ext, sorted(b.cell_data)))
        arr_eq(case, "cell-data", ext, a, v, b.cell_data[a])
    for a, v in m.point_data.items():
        case.check(a in b.point_data, "keys", lambda: "%s: %r" % (ext, sorted(b.point_data)))
        arr_eq(case, "point-data", ext, a, v, b.point_data[a])
    case.check(len(b.materials) == m.n_cells, "materials", "no material")
    case.count("files")
    case.shape(ext, sorted({c.type for c in m.cells}), sorted(m.cell_data))


def groups(case):
    """Materials of volumes and of faces are numbered apart by mesh generators."""
    import meshio

    rng = case.rng
    P, cells = genmesh.build(rng, dims=[rng.choice([1, 2]) for _ in range(3)])
    if rng.random() < 0.4:
        q = rng.choice(cells)
        cells = cells + [("line", [q[1][0], q[1][1]])]
    for t, c in rng.sample(cells, min(len(cells), rng.randint(1, 4))):
        if t in genmesh.FACES:
            f = [c[a] for a in rng.choice(genmesh.FACES[t])]
            cells = cells + [({3: "triangle", 4: "quad"}[len(f)], f)]
    B = genmesh.blocks(rng, cells)
    dims = [{"line": 1, "triangle": 2, "quad": 2}.get(t, 3) for t, b in B for _ in b]
    names = rng.sample(genmesh.MATS + ["inlet", "top", "fault"], 6)
    of = {1: names[:1], 2: names[1:3], 3: names[3:]}
    ids = {d: rng.sample(range(1, 5), len(of[d])) for d in of}
    pick = [rng.randrange(len(of[d])) for d in dims]
    num = np.array([ids[d][k] for d, k in zip(dims, pick)])
    want = [of[d][k] for d, k in zip(dims, pick)]
    fd = [(a, np.array([i, d])) for d in of for a, i in zip(of[d], ids[d])]
    rng.shuffle(fd)
    fd = dict(fd)
    sizes = np.cumsum([len(b) for _, b in B])[:-1]
    key = rng.choice(["material", "gmsh:physical", "medit:ref"])
    file = rng.random() < 0.4
    if file:
        key = "gmsh:physical"
    cd = {key: np.split(num, sizes)}
    if file:
        cd["gmsh:geometrical"] = cd[key]
    x = meshio.Mesh(np.array(P), [(t, np.array(b)) for t, b in B], cell_data=cd, field_data=fd)
    if file:
        f = case.path("grid.msh")
        meshio.write(f, x, file_format="gmsh22", binary=rng.random() < 0.5)
        m = case.call("read_mesh", toughio.read_mesh, f)
        case.count("msh")
    else:
        m = case.call("from_meshio", toughio.from_meshio, x)
    flat3 = [(t, [int(a) for a in c]) for t, b in B for c in b]
    got = flat(m)
    case.check(sorted(got) == sorted(flat3), "cells", "cells differ")
    mats = [str(a) for a in case.call("materials", lambda: m.materials)]
    if got == flat3:
        case.check(mats == want, "materials", lambda: "names %r: materials %r, expected %r" % (fd, mats, want))
    else:
        case.check(sorted(zip(map(repr, got), mats)) == sorted(zip(map(repr, flat3), want)), "materials", lambda: "names %r: materials %r" % (fd, mats))
    y = case.call("to_meshio", m.to_meshio)
    case.check({k: [int(a) for a in v] for k, v in y.field_data.items()} == {k: [int(a) for a in v] for k, v in fd.items()}, "field-data", lambda: "%r / %r" % (y.field_data, fd))
    b = case.call("from_meshio", toughio.from_meshio, y)
    case.check([str(a) for a in b.materials] == mats, "materials", lambda: "and back: %r / %r" % (b.materials, mats))
    case.count("groups")
    case.count("shared number", int(len(set(np.concatenate(list(ids.values())))) < 6))
    case.shape("groups", sorted(zip(dims, pick)), file)


def refused(case):
    rng = case.rng
    m = gen(case)
    k = rng.choice(["meshio", "pyvista", "mat", "pmat"])
    if k == "meshio":
        a = toughio.from_meshio, (rng.choice([None, m, m.to_pyvista()]),)
    elif k == "pyvista":
        a = toughio.from_pyvista, (rng.choice([None, m, m.to_meshio()]),)
    elif k == "mat":
        a = toughio.from_meshio, (m.to_meshio(), rng.choice([None, 1]))
    else:
        a = toughio.from_pyvista, (m.to_pyvista(), rng.choice([None, 1]))
    case.refused(k, TypeError, a[0], *a[1])
    case.shape(k)


SCALE = 8  # cases of the quick tier are this many times those listed
FAMILIES = {"large_to_meshio": (core.large(to_meshio), 8, 80), "large_to_pyvista": (core.large(to_pyvista), 8, 80), "large_from_pyvista": (core.large(from_pyvista), 8, 80), "large_from_meshio": (core.large(from_meshio), 8, 80), "large_files": (core.large(files), 8, 80), "groups": (groups, 100, 1500), 
    "to_meshio": (to_meshio, 300, 3000),
    "to_pyvista": (to_pyvista, 300, 3000),
    "from_pyvista": (from_pyvista, 250, 2500),
    "from_meshio": (from_meshio, 250, 2500),
    "files": (files, 120, 1000),
    "refused": (refused, 40, 200),
}
