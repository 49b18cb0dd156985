"""C14 - the export command gives every cell of the exported file its own data."""
import logging
import os

import meshio
import numpy as np
import toughio

from vmon import core
from vmon.lib import genmesh, genout, listing, tio
from vmon.props import c13, c19, c21, c24

RULE = ("Case = simulation results (csv, petrasim, tecplot, listing) of seeded cells in any order, exported to every file format: with the mesh "
        "(mixed cells, any label length), by triangulation (2D in any plane, 3D) and by voxelization (1D, 2D, 3D, columns or layers), at "
        "any time step, at the default or a given place, over existing files. The exported file is read by meshio or an independent parser; "
        "cells are recognized by their centre, points by their coordinates, and every value compared with the row of its element. "
        "Inconsistent calls must be refused and leave the directory as it was. Distinct = route x format x source x times x step.")
ASSUMPTIONS = ["centres of the cells are distinct", "elements to be voxelized are the centres of a grid at the given origin",
               "the mesh file holds label lengths other than 5 only as a pickle", "times of one file are distinct"]
REACH = {"large": 12, "mesh": 150, "triangulated": 100, "voxelized": 100, "tecplot": 80, "vtk": 80, "vtu": 80, "xdmf": 80, "values": 30000, "refused": 80,
         "layer": 30, "column": 30, "step": 60, "not a number": 50}
EXT = {"tecplot": ".dat", "vtk": ".vtk", "vtu": ".vtu", "xdmf": ".xdmf"}


def load(fmt, path):
    """points, cells, [(time, point data, cell data)]"""
    if fmt == "tecplot":
        zt, data, cells, n = c21.parse_tecplot(tio.read_text(path))
        X = [v for k, c, v in data if not c and k in ("X", "Y", "Z")]
        pd = {k: np.array(v) for k, c, v in data if not c and k not in ("X", "Y", "Z")}
        cd = {k: np.array(v) for k, c, v in data if c}
        return np.array(X).T, [c21.uniq([a - 1 for a in c]) for c in cells], [(None, pd, cd)]
    if fmt == "xdmf":
        with meshio.xdmf.TimeSeriesReader(path) as r:
            points, cells = r.read_points_cells()
            out = []
            for k in range(r.num_steps):
                t, p, c = r.read_data(k)
                out.append((float(t), p, {k: np.concatenate(v) for k, v in c.items()}))
        return np.asarray(points), [list(map(int, r)) for c in cells for r in c.data], out
    with tio.quiet():
        m = meshio.read(path)
    return np.asarray(m.points), [list(map(int, r)) for c in m.cells for r in c.data], [
        (None, dict(m.point_data), {k: np.concatenate(v) for k, v in m.cell_data.items()})]


def centers(P, cells):
    return np.array([P[sorted(set(c))].mean(axis=0) for c in cells])


def pair(case, what, got, want, axes):
    """For every exported place, the element that is there."""
    from scipy.spatial import cKDTree

    g, w = got[:, :len(axes)] if what == "point" else got[:, axes], want[:, axes]
    case.check(len(g) == len(w), "count", lambda: "%d %ss for %d elements" % (len(g), what, len(w)))
    d, i = cKDTree(w).query(g)
    tol = 1e-9 * (np.abs(w).max() + 1e-300) if len(w) else 0
    case.check(np.all(d <= tol), "place", lambda: "%s %r is %g away from any element" % (what, g[int(np.argmax(d))].tolist(), d.max()))
    case.check(len(set(i.tolist())) == len(w), "place", lambda: "two %ss at the same element" % what)
    return i


def verify(case, fmt, path, route, axes, places, outs, it, rel):
    """outs: the results (any order); places: coordinates of the rows of outs."""
    P, cells, steps = load(fmt, path)
    if route == "triangulated":
        what, at = "point", pair(case, "point", P, places, axes)
        if len(P) > 3 and len(axes) == 2:
            pass
        case.check({len(c) for c in cells} == {len(axes) + 1} and max(max(c) for c in cells) < len(P), "cells", "cells are not triangles/tetrahedra of the points")
        if fmt in ("vtk", "vtu") and P.shape[1] > len(axes):
            case.check(not np.any(P[:, len(axes):]), "place", "a plane triangulation left its plane")
    else:
        what, at = "cell", pair(case, "cell", centers(P, cells), places, axes)
    wanted = list(outs) if fmt == "xdmf" else [outs[it]]
    case.check(len(steps) == len(wanted), "times", lambda: "%d times of %d" % (len(steps), len(wanted)))
    if fmt == "xdmf":
        rank = sorted(range(len(outs)), key=lambda i: outs[i].time)
        wanted = [outs[i] for i in rank]
        for w, (t, _, _) in zip(wanted, steps):
            case.check(genout.close([w.time], [t], rel[1]), "time", lambda: "time %r exported as %r" % (w.time, t))
    for w, (t, pd, cd) in zip(wanted, steps):
        have = pd if what == "point" else cd
        for k, v in w.data.items():
            if k in ("X", "Y", "Z"):
                if k not in have:
                    continue
            case.check(k in have, "missing", lambda: "%s %s data: %s not among %r" % (fmt, what, k, sorted(have)))
            g = np.asarray(have[k])
            want = np.asarray(v, dtype=float)[at]
            case.check(g.shape == want.shape and genout.close(want, g, rel[0]), "values", lambda: "%s, %s, %s: elements have %r, file has %r" % (
                route, fmt, k, want[:5].tolist(), g[:5].tolist()))
            case.count("values", len(g))
    return P, cells


def results(case, rng, labels, xyz, src, shuffle=False):
    """Write results of cells in a file; (file, outputs as the file holds them, relative precision of values and times)"""
    n = len(labels)
    f = case.path(rng.choice(["OUTPUT_ELEME.csv", "run", "sim.out", "a.b.tec"]))
    if src == "listing":
        S = listing.render(rng, labels=labels)
        tio.write_text(f, S["text"], case)
        outs = [toughio.Output("element", "tough", s["time"], np.array(labels), {k: np.array(v) for k, v in s["element"].items()}) for s in S["steps"]]
        return f, outs, (1e-15, 1e-15)
    outs = genout.gen(rng, "element", "", n=n, nt=rng.choice([12, 45, 101]) if n < 40 and rng.random() < 0.03 else None)
    case.count("many times", int(len(outs) > 10))
    for o in outs:
        extra = dict(o.data)
        o.data.clear()
        for k, v in xyz.items():
            o.data[k] = v.copy()
        o.data.update(extra)
    outs = [o._replace(labels=np.array(labels)) for o in outs]
    if rng.random() < 0.12:
        # values the simulator could not print
        for o in outs:
            for k, v in o.data.items():
                if k not in xyz and rng.random() < 0.6:
                    v[rng.randrange(n)] = np.nan
                    case.count("not a number")
    written = outs
    if shuffle and len(outs) > 1 and rng.random() < 0.4:
        # the elements come in another order at every time
        written = [c24.reordered(o, c24.permuted(rng, n)) for o in outs]
        case.count("order changes")
    case.call("write_output", toughio.write_output, f, written, file_format=src)
    return f, outs, (5.1e-13, {"csv": 5.1e-9, "petrasim": 5.1e-13, "tecplot": 5.1e-8}[src])


def run(argv, d):
    old = os.getcwd()
    os.chdir(d)
    try:
        with tio.quiet():
            toughio._cli.export(argv)
    finally:
        os.chdir(old)


def command(case, f, fmt, nt, options):
    """Run the command; (path of the exported file, time step)"""
    rng = case.rng
    it, argv = nt - 1, []
    if fmt != "vtk" or rng.random() < 0.3:
        argv += [rng.choice(["-f", "--file-format"]), fmt]
    if rng.random() < 0.6 and fmt != "xdmf":
        t = rng.randrange(-nt, nt)
        it = t % nt
        argv += [rng.choice(["-t", "--time-step"]), str(t)]
        case.count("step")
    d = case.subdir("work")
    dest = os.path.splitext(f)[0] + EXT[fmt]
    if rng.random() < 0.6:
        # vtk and vtu files are recognized by what the format option says, not by their names
        dest = os.path.join(d, rng.choice(["out", "my.out"]) + (EXT[fmt] if fmt == "xdmf" or rng.random() < 0.7 else ".res"))
        argv += [rng.choice(["-o", "--output-file"]), dest if rng.random() < 0.5 else os.path.basename(dest)]
        if rng.random() < 0.3:
            tio.write_text(dest, "previous\n" * 300)
    argv = [f] + argv + options if rng.random() < 0.7 and "--origin" not in options else argv + options + (["--"] if "--origin" in options else []) + [f]
    keep = dest == f
    src = tio.read_bytes(f)
    case.call("export", run, argv, d)
    case.check(keep or tio.read_bytes(f) == src, "source-changed", "the exported file was changed")
    case.check(os.path.isfile(dest), "no-file", lambda: "%r wrote no %s" % (argv, dest))
    if not dest.endswith(EXT[fmt]):
        link = case.path("copy" + EXT[fmt])
        with open(link, "wb") as g:
            g.write(tio.read_bytes(dest))
        dest = link
    case.count(fmt)
    case.note = {"argv": argv, "times": nt, "step": it}
    return dest, it


def with_mesh(case):
    logging.disable(logging.CRITICAL)
    rng = case.rng
    m, ref = genmesh.mesh(rng, data=rng.random() < 0.3)
    if rng.random() < 0.4:
        m.point_data.clear()
        mf = case.path("mesh" + rng.choice([".vtu", ".vtk"]))
        m.label_length = None
        m.cell_data = {k: v for k, v in m.cell_data.items() if k == "material"}
    else:
        mf = case.path("mesh" + rng.choice([".pickle", ".pkl"]))
    case.call("write_mesh", toughio.write_mesh, mf, m)
    labs = [str(l) for l in m.labels]
    C = np.asarray(m.centers)
    # cells are recognized by the mean of their corners
    M = centers(np.asarray(m.points), [list(map(int, r)) for c in m.cells for r in c.data])
    perm = c24.permuted(rng, len(labs))
    src = rng.choice(["csv", "petrasim", "listing"])
    xyz = {k: C[perm][:, i] for i, k in enumerate("XYZ")} if rng.random() < 0.7 else {}
    f, outs, rel = results(case, rng, [labs[i] for i in perm], xyz, src, True)
    fmt = rng.choice(list(EXT))
    before = tio.read_bytes(mf)
    opts = [rng.choice(["-m", "--mesh"]), mf]
    if rng.random() < 0.1:
        opts += ["-v"]
    dest, it = command(case, f, fmt, len(outs), opts)
    case.check(tio.read_bytes(mf) == before, "source-changed", "the mesh file was changed")
    P, cells = verify(case, fmt, dest, "mesh", [0, 1, 2], M[perm], outs, it, rel)
    case.check(np.array_equal(P, np.asarray(m.points)), "points", "points of the exported file are not those of the mesh")
    case.check([sorted(c) for c in cells] == [sorted(set(map(int, r))) for c in m.cells for r in c.data], "cells", "cells of the exported file are not those of the mesh")
    case.count("mesh")
    case.shape("mesh", fmt, src, len(outs), it, len(labs), len(labs[0]), mf[-3:])


def plane(rng, axes, n):
    pts = np.zeros((n, 3))
    for a in range(3):
        if a in axes:
            pts[:, a] = [rng.uniform(-1000, 1000) for _ in range(n)]
        else:
            pts[:, a] = rng.choice([0.0, -12.5, 100.0])
    return pts


def given(xyz, axes, rng):
    """Columns of coordinates in the results (a constant one may be left out)."""
    out = {}
    for i, k in enumerate("XYZ"):
        if i in axes or rng.random() < 0.7:
            out[k] = xyz[:, i]
    return out


def triangulated(case):
    logging.disable(logging.CRITICAL)
    rng = case.rng
    axes = rng.choice([[0, 1], [0, 2], [1, 2], [0, 1, 2]])
    n = rng.choice([4, 5, 8, 30, 100]) if len(axes) == 2 else rng.choice([5, 8, 30, 100])
    pts = plane(rng, axes, n)
    if rng.random() < 0.3:  # cells of a grid
        k = rng.choice([2, 3, 5])
        g = np.array([[a, b, c] for a in range(k) for b in range(k) for c in range(k if len(axes) == 3 else 1)], dtype=float)
        n = len(g)
        base = np.zeros((n, 3))
        for i, a in enumerate(axes):
            base[:, a] = g[:, i] * rng.choice([1.0, 10.0, 0.3]) + rng.choice([0.0, -500.0])
        pts = base[c24.permuted(rng, n)]
    # models of the laboratory, of a basin, and in map coordinates
    if rng.random() < 0.3:
        pts = pts * rng.choice([1e-6, 1e-3, 1e3])
        case.count("scaled")
    elif rng.random() < 0.2:
        pts = pts + np.array([5e5 * (a in axes) for a in range(3)])
        case.count("map")
    labs = genout.labels(rng, n)
    src = rng.choice(["csv", "petrasim", "tecplot"])
    xyz = given(pts, axes, rng) if src != "tecplot" else {k: pts[:, i] for i, k in enumerate("XYZ") if i < 2 or i in axes or rng.random() < 0.7}
    f, outs, rel = results(case, rng, labs, xyz, src, src != "tecplot")
    fmt = rng.choice(list(EXT))
    opts = []
    if src == "tecplot" and rng.random() < 0.4:
        opts = ["-m", tio.write_text(case.path("mesh.pickle"), "no mesh")]
    dest, it = command(case, f, fmt, len(outs), opts)
    # coordinates that the results do not hold are zero
    verify(case, fmt, dest, "triangulated", axes, pts, outs, it, rel)
    case.count("triangulated")
    case.shape("triangulated", fmt, src, len(outs), it, tuple(axes), n)


def voxelized(case):
    logging.disable(logging.CRITICAL)
    rng = case.rng
    nd = rng.choice([1, 1, 2, 3, 3])
    axes = sorted(rng.sample(range(3), nd))
    dims = [rng.choice([2, 3, 5]) if a in axes else 1 for a in range(3)]
    d = [c19.increments(rng, k) if k > 1 else [1.0] for k in dims]
    d = [[min(max(float(y), 0.05), 500.0) for y in x] for x in d]
    o = [rng.choice([0.0, 1.5, rng.uniform(-1000, 1000)]) for _ in range(3)]
    if rng.random() < 0.25:
        k = rng.choice([1e-6, 1e-3, 1e3])
        d, o = [[y * k for y in x] for x in d], [x * k for x in o]
        case.count("scaled")
    c = [(e[1:] + e[:-1]) / 2 for e in [c19.edges(x, y) for x, y in zip(d, o)]]
    pts = np.array([[x, y, z] for x in c[0] for y in c[1] for z in c[2]])[c24.permuted(rng, dims[0] * dims[1] * dims[2])]
    n = len(pts)
    labs = genout.labels(rng, n)
    src = rng.choice(["csv", "petrasim", "tecplot"])
    xyz = given(pts, axes, rng) if src != "tecplot" else {k: pts[:, i] for i, k in enumerate("XYZ") if i < 2 or i in axes or rng.random() < 0.7}
    # the origin the command gets leads to the cells whose centres the file holds
    f, outs, rel = results(case, rng, labs, xyz, src, src != "tecplot")
    fmt = rng.choice(list(EXT))
    opts = []
    if nd > 1 or rng.random() < 0.5:
        opts.append(rng.choice(["-v", "--voxelize"]))
    layer = rng.random() < 0.5
    if layer:
        opts.append("--layer")
    opts = opts + ["--origin"] + [repr(x) if "e" not in repr(x) else "%.25f" % x for x in o]  # argparse takes -1e-05 for an option
    dest, it = command(case, f, fmt, len(outs), opts)
    P, cells = verify(case, fmt, dest, "voxelized", axes, pts, outs, it, rel)
    case.check(all(len(x) == 8 for x in cells), "cells", "voxels are not hexahedra")
    for a in axes:
        lo, hi = o[a], o[a] + sum(d[a])
        case.check(abs(P[:, a].min() - lo) <= 1e-6 * (abs(hi) + abs(lo)) and abs(P[:, a].max() - hi) <= 1e-6 * (abs(hi) + abs(lo)), "extent",
                   lambda: "axis %d: %r, expected %r" % (a, (P[:, a].min(), P[:, a].max()), (lo, hi)))
    case.count("voxelized")
    case.count("layer" if layer else "column")
    case.shape("voxelized", fmt, src, len(outs), it, tuple(dims), layer)


def refused(case):
    logging.disable(logging.CRITICAL)
    rng = case.rng
    m, ref = genmesh.mesh(rng, data=False)
    labs = [str(l) for l in m.labels]
    C = np.asarray(m.centers)
    mf = case.path("mesh.pickle")
    toughio.write_mesh(mf, m)
    kind = rng.choice(["late", "early", "no-infile", "no-mesh", "bad-mesh", "no-origin", "origin", "one-d", "coordinates", "choice", "cells", "not-output"])
    xyz = {k: C[:, i] for i, k in enumerate("XYZ")}
    n = len(labs)
    types = ValueError
    if kind == "one-d":
        xyz = {"X": np.arange(n, dtype=float), "Y": np.zeros(n)}
    if kind == "coordinates":
        xyz = {}
    if kind == "cells":
        labs = labs[:-1] + ["zz999"] if rng.random() < 0.5 else labs + ["zz999"]
        xyz = {}
        types = Exception
    f, outs, rel = results(case, rng, labs, xyz, rng.choice(["csv", "petrasim"]))
    nt = len(outs)
    fmt = rng.choice(list(EXT))
    opts = ["-m", mf]
    if kind in ("late", "early"):
        fmt = rng.choice(["vtk", "vtu", "tecplot"])
        opts += ["-t", str(nt + rng.randint(0, 2) if kind == "late" else -nt - 1 - rng.randint(0, 2))]
    elif kind == "no-infile":
        f = case.path("nowhere")
    elif kind == "no-mesh":
        opts[1] = case.path("nowhere")
    elif kind == "bad-mesh":
        tio.write_text(mf, rng.choice(["", "not a mesh"]))
        types = Exception
    elif kind == "no-origin":
        opts = ["-v"]
    elif kind == "origin":
        opts = ["-v", "--origin"] + ["0.0"] * rng.choice([1, 2, 4])
    elif kind == "one-d":
        opts = rng.choice([[], ["--origin", "0.0"]])
    elif kind == "coordinates":
        opts = rng.choice([[], ["-v", "--origin", "0.0", "0.0", "0.0"]])
    elif kind == "choice":
        fmt = rng.choice(["csv", "stl", ""])
        types = SystemExit
    elif kind == "not-output":
        f = tio.write_text(case.path("in"), rng.choice(["hello\n", "", "ROCKS\n"]))
        types = Exception
    d = case.subdir("work")
    dest = rng.choice(["out.vtk", "out.xdmf"])
    tio.write_text(os.path.join(d, dest), "precious\n")
    if rng.random() < 0.8:
        opts = ["-o", dest] + opts
    top = os.path.dirname(d)
    before = c13.listdir(top)
    case.refused("export/" + kind, types, run, [f, "-f", fmt] + opts, d)
    case.check(c13.listdir(top) == before, "touched", lambda: "refused call (%s) changed the directory: %r" % (kind, sorted(c13.listdir(top))))
    case.shape(kind, fmt)


SCALE = 2  # cases of the quick tier are this many times those listed
FAMILIES = {"large": (core.large(with_mesh), 16, 160), "with_mesh": (with_mesh, 500, 5000), "triangulated": (triangulated, 300, 3000), "voxelized": (voxelized, 300, 3000),
            "refused": (refused, 200, 1500)}
