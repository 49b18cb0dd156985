"""C24 - simulation results are attached to the cells they belong to."""
import logging
import os
import re

import numpy as np
import toughio

from vmon import core
from vmon.lib import genmesh, genout, listing, tio

RULE = ("Case = seeded mesh (mixed cells, several blocks, label length 5-9) and simulation results for its cells in another "
        "order, as objects or as files of every format that keeps labels (csv, petrasim, save, listing); read_output at "
        "every kind of time step; every cell is then compared with the row of its label, every other array with what it was. "
        "Connection results: per cell sum of the flows along the unit lines. Results that do not match the mesh must be refused "
        "with the mesh untouched. Time series: written in shuffled order and read back. "
        "Distinct = mesh kind x format x number of times x time step.")
ASSUMPTIONS = ["no two cells have the same centre (connected cells)", "times of one series are distinct"]
REACH = {"large": 30, "element": 100, "connection": 60, "mismatch": 60, "series": 60, "cells": 5000, "csv": 15, "petrasim": 15, "save": 5, "listing": 20, "alias": 60, "same_order": 5}


def start(case, data=True):
    logging.disable(logging.CRITICAL)
    return genmesh.mesh(case.rng, data=data)


def state(m):
    return (tio.snapshot(m.points), tio.snapshot([(c.type, np.asarray(c.data)) for c in m.cells]),
            {k: tio.snapshot(np.asarray(v)) for k, v in m.point_data.items()},
            {k: tio.snapshot(np.asarray(v)) for k, v in m.cell_data.items()},
            {k: tio.snapshot(np.asarray(v)) for k, v in m.field_data.items()}, m.label_length)


def permuted(rng, n):
    p = list(range(n))
    k = rng.random()
    if k < 0.5:
        rng.shuffle(p)
    elif k < 0.6:
        p.reverse()
    elif n < 2 or k < 0.7:
        pass  # the same order
    elif k < 0.8:  # neighbours swapped: anywhere, first or last
        i = rng.choice([0, n - 2, rng.randrange(n - 1)])
        p[i], p[i + 1] = p[i + 1], p[i]
    elif k < 0.88:  # any two swapped
        i, j = rng.randrange(n), rng.randrange(n)
        p[i], p[j] = p[j], p[i]
    elif k < 0.95:  # rotated
        i = rng.choice([1, n - 1, rng.randrange(n)])
        p = p[i:] + p[:i]
    else:  # one end shuffled
        i = rng.randrange(n)
        q = p[i:]
        rng.shuffle(q)
        p = p[:i] + q
    return p


def reordered(o, p):
    return o._replace(labels=np.asarray(o.labels)[p], data={k: np.asarray(v)[p] for k, v in o.data.items()})


def pick(rng, nt):
    """(keyword arguments, index of the time step)"""
    if rng.random() < 0.3:
        return {}, nt - 1
    t = rng.randrange(-nt, nt)
    return {"time_step": t}, t % nt


def make_save(rng, labs):
    """SAVE-like file and values {label: [..]}."""
    cols = rng.choice([1, 2, 3, 4])
    L, vals = ["INCON -- INITIAL CONDITIONS FOR %5d ELEMENTS AT TIME 0.100000E+06" % len(labs)], {}
    for l in labs:
        p = round(rng.uniform(0, 1), 8)
        L.append("%-15s%15.8E" % (l, p))
        x = [float("%.13E" % genout.val(rng)) if False else float("%.12E" % (rng.uniform(-9, 9) * 10.0 ** rng.randint(-9, 9))) for _ in range(cols)]
        L.append("".join("%20.12E" % v for v in x))
        vals[l] = [p] + x
    L += ["+++", "    1    1    2 0.000000000000E+00 0.100000000000E+06"]
    return "\n".join(L) + "\n", vals


def compare_cells(case, m, before, want, rel, what):
    """want: {column: values in mesh order}"""
    old = before[3]
    got = m.cell_data
    for k, v in want.items():
        case.check(k in got, "missing", lambda: "%s: %s is not attached (%r)" % (what, k, list(got)))
        case.check(genout.close(v, got[k], rel), "values", lambda: "%s: column %s, wanted %r, cells have %r" % (
            what, k, list(v)[:6], list(np.asarray(got[k]))[:6]))
        case.count("cells", len(v))
    for k in got:
        if k not in want:
            case.check(k in old and tio.snapshot(np.asarray(got[k])) == old[k], "other-data", lambda: "%s changed cell data %s" % (what, k))
    case.check(set(got) == set(old) | set(want), "other-data", lambda: "%s: cell data %r from %r" % (what, sorted(got), sorted(old)))
    now = state(m)
    case.check(now[:3] == before[:3] and now[4:] == before[4:], "other-data", "%s changed more than the cell data" % what)


def element(case):
    rng = case.rng
    m, ref = start(case)
    labs = [str(l) for l in m.labels]
    n = len(labs)
    perm = permuted(rng, n)
    order = [labs[i] for i in perm]
    src = rng.choice(["object", "list", "tuple", "csv", "petrasim", "save", "listing", "listing"])
    inv = np.argsort(perm)
    before = state(m)
    if src in ("object", "list", "tuple", "csv", "petrasim"):
        nt = rng.choice([1, 2, 3, 5])
        outs = genout.gen(rng, "element", rng.choice(["XYZ", "XYZ", ""]), nt=nt, n=n)
        outs = [o._replace(labels=np.array(order)) for o in outs]
        kw, it = pick(rng, nt)
        if nt > 1 and rng.random() < 0.3:
            # the elements come in another order at every time
            outs = [reordered(o, permuted(rng, n)) for o in outs]
            at = {str(l): i for i, l in enumerate(outs[it].labels)}
            inv = np.array([at[l] for l in labs])
            perm = np.argsort(inv)
            case.count("order changes")
        arg = outs
        if src == "object":
            arg, kw = outs[it], rng.choice([{}, {"time_step": rng.randint(-9, 9)}])
        elif src == "tuple":
            arg = tuple(outs)
        elif src in ("csv", "petrasim"):
            arg = case.path("OUTPUT_ELEME")
            case.call("write_output", toughio.write_output, arg, outs, file_format=src)
            case.count(src)
        snap = tio.snapshot(outs)
        case.call("mesh.read_output", m.read_output, arg, **kw)
        case.check(tio.snapshot(outs) == snap, "argument-changed", "reading results into a mesh changed them")
        want = {k: np.asarray(v)[inv] for k, v in outs[it].data.items()}
        compare_cells(case, m, before, want, 5.1e-13 if src in ("csv", "petrasim") else 0.0, src)
        if arg is not None and src in ("object", "list", "tuple"):
            case.count("same_order", int(list(perm) == list(range(n))))
            aliases(case, m, outs, want)
    elif src == "save":
        text, vals = make_save(rng, order)
        f = tio.write_text(case.path(rng.choice(["SAVE", "INCON", "restart.txt"])), text, case)
        case.call("mesh.read_output", m.read_output, f)
        cols = len(next(iter(vals.values())))
        new = [k for k in m.cell_data if k not in before[3]]
        case.check(len(new) == cols, "columns", lambda: "save: %d columns attached as %r" % (cols, new))
        want = {}
        for j, k in enumerate([k for k in new if k.startswith("X")]):
            want[k] = np.array([vals[l][1 + j] for l in labs])
        rest = [k for k in new if k not in want]
        case.check(len(rest) == 1, "columns", lambda: "save: columns %r" % new)
        want[rest[0]] = np.array([vals[l][0] for l in labs])
        compare_cells(case, m, before, want, 1e-15, "save")
        case.count("save")
        nt, it = 1, 0
    else:
        S = listing.render(rng, labels=order, alpha_labels=False)
        f = tio.write_text(case.path("run.out"), S["text"], case)
        nt = len(S["steps"])
        kw, it = pick(rng, nt)
        case.call("mesh.read_output", m.read_output, f, **kw)
        st = S["steps"][it]["element"]
        want = {k: np.array(v)[inv] for k, v in st.items()}
        for k in ("X1", "X2"):
            if k not in want and k in m.cell_data and k not in before[3]:
                m.cell_data.pop(k)
        compare_cells(case, m, before, want, 1e-15, "listing")
        case.count("listing")
    case.count("element")
    case.shape(src, nt, it, tuple(sorted({t for t, _ in ref["cells"]})), len(labs[0]))
    case.note = {"source": src, "cells": n, "times": nt, "step": it}


def aliases(case, m, outs, want):
    """The mesh and the results it was given are independent from now on."""
    rng = case.rng
    keys = [k for k in want if k in m.cell_data and len(np.asarray(m.cell_data[k]))]
    if not keys:
        return
    snap = tio.snapshot(outs)
    for k in keys:
        a = m.cell_data[k]
        if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind == "f":
            a[rng.randrange(len(a))] = -777.25
            a *= 3.0
    case.check(tio.snapshot(outs) == snap, "alias", "editing the cell data of a mesh changed the results it was given")
    now = state(m)
    for o in outs:
        for v in o.data.values():
            if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.flags.writeable and v.size:
                v += 5.5
    case.check(state(m) == now, "alias", "editing results changed the cell data of the mesh they were given to")
    case.count("alias")


def connection(case):
    rng = case.rng
    m, ref = start(case)
    G = genmesh.geometry(ref)
    labs = [str(l) for l in m.labels]
    pairs = list(G["pairs"])
    if len(pairs) < 1:
        case.count("single")
        return
    rng.shuffle(pairs)
    if rng.random() < 0.3:
        pairs = pairs[:rng.randint(1, len(pairs))]
    pairs = [p if rng.random() < 0.5 else (p[1], p[0]) for p in pairs]
    src = rng.choice(["object", "csv", "listing", "listing"])
    before = state(m)
    if src == "listing":
        S = listing.render(rng, labels=labs, pairs=[(labs[a], labs[b]) for a, b in pairs])
        f = tio.write_text(case.path("run.out"), S["text"], case)
        nt = len(S["steps"])
        kw, it = pick(rng, nt)
        data = {k: np.array(v) for k, v in S["steps"][it]["connection"].items()}
        data = {k: v for k, v in data.items() if np.all(np.isfinite(v))}
        others = set(S["cnames"]) - set(data)
        case.call("mesh.read_output", m.read_output, f, connection=True, **kw)
    else:
        nt = rng.choice([1, 2, 3])
        outs = []
        times = genout.times(rng, nt)
        keys = rng.sample(genout.CNAMES, rng.choice([1, 2, 4]))
        for t in times:
            d = {k: np.array([0.0 if rng.random() < 0.1 else rng.choice([-1, 1]) * rng.uniform(1, 10) * 10.0 ** rng.randint(-6, 6) for _ in pairs])
                 for k in keys}
            outs.append(toughio.Output("connection", "csv", t, np.array([[labs[a], labs[b]] for a, b in pairs]), d))
        kw, it = pick(rng, nt)
        arg = outs
        if src == "csv":
            arg = case.path("OUTPUT_CONNE.csv")
            case.call("write_output", toughio.write_output, arg, outs)
        snap = tio.snapshot(outs)
        case.call("mesh.read_output", m.read_output, arg, **kw)
        case.check(tio.snapshot(outs) == snap, "argument-changed", "reading results into a mesh changed them")
        data = outs[it].data
    want, scale = {}, {}
    if src != "listing":
        others = set()
    C = G["centers"]
    for k, v in data.items():
        s, a = np.zeros((len(labs), 3)), np.zeros(len(labs))
        for (i, j), x in zip(pairs, v):
            d = C[i] - C[j]
            d = d / np.sqrt((d * d).sum())
            c = i if x > 0 else j
            s[c] += x * d
            a[c] += abs(x)
        want[k], scale[k] = s, a
    for k, v in want.items():
        got = np.asarray(m.cell_data.get(k))
        case.check(got.shape == v.shape, "shape", lambda: "connection data %s: %r" % (k, got.shape))
        err = np.abs(got - v).max(axis=1)
        bad = np.nonzero(~(err <= 1e-8 * scale[k] + 1e-300))[0]
        case.check(not len(bad), "flow", lambda: "%s: cell %s, wanted %r, got %r" % (k, labs[bad[0]], v[bad[0]], got[bad[0]]))
        case.count("cells", len(v))
    for k in before[3]:
        if k not in want and k not in others:
            case.check(k in m.cell_data and tio.snapshot(np.asarray(m.cell_data[k])) == before[3][k], "other-data", lambda: "cell data %s changed" % k)
    case.check(set(m.cell_data) == set(before[3]) | set(want) | others, "other-data", lambda: "cell data %r" % sorted(m.cell_data))
    case.count("connection")
    case.shape(src, nt, it, len(pairs), len(data))
    case.note = {"source": src, "connections": len(pairs), "times": nt, "step": it}


def mismatch(case):
    rng = case.rng
    m, ref = start(case)
    labs = [str(l) for l in m.labels]
    n = len(labs)
    kind = rng.choice(["fewer", "more", "other", "late", "early", "type", "step-type", "unknown-connection"])
    nt = rng.choice([1, 2, 3])
    order = [labs[i] for i in permuted(rng, n)]
    kw, types = {}, Exception
    if kind == "unknown-connection":
        outs = [toughio.Output("connection", "csv", 1.0, np.array([[labs[0], labs[-1]], ["zz999", labs[0]]]),
                               {"HEAT": np.array([1.0, 2.0]), "FLOW": np.array([1.0, -2.0])})]
        nt = 1
    else:
        if kind == "fewer":
            if n == 1:
                kind = "more"
            else:
                order.pop(rng.randrange(n))
        if kind == "more":
            order.insert(rng.randrange(n), "zz9%02d" % rng.randint(0, 99))
        if kind == "other":
            order[rng.randrange(n)] = "zz9%02d" % rng.randint(0, 99)
        outs = genout.gen(rng, "element", "XYZ", nt=nt, n=len(order))
        outs = [o._replace(labels=np.array(order)) for o in outs]
    if kind in ("fewer", "more"):
        types = ValueError
    arg = outs
    if kind == "late":
        kw, types = {"time_step": nt + rng.randint(0, 3)}, ValueError
    elif kind == "early":
        kw, types = {"time_step": -nt - 1 - rng.randint(0, 3)}, ValueError
    elif kind == "step-type":
        kw, types = {"time_step": rng.choice([0.0, "0", None, [0]])}, TypeError
    elif kind == "type":
        arg, types = rng.choice([None, 1.0, {"element": outs}, np.zeros(3)]), TypeError
    if kind != "type" and rng.random() < 0.5:
        arg = case.path("OUT.csv")
        case.call("write_output", toughio.write_output, arg, outs)
    before = state(m)
    case.refused("mesh.read_output/" + kind, types, m.read_output, arg, **kw)
    case.check(state(m) == before, "attached", "refused results (%s) changed the mesh" % kind)
    case.count("mismatch")
    case.shape(kind, nt, n, isinstance(arg, str))
    case.note = {"kind": kind, "cells": n}


def flat(cells):
    return [(c[0], [int(a) for a in r]) for c in cells for r in np.asarray(c[1])]


def series(case):
    """Results of every time through the mesh and a time series file."""
    rng = case.rng
    m, ref = start(case, data=False)
    labs = [str(l) for l in m.labels]
    n = len(labs)
    nt = rng.choice([1, 2, 3, 6, 12]) if rng.random() < 0.95 else 45
    order = [labs[i] for i in permuted(rng, n)]
    outs = genout.gen(rng, "element", "", nt=nt, n=n)
    outs = [o._replace(labels=np.array(order)) for o in outs]
    times = [o.time for o in outs]
    k = rng.random()
    if k < 0.3:
        times = [-t if rng.random() < 0.3 else t for t in times]
    elif k < 0.5:
        times = [float(i) for i in range(nt)]
    at = list(range(nt))
    if rng.random() < 0.7:
        rng.shuffle(at)
    r = case.np_rng()
    cds, pds = [], []
    for i in at:
        case.call("mesh.read_output", m.read_output, outs, time_step=i)
        cds.append({k: np.array(v) for k, v in m.cell_data.items() if k != "material"})
        pds.append({"u": r.normal(size=m.n_points) * 10.0 ** rng.randint(-5, 5), "disp": r.normal(size=(m.n_points, 3))})
    mode = rng.choice(["both", "cell", "cell", "point"])
    ts = [times[i] for i in at]
    tsa = np.array(ts) if rng.random() < 0.3 else tuple(ts) if rng.random() < 0.3 else list(ts)
    if rng.random() < 0.15:
        tsa, ts = None, [float(i) for i in range(nt)]
    kw = {}
    if mode != "point":
        kw["cell_data"] = cds
    if mode != "cell":
        kw["point_data"] = pds
    if tsa is not None:
        kw["time_steps"] = tsa
    snap = tio.snapshot([kw, m.points, [tuple(c) for c in m.cells]])
    d = case.subdir(rng.choice(["a", "a b"]))
    f = os.path.join(d, rng.choice(["series.xdmf", "out.xmf", "run.1.xdmf"]))
    case.call("write_time_series", toughio.write_time_series, f, m.points, m.cells, **kw)
    case.check(tio.snapshot([kw, m.points, [tuple(c) for c in m.cells]]) == snap, "argument-changed", "writing a series changed its arguments")
    points, cells, pd, cd, tt = case.call("read_time_series", toughio.read_time_series, f)
    case.check(np.array_equal(points, m.points), "points", "points of the series differ")
    case.check(flat(cells) == flat(m.cells), "cells", "cells of the series differ")
    rank = sorted(range(nt), key=lambda i: ts[i])
    case.check([float(t) for t in tt] == [ts[i] for i in rank], "times", lambda: "times %r written, %r read" % (ts, list(tt)))
    # what the file itself says
    said = [float(x) for x in re.findall(r"<Time Value=\"([^\"]+)\"", tio.read_text(f))]
    case.check(said == [ts[i] for i in rank], "times-in-file", lambda: "times %r, file says %r" % (ts, said))
    for j, i in enumerate(rank):
        for name, want, got in (("cell", cds, cd), ("point", pds, pd)):
            if mode not in ("both", name):
                case.check(not got[j], "invented", "data appeared in the series")
                continue
            case.check(set(got[j]) == set(want[i]), "columns", lambda: "%s data %r read as %r" % (name, sorted(want[i]), sorted(got[j])))
            for k in want[i]:
                case.check(np.array_equal(np.asarray(got[j][k], dtype=float), np.asarray(want[i][k], dtype=float), equal_nan=True), "series-values",
                           lambda: "%s data %s at time %r" % (name, k, ts[i]))
                case.count("cells", len(want[i][k]))
    case.count("series")
    case.shape("series", nt, mode, n, tsa is None)
    case.note = {"times": nt, "mode": mode, "cells": n}


def series_refused(case):
    rng = case.rng
    m, ref = start(case, data=False)
    f = case.path("bad.xdmf")
    cds = [{"a": np.arange(m.n_cells, dtype=float)} for _ in range(3)]
    kind = rng.choice(["times", "points", "none", "file", "type"])
    if kind == "times":
        t, a, kw = ValueError, (f, m.points, m.cells), {"cell_data": cds, "time_steps": [0.0] * rng.choice([1, 2, 4])}
    elif kind == "points":
        t, a, kw = ValueError, (f, m.points, m.cells), {"cell_data": cds, "point_data": [{"u": np.zeros(m.n_points)}] * rng.choice([1, 2, 4])}
    elif kind == "none":
        t, a, kw = ValueError, (f, m.points, m.cells), rng.choice([{}, {"time_steps": [1.0]}])
    elif kind == "file":
        t, a, kw = TypeError, (rng.choice([None, 1]), m.points, m.cells), {"cell_data": cds}
    else:
        t, a, kw = TypeError, (f, m.points, m.cells), rng.choice([{"cell_data": {"a": 1}}, {"cell_data": cds, "time_steps": 1.0}, {"point_data": "u"}])
    case.refused("write_time_series/" + kind, t, toughio.write_time_series, *a, **kw)
    case.check(not os.path.exists(f), "touched", "a refused series created a file")
    case.count("mismatch")
    case.shape(kind)


FAMILIES = {"large": (core.large(element), 16, 160), "large_connection": (core.large(connection), 16, 160), "large_series": (core.large(series), 8, 80), 
    "element": (element, 500, 4000),
    "connection": (connection, 300, 2500),
    "mismatch": (mismatch, 200, 1500),
    "series": (series, 150, 1500),
    "series_refused": (series_refused, 40, 200),
}
