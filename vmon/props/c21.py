"""C21 - mesh files keep points, cells, data and groups."""
import logging
import os
import re
import struct

import numpy as np
import toughio

from vmon import core
from vmon.lib import genmesh, tio
from vmon.props import c20, c22

RULE = ("Case = seeded mesh (mixed cells, surfaces and volumes in any order of blocks, negative coordinates, names with blanks, integer and vector data) written as "
        "FLAC3D (text, binary), Tecplot, AVS-UCD or pickle, decoded by an independent parser of the format and read back by the library; cells are compared as "
        "point-coordinate faces with their data and material. Files written by an independent writer (other numberings, FEPOINT, wrapped tables) are read. "
        "Truncated and damaged files: reading must end. Distinct = format x cell types x order of blocks x data.")
ASSUMPTIONS = ["names of data have no quotes and, for AVS-UCD, no commas", "Tecplot holds one zone of 2D or 3D cells: others are skipped, as it warns",
               "FLAC3D and AVS-UCD hold no other data than documented (FLAC3D: groups; AVS-UCD: numbers of materials, not names)"]
REACH = {"large": 36, "flac3d": 200, "tecplot": 100, "avsucd": 100, "pickle": 40, "foreign": 100, "degenerate": 20, "ungrouped": 20, "damaged": 200, "cells": 20000, "mixed_dim": 60, "values": 20000}

DIM = {"line": 1, "triangle": 2, "quad": 2, "tetra": 3, "pyramid": 3, "wedge": 3, "hexahedron": 3}


def gen(rng, dims=(3,), large=False):
    P, cells = genmesh.build(rng, dims=[rng.choice([1, 2, 3]) for _ in range(3)] if not large else rng.choice([(5, 4, 3), (9, 5, 8), (350, 1, 1)]))
    if 2 in dims:
        G = genmesh.geometry({"points": P, "cells": cells})
        faces = [list(k) for k in G["owner"]]
        faces = [fs[0] for i, f in enumerate(G["faces"]) for fs in f]
        rng.shuffle(faces)
        seen, out = set(), []
        for f in faces:
            if frozenset(f) not in seen:
                seen.add(frozenset(f))
                out.append(("triangle" if len(f) == 3 else "quad", list(f)))
        out = out[:rng.randint(1, 12) if not large else 350]
        where = rng.choice(["before", "after", "mixed"])
        cells = out + cells if where == "before" else cells + out
        if where == "mixed":
            rng.shuffle(cells)
    if 1 in dims:
        cells.insert(rng.randrange(len(cells) + 1), ("line", cells[0][1][:2]))
    return P, cells


def build(case, dims, named=True):
    rng = case.rng
    logging.disable(logging.CRITICAL)
    large = rng.random() < 0.03 or getattr(rng, "big", False)
    P, cells = gen(rng, dims, large)
    B = genmesh.blocks(rng, cells, merge=rng.random() < 0.4)
    m = toughio.Mesh(np.array(P), [(t, c.copy()) for t, c in B])
    n = m.n_cells
    typ = [t for t, b in B for _ in b]
    pool = genmesh.MATS + ["my rock", "my sand", "a b  c", "SLOT 1", "9", u"gr\u00e8s"]
    ng = 3
    if large:
        pool, ng = pool + ["G%03d" % i for i in range(200)], rng.choice([13, 60])
    names = {3: rng.sample(pool, ng), 2: None, 1: None}
    rest = [x for x in pool if x not in names[3]]
    names[2] = rng.sample(rest, ng)
    names[1] = names[2]
    same = rng.random() < 0.3  # numbers of groups of surfaces and volumes may coincide
    ids3 = rng.sample(range(0, 5 * ng), ng)
    if large and rng.random() < 0.5 and 0 not in ids3:
        ids3[0] = 0
    ids2 = ids3 if same else rng.sample([i for i in range(0, 10 * ng) if i not in ids3], ng)
    mats = []
    skew = rng.choice([1.0, 1.0, 0.05]) if large else 1.0
    mat = np.zeros(n, dtype=int)
    for i, t in enumerate(typ):
        k = rng.randrange(ng) if rng.random() < skew else 0
        mat[i] = ids3[k] if DIM[t] == 3 else ids2[k]
        mats.append(names[3][k] if DIM[t] == 3 else names[2][k])
    if rng.random() < 0.93:
        m.add_cell_data("material", mat)
        if named:
            for i, a in zip(ids3, names[3]):
                m.field_data[a] = np.array([i, 3])
            if 2 in dims:
                for i, a in zip(ids2, names[2]):
                    m.field_data[a] = np.array([i, 2])
    else:
        mats = None
    if 2 in dims and min(DIM[t] for t in typ) < 3:
        case.count("mixed_dim")
    return m, typ, mats, same


def facekey(P, t, c):
    """Cell as its faces, each a set of point coordinates (independent of numbering and orientation)."""
    pt = [tuple(float(x) for x in P[a]) for a in c]
    if t in genmesh.FACES:
        return frozenset(frozenset(pt[a] for a in f) for f in genmesh.FACES[t])
    return frozenset(pt)


def rounded(P, digits=None):
    P = np.asarray(P, dtype=float)
    return P if P.shape[1] == 3 else np.hstack((P, np.zeros((len(P), 1))))


# --- independent parsers ---------------------------------------------------------------------
FL = {"B8": ("hexahedron", [0, 1, 4, 2, 3, 6, 7, 5]), "W6": ("wedge", [0, 1, 3, 2, 4, 5]), "P5": ("pyramid", [0, 1, 4, 2, 3]), "T4": ("tetra", [0, 1, 2, 3]),
      "T3": ("triangle", [0, 1, 2]), "Q4": ("quad", [0, 1, 2, 3])}
# FLAC3D vertex order -> hexahedron order: P1(000) P2(100) P3(010) P4(001) P5(110) P6(011) P7(101) P8(111)


def parse_flac_text(text):
    P, cells, groups, cur = {}, [], [], None
    for line in text.split("\n"):
        w = line.split()
        if not w or w[0] == "*":
            if w:
                cur = None
            continue
        if w[0] == "G":
            P[int(w[1])] = tuple(float(x) for x in w[2:5])
        elif w[0] in "ZF":
            cells.append((w[0], int(w[2]), w[1], [int(x) for x in w[3:]]))
        elif w[0] in ("ZGROUP", "FGROUP"):
            cur = (w[0][0], line[line.index('"') + 1:line.rindex('"')], [])
            groups.append(cur)
        else:
            cur[2].extend(int(x) for x in w)
    return P, cells, groups


def parse_flac_binary(b):
    p = [8]

    def rd(fmt):
        v = struct.unpack_from("<" + fmt, b, p[0])
        p[0] += struct.calcsize("<" + fmt)
        return v

    P, cells, groups = {}, [], []
    for _ in range(rd("I")[0]):
        i, x, y, z = rd("I3d")
        P[i] = (x, y, z)
    for flag in "ZF":
        for _ in range(rd("I")[0]):
            i, nv = rd("2I")
            t = {"Z": {4: "T4", 5: "P5", 6: "W6", 8: "B8"}, "F": {3: "T3", 4: "Q4"}}[flag][nv]
            cells.append((flag, i, t, list(rd("%dI" % nv))))
        for _ in range(rd("I")[0]):
            name = rd("%ds" % rd("H")[0])[0].decode("utf-8")
            rd("%ds" % rd("H")[0])
            groups.append((flag, name, list(rd("%dI" % rd("I")[0]))))
    if p[0] != len(b):
        raise ValueError("%d bytes after the end" % (len(b) - p[0]))
    return P, cells, groups


def flac_cells(case, parsed):
    """[(type, coordinates in mesh order, group)]"""
    P, cells, groups = parsed
    of = {}
    for flag, name, ids in groups:
        for i in ids:
            case.check((flag, i) not in of, "file-groups", lambda: "cell %s%d is in two groups" % (flag, i))
            of[flag, i] = name
    known = set((c[0], c[1]) for c in cells)
    case.check(len(known) == len(cells), "file-numbers", "two cells have the same number")
    case.check(set(of) <= known, "file-groups", lambda: "groups name cells that do not exist: %r" % sorted(set(of) - known)[:5])
    out = []
    for flag, i, t, c in cells:
        tt, order = FL[t]
        out.append((tt, [P[c[a]] for a in order], of.get((flag, i))))
    return out


def key_of(t, x):
    pt = [tuple(float(v) for v in p) for p in x]
    if t in genmesh.FACES:
        return (t, frozenset(frozenset(pt[a] for a in f) for f in genmesh.FACES[t]))
    return (t, frozenset(pt))


def flac3d(case):
    rng = case.rng
    m, typ, mats, same = build(case, rng.choice([(3,), (3,), (2, 3), (2, 3), (1, 2, 3)]))
    if same and 2 in {DIM[t] for t in typ}:
        case.count("shared_numbers")
    flip = set()
    if rng.random() < 0.3:
        # some cells are numbered the other way round (negative orientation)
        cells = []
        for c in m.cells:
            d = np.array(c.data)
            MIR = {"tetra": [0, 2, 1, 3], "hexahedron": [4, 5, 6, 7, 0, 1, 2, 3], "wedge": [3, 4, 5, 0, 1, 2], "pyramid": [0, 3, 2, 1, 4]}
            if c.type in MIR:
                sel = np.array([rng.random() < 0.4 for _ in d])
                d[sel] = d[sel][:, MIR[c.type]]
            cells.append((c.type, d))
        m.cells = cells
    binary = rng.random() < 0.5
    f = case.path("grid.f3grid" if rng.random() < 0.5 else "grid.txt")
    kw = {} if f.endswith(".f3grid") else {"file_format": "flac3d"}
    before = c20.image(m)
    case.call("write", toughio.write_mesh if rng.random() < 0.5 else lambda a, b, **k: b.write(a, **k), f, m, **dict(kw, **({"binary": True} if binary else rng.choice([{}, {"binary": False}]))))
    case.check(c20.image(m) == before, "argument-changed", "writing changed the mesh")
    P = np.asarray(m.points)
    want, n1 = {}, 0
    i = 0
    for t, b in m.cells:
        for c in b:
            if DIM[t] > 1:
                k = key_of(t, P[c])
                if k in want and want[k] != (mats[i] if mats else None):
                    case.count("ambiguous")
                want[k] = mats[i] if mats else None
                n1 += 1
            i += 1
    parsed = parse_flac_binary(tio.read_bytes(f)) if binary else parse_flac_text(tio.read_text(f))
    got = flac_cells(case, parsed)
    case.check(sorted(parsed[0].values()) == sorted(tuple(x) for x in P.tolist()), "file-points", "points in the file differ")
    compare(case, "file", got, want, n1, positive=True)
    b = case.call("read", toughio.read_mesh, f, **kw)
    case.check(np.array_equal(np.asarray(b.points), P), "points", "points read differ")
    bm = [str(x) for x in b.materials] if mats else [None] * b.n_cells
    got = [(t, np.asarray(b.points)[c].tolist(), None) for t, d in b.cells for c in d]
    got = [(t, x, a) for (t, x, _), a in zip(got, bm)]
    compare(case, "read", got, want, n1, positive=True)
    if mats:
        used = {a: 3 if DIM[t] == 3 else 2 for t, a in zip(typ, mats) if DIM[t] > 1}
        case.check(set(b.field_data) == set(used), "field-data", lambda: "names %r, expected %r" % (sorted(b.field_data), sorted(used)))
        case.check(all(int(b.field_data[a][1]) == d for a, d in used.items()), "field-data", lambda: "dimensions %r" % b.field_data)
    else:
        case.check("material" not in b.cell_data and not b.field_data, "invented", lambda: "groups appeared: %r" % b.field_data)
    case.count("flac3d")
    case.count("binary" if binary else "text")
    case.shape("flac3d", binary, tuple(typ[:1]), len(m.cells), sorted(set(typ)), bool(mats))
    case.note = {"format": "flac3d", "binary": binary, "cells": n1, "types": sorted(set(typ))}


def compare(case, what, got, want, n, positive=False):
    case.check(len(got) == n, "count", lambda: "%s: %d cells, expected %d" % (what, len(got), n))
    seen = set()
    for t, x, a in got:
        k = key_of(t, x)
        case.check(k in want, "cell", lambda: "%s: %s %r is not a cell of the mesh" % (what, t, x))
        case.check(want[k] == a, "group", lambda: "%s: %s at %r is in group %r, expected %r" % (what, t, np.mean(x, axis=0), a, want[k]))
        case.check(k not in seen, "repeated", lambda: "%s: %s %r twice" % (what, t, x))
        seen.add(k)
        if positive and t in genmesh.FACES:  # FLAC3D wants right-handed corners (its wedge is the mirror of the one of genmesh)
            v = genmesh.geometry({"points": np.array(x, dtype=float), "cells": [(t, list(range(len(x))))]})["volumes"][0]
            case.check(v > 0 if t != "wedge" else v < 0, "orientation", lambda: "%s: %s %r is turned inside out" % (what, t, x))
        case.count("cells")


# --- Tecplot -------------------------------------------------------------------------------
def tec_names(data, n):
    out = []
    for k, v in data.items():
        v = np.asarray(v)
        if v.ndim == 1:
            out.append((k, v))
        else:
            out += [("%s_%d" % (k, i), x) for i, x in enumerate(v.T)]
    return out


def parse_tecplot(text):
    import re

    head = re.search(r"VARIABLES\s*=\s*(.*)\n", text)
    names = re.findall(r'"([^"]*)"', head.group(1))
    z = re.search(r"^ZONE(.*?)\n(?=\s*[-+.\d])", text, re.S | re.M)
    zone = z.group(1)
    N, E = int(re.search(r"NODES\s*=\s*(\d+)", zone).group(1)), int(re.search(r"ELEMENTS\s*=\s*(\d+)", zone).group(1))
    typ = re.search(r"ZONETYPE\s*=\s*(\w+)", zone).group(1)
    cc = set()
    v = re.search(r"VARLOCATION\s*=\s*\(\[([^\]]*)\]\s*=\s*CELLCENTERED\)", zone)
    if v:
        for r in v.group(1).split(","):
            a = [int(q) for q in r.split("-")]
            cc |= set(range(a[0] - 1, a[-1]))
    tok = text[z.end():].split()
    p, data = 0, []
    for i, k in enumerate(names):
        n = E if i in cc else N
        data.append((k, i in cc, [float(x) for x in tok[p:p + n]]))
        p += n
    rest = [int(x) for x in tok[p:]]
    nv = {"FEBRICK": 8, "FEQUADRILATERAL": 4, "FETETRAHEDRON": 4, "FETRIANGLE": 3}[typ]
    if len(rest) != nv * E:
        raise ValueError("%d numbers for %d cells of %d nodes" % (len(rest), E, nv))
    return typ, data, [rest[i * nv:(i + 1) * nv] for i in range(E)], N


def uniq(c):
    o = []
    for a in c:
        if a not in o:
            o.append(a)
    return o


TZ = {"triangle": "FETRIANGLE", "quad": "FEQUADRILATERAL", "tetra": "FETETRAHEDRON", "hexahedron": "FEBRICK"}


def tecplot(case):
    rng = case.rng
    flat = rng.random() < 0.3
    if flat:
        logging.disable(logging.CRITICAL)
        P, cells, _ = c20.flat_mesh(rng)
        B = genmesh.blocks(rng, cells)
        m = toughio.Mesh(np.array(P), [(t, c.copy()) for t, c in B])
        typ = [t for t, b in B for _ in b]
        m.add_cell_data("material", np.array([rng.randint(1, 3) for _ in typ]))
    else:
        m, typ, _, _ = build(case, rng.choice([(3,), (3,), (2, 3), (1, 3)]))
    fill(case, m, ["PRES", "the temp", "long data name", "vec", "a,b", "x=1"] if rng.random() < 0.5 else ["PRES", "TEMP", "vec"])
    if rng.random() < 0.15:
        m.cell_data = {}
    f = case.path(rng.choice(["grid.dat", "grid.tec", "grid"]))
    kw = {} if "." in os.path.basename(f) else {"file_format": "tecplot"}
    before = c20.image(m)
    case.call("write", toughio.write_mesh, f, m, **kw)
    case.check(c20.image(m) == before, "argument-changed", "writing changed the mesh")
    P = np.asarray(m.points, dtype=float)
    dim = 3 if any(DIM[t] == 3 for t in typ) else 2
    keep = [i for i, t in enumerate(typ) if DIM[t] == dim]
    conn = [[int(a) for a in c] for _, b in m.cells for c in b]
    pn = tec_names({"XYZ"[i]: P[:, i] for i in range(P.shape[1])}, 0) + tec_names(m.point_data, 0)
    cn = [(k, np.asarray(v)[keep]) for k, v in tec_names(m.cell_data, 0)]
    zt, data, cells, N = parse_tecplot(tio.read_text(f))
    case.check(N == len(P) and len(cells) == len(keep), "count", lambda: "file: %d points, %d cells, expected %d, %d" % (N, len(cells), len(P), len(keep)))
    case.check([(k, c) for k, c, _ in data] == [(k, False) for k, _ in pn] + [(k, True) for k, _ in cn], "names", lambda: "file: variables %r" % [d[:2] for d in data])
    kinds = {t for t in typ if DIM[t] > 1}
    if len(kinds) == 1 and kinds <= set(TZ):
        case.check(zt == TZ[min(kinds)], "zone-type", lambda: "%r written as %s" % (kinds, zt))
        case.count("tecplot_same_type")
    for (k, _, v), (_, w) in zip(data, pn + cn):
        case.check(np.array_equal(np.asarray(v), np.asarray(w, dtype=float)), "file-values", lambda: "file: %s is %r, expected %r" % (k, v[:5], w[:5]))
        case.count("values", len(v))
    for i, c in zip(keep, cells):
        u = uniq([a - 1 for a in c])
        case.check(sorted(u) == sorted(conn[i]), "cell", lambda: "file: cell %r, expected %r" % (u, conn[i]))
        case.check(degenerate_ok(typ[i], conn[i], [a - 1 for a in c]), "cell-order", lambda: "file: %s %r written as %r" % (typ[i], conn[i], c))
    b = case.call("read", toughio.read_mesh, f, **kw)
    case.check(np.array_equal(np.asarray(b.points), P), "points", "points read differ")
    got = [[int(a) for a in c] for _, d in b.cells for c in d]
    case.check(got == [[a - 1 for a in c] for c in cells], "cells-read", lambda: "cells read %r" % got[:3])
    case.check({c.type for c in b.cells} == {{"FEBRICK": "hexahedron", "FEQUADRILATERAL": "quad", "FETETRAHEDRON": "tetra", "FETRIANGLE": "triangle"}[zt]}, "type", "type of cells read")
    ren = lambda k: "_".join(k.split())
    case.check(sorted(ren(k) for k, _ in cn) == sorted(b.cell_data) and sorted(ren(k) for k, _ in pn[P.shape[1]:]) == sorted(b.point_data), "names",
               lambda: "names read %r %r" % (list(b.cell_data), list(b.point_data)))
    for k, v in cn:
        case.check(np.array_equal(b.cell_data[ren(k)], np.asarray(v, dtype=float)), "values", lambda: "read: %s" % k)
    for k, v in pn[P.shape[1]:]:
        case.check(np.array_equal(b.point_data[ren(k)], np.asarray(v, dtype=float)), "values", lambda: "read: %s" % k)
    case.count("tecplot")
    case.count("cells", len(keep))
    case.shape("tecplot", zt, tuple(sorted(set(typ))), len(m.cells), len(cn), len(pn))
    case.note = {"format": "tecplot", "zone": zt, "cells": len(keep), "names": [k for k, _ in pn + cn]}


def degenerate_ok(t, c, f):
    """Brick (or quadrilateral) f with repeated nodes has the faces of cell c."""
    if len(f) in (3, 4) and t in ("triangle", "quad", "tetra"):
        return uniq(f) == c if t != "tetra" else sorted(f) == sorted(c)
    B = [frozenset(f[a] for a in q) for q in genmesh.FACES["hexahedron"]]
    got = {x for x in B if len(x) > 2}
    return got == {frozenset(c[a] for a in q) for q in genmesh.FACES[t]}


def fill(case, m, names):
    rng, r = case.rng, case.np_rng()
    cn, pn = rng.sample(names, rng.randint(0, min(3, len(names)))), rng.sample(["u", "my disp", "id", "d"], rng.randint(0, 2))
    if rng.random() < 0.04:
        cn, pn = cn + ["c%d" % i for i in range(rng.choice([0, 14, 45]))], pn + ["p%d" % i for i in range(rng.choice([14, 45]))]
    for k in cn:
        v = r.normal(size=(m.n_cells, rng.choice([2, 3])) if k == "vec" else m.n_cells) * 10.0 ** rng.randint(-8, 9)
        m.add_cell_data(k, v if rng.random() < 0.7 or k == "vec" else r.randint(-9, 99, m.n_cells))
    for k in pn:
        v = r.normal(size=(m.n_points, 3) if k == "d" else m.n_points) * 10.0 ** rng.randint(-8, 9)
        m.add_point_data(k, r.randint(-9, 99, m.n_points) if k == "id" else v)


# --- AVS-UCD -------------------------------------------------------------------------------
AVS = {"pt": ("vertex", [0]), "line": ("line", [0, 1]), "tri": ("triangle", [0, 1, 2]), "quad": ("quad", [0, 1, 2, 3]), "tet": ("tetra", [0, 1, 3, 2]),
       "pyr": ("pyramid", [1, 2, 3, 4, 0]), "prism": ("wedge", [3, 4, 5, 0, 1, 2]), "hex": ("hexahedron", [4, 5, 6, 7, 0, 1, 2, 3])}


def parse_avs(text):
    L = [l for l in text.split("\n") if not l.startswith("#")]
    n, e, nd, ed = [int(x) for x in L[0].split()[:4]]
    p = 1
    P, C = {}, []
    for l in L[p:p + n]:
        w = l.split()
        P[int(w[0])] = [float(x) for x in w[1:4]]
    p += n
    for l in L[p:p + e]:
        w = l.split()
        C.append((int(w[0]), int(w[1]), w[2], [int(x) for x in w[3:]]))
    p += e

    def table(cnt, total):
        nonlocal p
        w = [int(x) for x in L[p].split()]
        sizes = w[1:]
        if len(sizes) != w[0] or sum(sizes) != total:
            raise ValueError("sizes %r, total %d" % (w, total))
        p += 1
        names = [L[p + i].split(",")[0] for i in range(w[0])]
        p += w[0]
        R = {}
        for l in L[p:p + cnt]:
            q = l.split()
            if len(q) != total + 1:
                raise ValueError("row of %d values, expected %d" % (len(q) - 1, total))
            R[int(q[0])] = [float(x) for x in q[1:]]
        p += cnt
        return names, sizes, R

    pd = table(n, nd) if nd else ([], [], {})
    cd = table(e, ed) if ed else ([], [], {})
    if any(l.strip() for l in L[p:]):
        raise ValueError("text after the end %r" % L[p:p + 2])
    return P, C, pd, cd


def avsucd(case):
    rng = case.rng
    if rng.random() < 0.3:
        logging.disable(logging.CRITICAL)
        P, cells, _ = c20.flat_mesh(rng)
        B = genmesh.blocks(rng, cells)
        m = toughio.Mesh(np.array(P), [(t, c.copy()) for t, c in B])
        typ = [t for t, b in B for _ in b]
        if rng.random() < 0.8:
            m.add_cell_data("material", np.array([rng.randint(0, 3) for _ in typ]))
    else:
        m, typ, _, _ = build(case, rng.choice([(3,), (3,), (2, 3), (1, 2, 3)]))
    fill(case, m, ["PRES", "the temp", "long data name", "vec"])
    f = case.path("grid.avs")
    before = c20.image(m)
    case.call("write", toughio.write_mesh, f, m, file_format="avsucd")
    case.check(c20.image(m) == before, "argument-changed", "writing changed the mesh")
    P = rounded(m.points)
    conn = [(t, [int(a) for a in c]) for t, b in m.cells for c in b]
    mat = np.asarray(m.cell_data.get("material", np.zeros(len(conn), dtype=int)))
    X, C, pd, cd = parse_avs(tio.read_text(f))
    case.check([X[i + 1] for i in range(len(P))] == P.tolist() and len(X) == len(P), "file-points", "points in the file differ")
    case.check(len(C) == len(conn), "count", lambda: "file: %d cells of %d" % (len(C), len(conn)))
    for (i, g, t, c), (tt, cc), mm in zip(C, conn, mat):
        T, order = AVS[t]
        case.check(T == tt and key_of(T, [X[c[a]] for a in order]) == key_of(tt, P[cc]), "cell", lambda: "file: %s %r, expected %s %r" % (t, c, tt, cc))
        if tt in genmesh.FACES:
            v, w = [genmesh.geometry({"points": P, "cells": [(tt, q)]})["volumes"][0] for q in ([c[a] - 1 for a in order], cc)]
            case.check(abs(v - w) <= 1e-9 * abs(w), "orientation", lambda: "file: %s %r" % (t, c))
        case.check(g == mm, "group", lambda: "file: cell %d has material %d, expected %d" % (i, g, mm))
        case.count("cells")
    for what, data, (names, sizes, R) in (("point", m.point_data, pd), ("cell", {k: v for k, v in m.cell_data.items() if k != "material"}, cd)):
        case.check([k for k in data] == names, "names", lambda: "file: %s data %r, expected %r" % (what, names, list(data)))
        p = 0
        for k, s in zip(names, sizes):
            v = np.asarray(data[k], dtype=float).reshape(len(R), -1)
            case.check(v.shape[1] == s, "sizes", lambda: "file: %s has %d components" % (k, s))
            w = np.array([R[i + 1][p:p + s] for i in range(len(R))])
            case.check(bool(np.all(np.abs(v - w) <= 1e-13 * np.abs(v))), "file-values", lambda: "file: %s data %s" % (what, k))
            p += s
            case.count("values", v.size)
    b = case.call("read", toughio.read_mesh, f, file_format="avsucd")
    case.check(np.array_equal(np.asarray(b.points), P), "points", "points read differ")
    got = [(t, [int(a) for a in c]) for t, d in b.cells for c in d]
    case.check(got == conn, "cells-read", lambda: "cells read %r, expected %r" % (got[:3], conn[:3]))
    ren = lambda k: k.replace(" ", "_")
    case.check({ren(k) for k in m.cell_data} | {"material"} == set(b.cell_data) and {ren(k) for k in m.point_data} == set(b.point_data), "names",
               lambda: "names read %r %r" % (sorted(b.cell_data), sorted(b.point_data)))
    case.check(np.array_equal(np.asarray(b.cell_data["material"]), mat), "group", "materials read differ")
    for src, dst in ((m.cell_data, b.cell_data), (m.point_data, b.point_data)):
        for k, v in src.items():
            v, w = np.asarray(v, dtype=float), np.asarray(dst[ren(k)], dtype=float)
            case.check(v.shape == w.shape and bool(np.all(np.abs(v - w) <= 1e-13 * np.abs(v))), "values", lambda: "read: %s" % k)
    case.count("avsucd")
    case.shape("avsucd", tuple(sorted(set(typ))), len(m.cells), sorted(m.cell_data), sorted(m.point_data))
    case.note = {"format": "avsucd", "cells": len(conn), "cell_data": sorted(m.cell_data), "point_data": sorted(m.point_data)}


def pickled(case):
    rng = case.rng
    m, typ, mats, _ = build(case, rng.choice([(3,), (2, 3), (1, 2, 3)]))
    fill(case, m, ["PRES", "the temp", "vec"])
    if rng.random() < 0.3:
        m.add_cell_data("tensor", case.np_rng().normal(size=(m.n_cells, 3, 3)))
    m.label_length = rng.choice([None, 5, 7])
    f = case.path(rng.choice(["m.pickle", "m.pkl", "m"]))
    kw = {} if "." in os.path.basename(f) else {"file_format": "pickle"}
    before = c20.image(m)
    case.call("write", toughio.write_mesh, f, m, **dict(kw, **rng.choice([{}, {"protocol": rng.choice([2, 3, 4])}])))
    case.check(c20.image(m) == before, "argument-changed", "writing changed the mesh")
    b = case.call("read", toughio.read_mesh, f, **kw)
    case.check(c20.image(b) == before, "pickle", "the mesh read is not the mesh written")
    case.count("pickle")
    case.shape("pickle", tuple(sorted(set(typ))), sorted(m.cell_data))


# --- files of other writers ------------------------------------------------------------------
def foreign(case):
    rng = case.rng
    logging.disable(logging.CRITICAL)
    fmt = rng.choice(["flac3d", "flac3d", "tecplot", "avsucd"])
    P, cells = gen(rng, (3,) if rng.random() < 0.5 else (2, 3))
    if fmt == "tecplot":
        P, cells = genmesh.build(rng, kind=rng.choice(["hexa", "tetra"]), dims=[2, 1, 2])
    n = len(cells)
    if rng.random() < 0.7:
        ids = rng.sample(range(1, 5 * len(P) + 5), len(P))
    else:
        ids = list(range(1, len(P) + 1))
    def fl(x):
        s = rng.choice(["%r", "%.17g", "%.16E", "%25.16e", "%+.16e", "%+.17g"]) % float(x)
        if rng.random() < 0.2:
            s = re.sub(r"^([+-]?)0\.(?=[0-9])", r"\1.", s)
        return s

    names = ["my rock", "sand", "b c d"]
    if fmt == "flac3d":
        f = case.path("x.f3grid")
        L = ["* some comment", "* GRIDPOINTS"]
        for i, x in zip(ids, P):
            L.append("G %d %s" % (i, " ".join(fl(v) for v in x)))
        want = {}
        g = {"Z": {}, "F": {}}
        cid = {"Z": rng.sample(range(1, 9 * n), n), "F": rng.sample(range(1, 9 * n), n)}
        k = {"Z": 0, "F": 0}
        sect = {"Z": [], "F": []}
        inv = {t: (code, np.argsort(o)) for code, (t, o) in FL.items()}
        loose = rng.choice([0, 0, 0.3, 0.9])
        for t, c in cells:
            flag = "Z" if DIM[t] == 3 else "F"
            code, o = inv[t]
            num = cid[flag][k[flag]]
            k[flag] += 1
            v = [c[a] for a in o]
            if code == "B8" and rng.random() < 0.15:
                # degenerate brick: its last two vertices are the same
                code, v = "B7", v[:7]
                w = v + v[-1:]
                c = [w[a] for a in FL["B8"][1]]
                case.count("degenerate")
            sect[flag].append("%s %s %d %s" % (flag, code, num, " ".join(str(ids[a]) for a in v)))
            a = rng.choice(names) + ("" if flag == "Z" else " face")
            if rng.random() < loose:
                # in no group
                a = 0
                case.count("ungrouped")
            else:
                g[flag].setdefault(a, []).append(num)
            want[key_of(t, P[c])] = a
        grouped = rng.random() < 0.8
        for flag in "ZF":
            if not sect[flag]:
                continue
            L += ["* %s" % ("ZONES" if flag == "Z" else "FACES")] + sect[flag]
            if grouped:
                L.append("* GROUPS")
                for a, v in g[flag].items():
                    L.append('%sGROUP "%s"%s' % (flag, a, rng.choice(["", ' SLOT "Default"', ' SLOT Default'])) if False else '%sGROUP "%s" SLOT "Default"' % (flag, a))
                    nc = rng.choice([1, 7, 10, 200])
                    L += [" " + " ".join(str(x) for x in v[i:i + nc]) for i in range(0, len(v), nc)]
        tio.write_text(f, "\n".join(L) + rng.choice(["", "\n"]), case)
        b = case.call("read", toughio.read_mesh, f)
        case.check(np.array_equal(np.asarray(b.points), P), "points", "points read differ")
        grouped = grouped and any(g.values())
        if grouped:
            name = dict([(int(v[0]), k) for k, v in b.field_data.items()] + [(0, 0)])
            bm = [name[int(x)] for x in b.cell_data["material"]]
            if 0 not in bm:
                case.check(bm == [str(x) for x in b.materials], "group", "names of materials")
        else:
            case.check(not b.cell_data and not b.field_data, "group", lambda: "no group, data %r %r" % (b.cell_data, b.field_data))
            bm = [None] * b.n_cells
        got = [(t, np.asarray(b.points)[c].tolist()) for t, d in b.cells for c in d]
        compare(case, "foreign flac3d", [(t, x, a) for (t, x), a in zip(got, bm)], want if grouped else {q: None for q in want}, n)
    elif fmt == "avsucd":
        f = case.path("x.inp")
        L = ["# comment"] * rng.randint(0, 2)
        cids = rng.sample(range(1, 9 * n), n)
        nd, ed = rng.choice([0, 1, 4]), rng.choice([0, 1, 4])
        L.append("%d %d %d %d 0" % (len(P), n, nd, ed))
        for i, x in zip(ids, P):
            L.append("%d %s" % (i, " ".join(fl(v) for v in x)))
        mat = [rng.randint(0, 5) for _ in cells]
        inv = {t: (code, np.argsort(o)) for code, (t, o) in AVS.items()}
        for i, mm, (t, c) in zip(cids, mat, cells):
            L.append("%d %d %s %s" % (i, mm, inv[t][0], " ".join(str(ids[c[a]]) for a in inv[t][1])))
        r = case.np_rng()
        data = {}
        for what, cnt, who in (("p", nd, ids), ("c", ed, cids)):
            if cnt:
                order = list(range(len(who)))
                rng.shuffle(order)
                v = r.normal(size=(len(who), cnt))
                L.append("1 1" if cnt == 1 else "2 1 3")
                L += ["u, m"] if cnt == 1 else ["u, m", "v w, Pa"]
                L += ["%d %s" % (who[i], " ".join("%.17g" % x for x in v[i])) for i in order]
                data[what] = v
        tio.write_text(f, "\n".join(L) + "\n", case)
        b = case.call("read", toughio.read_mesh, f, file_format="avsucd")
        case.check(np.array_equal(np.asarray(b.points), P), "points", "points read differ")
        got = [(t, [int(a) for a in c]) for t, d in b.cells for c in d]
        case.check(got == [(t, list(c)) for t, c in cells], "cells-read", lambda: "cells %r expected %r" % (got[:2], cells[:2]))
        case.check(list(b.cell_data["material"]) == mat, "group", "materials read differ")
        for what, dst in (("p", b.point_data), ("c", b.cell_data)):
            if what in data:
                v = data[what]
                case.check(np.array_equal(dst["u"], v[:, 0]) and (v.shape[1] == 1 or np.array_equal(dst["v_w"], v[:, 1:])), "values", "data of other numbering")
        case.count("cells", n)
    else:
        f = case.path("x.dat")
        zt = {"hexahedron": ("BRICK", "FEBRICK"), "tetra": ("TETRAHEDRON", "FETETRAHEDRON")}[cells[0][0]]
        r = case.np_rng()
        u = r.normal(size=len(P))
        point = rng.random() < 0.5
        # the variables in any order, some of them of the cells
        xyz = rng.choice(["XYZ", "XYZ", "xyz"])
        cols = [(k, P[:, i], 0) for i, k in enumerate(xyz)] + [("my var", u, 0)]
        if not point and rng.random() < 0.6:
            cols += [("c%d" % i, r.normal(size=n), 1) for i in range(rng.choice([1, 2, 5]))]
        if rng.random() < 0.4:
            rng.shuffle(cols)
            case.count("variables shuffled")
        names = [k for k, _, _ in cols]
        L = ['TITLE = "a = b"', rng.choice(["VARIABLES = " + ", ".join('"%s"' % k for k in names), "VARIABLES = " + " ".join(names).replace("my var", "my_var"),
                                            "VARIABLES=" + " ".join('"%s"' % k for k in names), "variables = " + ",".join('"%s"' % k for k in names)])]
        pk = ("POINT" if point else "BLOCK")
        loc = []
        at = [i + 1 for i, c in enumerate(cols) if c[2]]
        if at:
            runs = []
            for i in at:
                if runs and runs[-1][1] == i - 1 and rng.random() < 0.8:
                    runs[-1][1] = i
                else:
                    runs.append([i, i])
            loc = ["[%s]=CELLCENTERED" % ("%d" % a if a == b else "%d-%d" % (a, b)) for a, b in runs]
            rest = [i + 1 for i, c in enumerate(cols) if not c[2]]
            if rng.random() < 0.4:
                loc += ["[%d] = NODAL" % i for i in rng.sample(rest, rng.randint(1, len(rest)))]
                rng.shuffle(loc)
            loc = "VARLOCATION = (%s)" % ", ".join(loc)
            if at == list(range(len(cols) - len(at) + 1, len(cols) + 1)) and rng.random() < 0.3:
                loc = "NV = %d" % (len(cols) - len(at))
            case.count("cell variables")
        L.append(rng.choice(["ZONE T=\"zone 1\", N=%d, E=%d, F=FE%s, ET=%s" % (len(P), n, pk, zt[0]),
                             "ZONE NODES = %d, ELEMENTS = %d\n, DATAPACKING = %s, ZONETYPE = %s" % (len(P), n, pk, zt[1])])
                 + (rng.choice([", ", "\n, ", "\n"]) + loc if loc else ""))
        if point:
            L += [" ".join(fl(v) for v in row) for row in np.column_stack([v for _, v, _ in cols])]
        else:
            for _, col, _ in cols:
                nc = rng.choice([1, 3, 20, 1000])
                L += [" ".join(fl(v) for v in col[i:i + nc]) for i in range(0, len(col), nc)]
        if rng.random() < 0.3:
            L.append("")
        L += [" ".join(str(a + 1) for a in c) for _, c in cells]
        tio.write_text(f, "\n".join(L) + rng.choice(["", "\n"]), case)
        b = case.call("read", toughio.read_mesh, f)
        case.check(np.array_equal(np.asarray(b.points), P), "points", "points read differ")
        got = [(t, [int(a) for a in c]) for t, d in b.cells for c in d]
        case.check(got == [(t, list(c)) for t, c in cells], "cells-read", lambda: "cells %r expected %r" % (got[:2], cells[:2]))
        case.check(list(b.point_data) == ["my_var"] and np.array_equal(b.point_data["my_var"], u), "values", lambda: "data %r" % b.point_data)
        want = {k: v for k, v, w in cols if w}
        case.check(list(b.cell_data) == list(want) and all(np.array_equal(b.cell_data[k], v) for k, v in want.items()), "values", lambda: "cell data %r, expected %r" % (b.cell_data, want))
        case.count("cells", n)
    case.count("foreign")
    case.shape("foreign", fmt, n, len(P))
    case.note = {"foreign": fmt, "cells": n}


def damaged(case):
    """Cut or corrupted files: reading ends (with any answer or any ordinary error)."""
    rng = case.rng
    fmt = rng.choice(["flac3d", "flac3d-bin", "tecplot", "avsucd"])
    m, typ, mats, _ = build(case, (3,), named=True)
    fill(case, m, ["PRES", "TEMP"])
    f = case.path("x")
    kw = {"file_format": fmt.split("-")[0]}
    case.call("write", toughio.write_mesh, f, m, **dict(kw, **({"binary": True} if "bin" in fmt else {})))
    b = tio.read_bytes(f)
    for _ in range(6):
        k = rng.choice(["cut", "cut", "line", "byte", "drop"])
        d = bytearray(b)
        if k == "cut":
            d = d[:rng.randrange(len(d))]
        elif k == "byte":
            for _ in range(rng.randint(1, 5)):
                d[rng.randrange(len(d))] = rng.choice(b"0123456789 \n\x00\xff*-,")
        elif "bin" in fmt:
            d = d[:rng.randrange(len(d))]
        else:
            L = bytes(d).split(b"\n")
            i = rng.randrange(len(L))
            if k == "line":
                L[i] = b""
            else:
                del L[i]
            d = b"\n".join(L)
        with open(f, "wb") as h:
            h.write(bytes(d))
        case.count("damaged")
        try:
            with core.steps(400000):
                toughio.read_mesh(f, **kw)
            case.count("damaged_read")
        except core.StepBudget as e:
            raise core.Violation("no-termination", "reading a damaged %s file: %s" % (fmt, e))
        except MemoryError:
            case.count("damaged_memory")
        except Exception:
            case.count("damaged_error")
    case.check(True, "end", "")
    case.shape("damaged", fmt, len(b) % 97)


SCALE = 3  # cases of the quick tier are this many times those listed
FAMILIES = {"large_flac3d": (core.large(flac3d), 12, 80), "large_tecplot": (core.large(tecplot), 12, 80), "large_avsucd": (core.large(avsucd), 12, 80), "large_foreign": (core.large(foreign), 12, 80),
    "flac3d": (flac3d, 500, 4000),
    "tecplot": (tecplot, 300, 2500),
    "avsucd": (avsucd, 300, 2500),
    "pickled": (pickled, 80, 400),
    "foreign": (foreign, 300, 2500),
    "damaged": (damaged, 80, 600),
}
