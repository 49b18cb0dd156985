"""C13 - the extract command exports every printed time with the coordinates of its own cells."""
import os

import numpy as np
import toughio

from vmon import core
from vmon.lib import gendeck, genout, listing, outfile, tio

RULE = ("Case = main listing rendered by an independent writer with a MESH file (or whole input file) holding the same cells in another order, "
        "possibly with further cells, coordinates in ELEME or COORD, labels of 5-9 characters; extract run with every format, split or not, "
        "elements or connections, rows in another order at every time, times printed again by a restarted run, default or given output file, over existing files; the files written are parsed independently and compared "
        "cell by cell and time by time. Inconsistent calls must be refused and leave the directory as it was. Distinct = format x split x "
        "kind x cells x times x label length x mesh style.")
ASSUMPTIONS = ["every cell of the MESH file has three printed coordinates", "the listing prints connections when they are asked for"]
REACH = {"large": 12, "csv": 100, "tecplot": 60, "petrasim": 60, "split": 60, "connection": 60, "values": 20000, "refused": 60, "coord": 30, "infile": 30,
         "extra": 60, "numbered": 30, "again": 100, "order_changes": 60}
TREL = {"csv": 5.1e-9, "petrasim": 5.1e-13, "tecplot": 5.1e-8}
W = {5: (5, 5, 5), 6: (6, 5, 4), 7: (7, 4, 4), 8: (8, 4, 3), 9: (9, 3, 3)}


def mesh_text(rng, labels, nlab, numbered=False):
    """(text, {label: center}) of a MESH or input file; numbered: sequence numbers follow labels without a blank."""
    style = rng.choice(["MESH", "MESH", "INFILE", "COORD"])
    xyz = {}
    L = []
    if style == "INFILE":
        L += ["A sample problem", "ROCKS----1----*----2", "ROCK1    0 2650.0000 1.000e-01 1.000e-12 1.000e-12 1.000e-12 2.000e+00 1.000e+03", "",
              "PARAM----1----*----2", "", " 0.000e+00 1.000e+09", "", ""]
        L = L[:3] + [""]
    L.append(rng.choice(["ELEME", "ELEME----1----*----2----*----3", "ELEME NEV=    1 NCON=    1"]))
    a, b, c = W[nlab]
    C = []
    for l in labels:
        v = []
        for _ in range(3):
            x = rng.choice([-1, 1]) * rng.choice([0.0, 0.5, 1.0, rng.uniform(0, 9000), rng.uniform(0, 10)])
            v.append(float("%.13e" % x) if style == "COORD" else float("%.3e" % x))
        t = ["%10.3e" % x if rng.random() < 0.7 else ("%10.3E" % x) for x in v]
        if style == "COORD":
            C.append("".join("%20.13e" % x for x in v))
            t = ["%10.3e" % round(x + 100) for x in v] if rng.random() < 0.5 else [" " * 10] * 3
            if t[0] == " " * 10:
                t = ["", "", ""]
        xyz[l] = v
        seq = " " * b + " " * c
        if numbered:
            seq = str(rng.randint(1, 10 ** rng.choice([1, b]) - 1)).ljust(b) + rng.choice([" " * c, str(rng.randint(1, 9)).rjust(c)])
        L.append(l + seq + "ROCK1" + "%10.4e" % rng.uniform(1, 1e9) + " " * 10 + " " * 10 + "".join(t))
    L.append("")
    if style == "COORD":
        L += ["COORD----1----*----2"] + C + [""]
    if len(labels) > 1 and rng.random() < 0.7:
        L.append("CONNE----1----*----2")
        pad = {5: 15, 6: 13, 7: 11, 8: 9, 9: 7}[nlab]
        for x, y in zip(labels, labels[1:]):
            L.append(x + y + " " * pad + "    1" + "%10.4e%10.4e%10.4e" % (0.5, 0.5, 1.0))
        L.append("")
    if style == "INFILE":
        L += ["ENDCY"]
    return "\n".join(L) + "\n", xyz, style


def setup(case):
    rng = case.rng
    S = listing.render(rng, n=rng.choice([2, 3, 7, 20, 60]) if rng.random() < 0.9 else 1, shuffle=rng.random() < 0.15, restart=rng.random() < 0.15)
    cells = list(S["labels"])
    extra = []
    if rng.random() < 0.3:
        used = set(cells)
        extra = [gendeck.label(rng, S["nlab"], used) for _ in range(rng.choice([1, 3, 10]))]
        case.count("extra")
    order = cells + extra
    rng.shuffle(order)
    S["given"] = rng.random() < 0.4
    numbered = S["given"] and rng.random() < 0.5
    if numbered:
        case.count("numbered")
    text, xyz, style = mesh_text(rng, order, S["nlab"], numbered)
    f = tio.write_text(case.path(rng.choice(["OUTPUT.out", "run.lst", "output"])), S["text"], case)
    m = tio.write_text(case.path("INFILE" if style == "INFILE" else "MESH"), text, case)
    case.count({"MESH": "mesh", "INFILE": "infile", "COORD": "coord"}[style])
    return S, xyz, style, f, m


def listdir(d):
    out = {}
    for r, _, fs in os.walk(d):
        for x in fs:
            p = os.path.join(r, x)
            out[os.path.relpath(p, d)] = tio.read_bytes(p)
    return out


def run(argv, d):
    old = os.getcwd()
    os.chdir(d)
    try:
        with tio.quiet():
            toughio._cli.extract(argv)
    finally:
        os.chdir(old)


def extract(case):
    rng = case.rng
    S, xyz, style, f, m = setup(case)
    conn = bool(S["connections"]) and rng.random() < 0.3
    fmt = "csv" if conn else rng.choice(["csv", "csv", "tecplot", "petrasim"])
    split = rng.random() < 0.4
    d = case.subdir("work")
    ext = {"csv": ".csv", "tecplot": ".tec", "petrasim": ".csv"}[fmt]
    argv, name = [], ("OUTPUT_CONNE" if conn else "OUTPUT_ELEME") + ext
    if rng.random() < 0.6:
        name = rng.choice(["out.csv", "out.tec", "result", "my.result.dat", "sub/out.csv"])
        if name.startswith("sub/"):
            os.makedirs(os.path.join(d, "sub"))
        argv += [rng.choice(["-o", "--output-file"]), name if rng.random() < 0.5 else os.path.join(d, name)]
    if fmt != "csv" or rng.random() < 0.3:
        argv += [rng.choice(["-f", "--file-format"]), fmt]
    if split:
        argv.append(rng.choice(["-s", "--split"]))
    if conn:
        argv.append(rng.choice(["-c", "--connection"]))
    if S["given"]:
        argv += [rng.choice(["-l", "--label-length"]), str(S["nlab"])]
    argv = [f, m] + argv if rng.random() < 0.7 else argv + [f, m]
    h, e = os.path.splitext(name)
    nt = len(S["steps"])
    names = ["%s_%d%s" % (h, i + 1, e) for i in range(nt)] if split and nt > 1 else [name]
    if rng.random() < 0.3:
        tio.write_text(os.path.join(d, names[0]), "previous contents\n" * 500)
    src = (tio.read_bytes(f), tio.read_bytes(m))
    case.call("extract", run, argv, d)
    case.check((tio.read_bytes(f), tio.read_bytes(m)) == src, "source-changed", "a source file was changed")
    got = listdir(d)
    case.check(sorted(got) == sorted(names), "files", lambda: "%r wrote %r, expected %r" % (argv, sorted(got), sorted(names)))
    tables = []
    for x in names:
        text = got[x].decode()
        try:
            part = outfile.parse(fmt, text)
        except (outfile.Bad, ValueError, IndexError) as err:
            case.check(False, "file", "%r: %s: %r" % (argv, err, text[:300]))
        case.check(len(names) == 1 or len(part) == 1, "times", lambda: "%d times in %s" % (len(part), x))
        tables += part
    case.check(len(tables) == nt, "times", lambda: "%r: %d times of %d" % (argv, len(tables), nt))
    cols = S["cnames"] if conn else S["names"]
    case.count("order_changes", int(any(s["connections" if conn else "labels"] != S["connections" if conn else "labels"] for s in S["steps"])))
    for (t, l, data), step in zip(tables, S["steps"]):
        labs = [list(x) for x in step["connections"]] if conn else step["labels"]
        pos = np.array([np.mean([xyz[a] for a in x], axis=0) for x in labs]) if conn else np.array([xyz[x] for x in labs])
        case.check(t is not None and genout.close([step["time"]], [t], TREL[fmt]), "time", lambda: "%r / %r" % (step["time"], t))
        case.check(fmt == "tecplot" or l == labs, "labels", lambda: "%r: %r / %r" % (argv, labs[:5], l[:5]))
        case.check(sorted(data) == sorted(cols + ["X", "Y", "Z"]), "columns", lambda: "%r / %r" % (cols, list(data)))
        case.check(list(data)[:3] == ["X", "Y", "Z"], "columns-order", lambda: "%r" % (list(data),))
        for k in cols:
            want = step["connection" if conn else "element"][k]
            case.check(genout.close(want, data[k], 5.1e-13), "values", lambda: "%r %s: %r / %r" % (argv, k, want[:5], data[k][:5]))
            case.count("values", len(want))
        for i, k in enumerate("XYZ"):
            scale = np.abs(pos[:, i]).max() * 1e-15 if conn else 0.0
            ok = genout.close(pos[:, i], data[k], 5.1e-13) or np.all(np.abs(pos[:, i] - np.array(data[k])) <= 5.1e-13 * np.abs(pos[:, i]) + scale)
            case.check(ok, "coordinates", lambda: "%r %s: %r / %r" % (argv, k, pos[:5, i].tolist(), data[k][:5]))
    again = len({s["time"] for s in S["steps"]}) < nt
    case.count("again", int(again))
    # the files can be read by the library (PetraSim files tell steps by their times)
    back = []
    if again and fmt == "petrasim" and len(names) == 1:
        names, nt = [], 0
    for x in names:
        back += case.call("read_output", toughio.read_output, os.path.join(d, x))
    case.check(len(back) == nt and all(b.type == ("connection" if conn else "element") and b.format == fmt for b in back), "read-back",
               lambda: "%r" % ([(b.type, b.format) for b in back],))
    case.count(fmt)
    case.count("split", int(split and nt > 1))
    case.count("connection", int(conn))
    case.shape(fmt, split, conn, len(labs), nt, S["nlab"], style)
    case.note = {"argv": argv[-4:], "cells": len(S["labels"]), "times": nt, "style": style}


def refused(case):
    rng = case.rng
    S, xyz, style, f, m = setup(case)
    d = case.subdir("work")
    kind = rng.choice(["connection-format", "no-infile", "no-mesh", "not-mesh", "not-listing", "missing-cell", "choice"])
    argv = [f, m]
    types = ValueError
    if kind == "connection-format":
        argv += ["-c", "-f", rng.choice(["tecplot", "petrasim"])]
    elif kind == "no-infile":
        argv[0] = case.path("nowhere")
    elif kind == "no-mesh":
        argv[1] = case.path("nowhere")
    elif kind == "not-mesh":
        argv[1] = tio.write_text(case.path("M2"), "INCON\n%s\n 1.0 2.0\n\n" % S["labels"][0] if rng.random() < 0.5 else "GENER\n\n")
        types = Exception
    elif kind == "not-listing":
        o = genout.gen(rng, "element", "XYZ")
        argv[0] = case.path("o.csv")
        toughio.write_output(argv[0], o)
    elif kind == "missing-cell":
        lab = S["labels"][:]
        gone = rng.choice(lab)
        lab.remove(gone)
        used = set(S["labels"])
        lab += [gendeck.label(rng, S["nlab"], used)]
        text, _, _ = mesh_text(rng, lab, S["nlab"])
        argv[1] = tio.write_text(case.path("M2"), text)
    else:
        argv += rng.choice([["-f", "vtk"], ["-l", "4"], ["-l", "10"], ["-x"]])
        types = SystemExit
    names = ["OUTPUT_ELEME.csv", "OUTPUT_CONNE.csv", "OUTPUT_ELEME.tec", "mine.csv", "OUTPUT_CONNE.tec", "OUTPUT_ELEME_1.csv"]
    for x in names:
        tio.write_text(os.path.join(d, x), "precious %s\n" % x)
    if rng.random() < 0.5:
        argv += ["-o", "mine.csv"]
    if rng.random() < 0.3:
        argv += ["-s"]
    before = listdir(d)
    case.refused("extract/" + kind, types, run, argv, d)
    case.check(listdir(d) == before, "touched", lambda: "%r changed the directory" % (argv,))
    case.shape(kind, len(argv))


SCALE = 6  # cases of the quick tier are this many times those listed
FAMILIES = {"large": (core.large(extract), 16, 160), "extract": (extract, 900, 12000), "refused": (refused, 200, 2000)}
