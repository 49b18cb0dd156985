"""C08 - outputs written in a simulator format read back the same."""
import os

import numpy as np
import toughio

from vmon.lib import genout, listing, tio

RULE = ("Case = seeded outputs (element or connection data, several times, labels of 5-9 characters, extreme values) written "
        "in every format that can hold them and read back: labels, times, columns and every value compared; writing what "
        "was read reproduces the file. Simulator-style files are rendered independently and read. Distinct = format x kind "
        "x cells x times x columns.")
ASSUMPTIONS = ["column names have no blanks, commas, quotes or equal signs and do not start with ELEM",
               "times of one PetraSim file are distinct and increase"]
REACH = {"columns shuffled": 200, "damaged_listing": 60, "damaged_save": 60, "csv": 200, "petrasim": 100, "tecplot": 100, "connection": 100, "values": 20000, "foreign": 300, "no_time": 20, "close_times": 40, "again": 60}
REL = 5.1e-13
TREL = {"csv": 5.1e-9, "petrasim": REL, "tecplot": 5.1e-8}


def compare(case, fmt, outs, got, src):
    case.check(isinstance(got, list) and len(got) == len(outs), "count",
               lambda: "%s: %d times written, read %r" % (fmt, len(outs), [getattr(g, "time", g) for g in got]))
    for o, g in zip(outs, got):
        case.check(g.format == fmt, "format", lambda: "%s read as %s" % (fmt, g.format))
        case.check(g.type == o.type, "type", lambda: "%s read as %s" % (o.type, g.type))
        if o.time is None:
            case.check(g.time is None, "time", lambda: "time %r read as %r" % (o.time, g.time))
        else:
            case.check(g.time is not None and genout.close([o.time], [g.time], TREL[fmt]), "time",
                       lambda: "%s: time %r read as %r" % (fmt, o.time, g.time))
        if fmt != "tecplot":
            want = np.asarray(o.labels).tolist()
            case.check(np.asarray(g.labels).tolist() == want, "labels", lambda: "%s: %r read as %r" % (fmt, want[:5], np.asarray(g.labels).tolist()[:5]))
        keys = [k for k in "XYZ" if k in o.data] + [k for k in o.data if k not in ("X", "Y", "Z")]
        # a file has one order of columns: that of the outputs if they have the same
        same = all(list(x.data) == list(o.data) for x in outs)
        case.check(list(g.data) == keys if same else sorted(g.data) == sorted(keys), "columns", lambda: "%s: %r read as %r" % (fmt, keys, list(g.data)))
        for k in keys:
            case.check(genout.close(o.data[k], g.data[k], REL), "values", lambda: "%s time %r column %s: %r read as %r" % (
                fmt, o.time, k, list(o.data[k])[:6], list(np.asarray(g.data[k]))[:6]))
            case.count("values", len(o.data[k]))


def restarted(rng, outs):
    """Times of a run that was continued from an earlier time: some are printed again."""
    times = [o.time for o in outs]
    i = rng.randrange(1, len(outs))
    times[i] = rng.choice(times[:i])
    if rng.random() < 0.3:
        rng.shuffle(times)
    return [o._replace(time=t) for o, t in zip(outs, times)]


def written(case):
    rng = case.rng
    kind = rng.choice(["element", "element", "connection"])
    coords = rng.choice(["XYZ", "XYZ", "XY", "", "XZ", "Z"])
    outs = genout.gen(rng, kind, coords)
    if len(outs) > 1 and rng.random() < 0.15:  # rows in another order, connections in the other direction
        for i in range(len(outs)):
            labs = [x if kind == "element" else list(x) for x in np.asarray(outs[i].labels).tolist()]
            if kind == "connection" and rng.random() < 0.7:
                labs = [x[::-1] if rng.random() < 0.5 else x for x in labs]
            else:
                rng.shuffle(labs)
            outs[i] = outs[i]._replace(labels=np.array(labs))
    close = rng.random() < 0.15
    if close:  # times that only the digits of the format tell apart
        t = rng.uniform(1, 9) * 10.0 ** rng.randint(-3, 9)
        step = rng.choice([3e-8, 1e-7])
        outs = [o._replace(time=t * (1 + step * i)) for i, o in enumerate(outs)]
        case.count("close_times", int(len(outs) > 1))
    again = not close and len(outs) > 1 and rng.random() < 0.15
    if again:
        outs = restarted(rng, outs)
        case.count("again")
    if rng.random() < 0.15:
        k = rng.choice(list(outs[-1].data))
        outs[-1].data[k][rng.randrange(len(outs[-1].data[k]))] = rng.choice([np.nan, np.inf, -np.inf])
    if rng.random() < 0.2:
        for o in outs:
            for k in o.data:
                if rng.random() < 0.3 and np.all(np.abs(o.data[k]) < 1e6):
                    o.data[k] = np.round(o.data[k]).astype(rng.choice([int, np.int32]))
    if rng.random() < 0.3:
        outs = [o._replace(data={k: list(v) for k, v in o.data.items()}) for o in outs]
    if len(outs) > 1 and rng.random() < 0.3:
        outs = [o._replace(data={k: o.data[k] for k in rng.sample(list(o.data), len(o.data))}) for o in outs]
        case.count("columns shuffled")
    fmts = ["csv"] if kind == "connection" or again else ["csv", "petrasim"]
    if kind == "element" and coords[:2] == "XY" and not close:
        fmts.append("tecplot")
    if kind == "connection":
        case.count("connection")
    for fmt in fmts:
        arg = outs[0] if len(outs) == 1 and rng.random() < 0.5 else (tuple(outs) if rng.random() < 0.3 else outs)
        snap = tio.snapshot(arg)
        byext = fmt != "petrasim" and rng.random() < 0.5
        f = case.path("OUT_%s%s" % (fmt, {"csv": ".csv", "tecplot": ".tec"}[fmt] if byext else rng.choice([".txt", ".csv", ""])))
        case.call("write_output", toughio.write_output, f, arg, **({} if byext else {"file_format": fmt}))
        case.check(tio.snapshot(arg) == snap, "argument-changed", "writing changed the outputs (%s)" % fmt)
        got = case.call("read_output", toughio.read_output, f)
        compare(case, fmt, outs, got, f)
        case.count(fmt)
        f2 = case.path("AGAIN_%s" % fmt)
        case.call("rewrite", toughio.write_output, f2, got, file_format=fmt)
        case.check(tio.read_text(f) == tio.read_text(f2), "rewrite", lambda: "%s file differs when written again" % fmt)
        case.shape(fmt, kind, len(outs), len(outs[0].labels), len(outs[0].data))
    case.note = {"kind": kind, "formats": fmts, "times": len(outs), "cells": len(outs[0].labels), "columns": list(outs[0].data)}


def e(x, rng, w=20, d=12):
    """A number as some simulator or Fortran library would print it."""
    k = rng.random()
    if k < 0.15 and abs(x) < 1e99:
        m, ex = ("%.*E" % (d, x)).split("E")
        ex = "%+03d" % int(ex)
        return (m + rng.choice(["D", "d"]) + ex if k < 0.08 or not x else m + ex).rjust(w)
    if x and (abs(x) >= 1e100 or abs(x) < 1e-100) and k < 0.7:
        return ("%.*E" % (d, x)).replace("E", "").rjust(w)
    if rng.random() < 0.5:
        return ("%*.*E" if rng.random() < 0.5 else "%*.*e") % (w, d, x)
    return "%*s" % (w, repr(float(x)))


def foreign(case):
    """Files rendered by an independent writer, in the simulators' own styles."""
    rng = case.rng
    fmt = rng.choice(["csv", "csv", "petrasim", "tecplot"])
    kind = "connection" if fmt == "csv" and rng.random() < 0.4 else "element"
    outs = genout.gen(rng, kind, "XYZ" if fmt != "csv" or rng.random() < 0.7 else "")
    keys = [k for k in outs[0].data if k in "XYZ"] + [k for k in outs[0].data if k not in "XYZ"]
    keys = sorted([k for k in keys if k in ("X", "Y", "Z")]) + [k for k in keys if k not in ("X", "Y", "Z")]
    outs = [o._replace(data={k: o.data[k] for k in keys}) for o in outs]
    if fmt != "petrasim" and len(outs) > 1 and rng.random() < 0.1:
        outs = restarted(rng, outs)
        case.count("again")
    L = []
    rel = REL
    if fmt == "csv":
        heads = (["ELEM"] if kind == "element" else ["ELEM1", "ELEM2"]) + keys
        pad = rng.choice([0, 15, 18, 18, -15])
        q = '"%s"'
        L.append(",".join(q % ("%*s" % (pad, h)) for h in heads))
        L.append(",".join(q % ("%*s" % (pad, rng.choice(["", "(PA)", "(-)", "(KG/S)"]))) for h in heads))
        notime = len(outs) == 1 and rng.random() < 0.4
        if notime:
            outs = [outs[0]._replace(time=None)]
            case.count("no_time")
        for o in outs:
            if not notime:
                L.append('"TIME [sec]  %s"' % ("%.8E" % o.time))
            for i, lab in enumerate(o.labels):
                lab = [lab] if kind == "element" else list(lab)
                L.append(",".join(['"%*s"' % (pad, l) for l in lab] + [e(o.data[k][i], rng) for k in keys]))
    elif fmt == "petrasim":
        name = rng.choice(["%18s", "%18s", "%-18s", " %s ", "%s"])
        L.append(",".join(name % h for h in ["TIME [sec]", "ELEM", "INDEX"] + keys))
        for o in outs:
            for i, lab in enumerate(o.labels):
                L.append(",".join(["%20.12E" % o.time, name % lab, "%20d" % (i + 1)] + [e(o.data[k][i], rng) for k in keys]))
    else:
        if rng.random() < 0.4:
            L.append('TITLE = "TOUGH output"')
            if rng.random() < 0.3:
                L.append("")
        quoted = rng.random() < 0.5
        sep = rng.choice([", ", " ", ","]) if quoted else rng.choice(["   ", ", "])
        L.append("%s = %s" % (rng.choice(["VARIABLES", "VARIABLES      ", "variables"]), sep.join('"%s"' % k if quoted else k for k in keys)))
        for o in outs:
            L.append(rng.choice(['ZONE T="%s SEC"  I = %8d', 'ZONE T="%s SEC", I=%d', 'zone t="%s sec" i = %d',
                                 'ZONE I=%d, T = "%s SEC"', 'ZONE I = %d T= "%s"']) % ((0, 0)) if False else zone(rng, o))
            for i in range(len(o.labels)):
                L.append("".join(" " + e(o.data[k][i], rng) for k in keys))
    text = "\n".join(L) + rng.choice(["\n", "", "\n\n"])
    f = tio.write_text(case.path("OUTPUT"), text, case)
    got = case.call("read_foreign", toughio.read_output, f)
    compare(case, fmt, outs, got, text)
    case.count("foreign")
    case.count(fmt)
    case.shape("foreign", fmt, kind, len(outs), len(outs[0].labels), len(keys))
    case.note = {"format": fmt, "kind": kind, "head": L[:4]}
    # rewriting keeps the contents
    if fmt != "tecplot":
        f2 = case.path("AGAIN")
        case.call("rewrite", toughio.write_output, f2, got, file_format=fmt)
        compare(case, fmt, outs, case.call("read_output", toughio.read_output, f2), text)


def zone(rng, o):
    t = "%.7E" % o.time
    n = len(o.labels)
    return rng.choice(['ZONE T="%s SEC"  I = %8d' % (t, n), 'ZONE T="%s SEC", I=%d' % (t, n), 'zone t="%s sec" i = %d' % (t, n),
                       'ZONE I=%d, T = "%s SEC"' % (n, t), 'ZONE I = %d T= "%s"' % (n, t)])


def convert(case):
    """One format to another through the reader and the writer."""
    rng = case.rng
    outs = genout.gen(rng, "element", "XYZ")
    chain = [rng.choice(["csv", "petrasim"]) for _ in range(rng.choice([2, 3, 4]))] + rng.choice([[], ["tecplot"]])
    cur = outs
    for i, fmt in enumerate(chain):
        f = case.path("STEP%d" % i)
        case.call("write_output", toughio.write_output, f, cur, file_format=fmt)
        cur = case.call("read_output", toughio.read_output, f)
    case.check(len(cur) == len(outs), "count", lambda: "%r: %d / %d" % (chain, len(outs), len(cur)))
    for o, g in zip(outs, cur):
        case.check(genout.close([o.time], [g.time], 1e-7), "time", lambda: "%r: %r / %r" % (chain, o.time, g.time))
        if chain[-1] != "tecplot":
            case.check(list(g.labels) == list(o.labels), "labels", lambda: "%r" % (chain,))
        case.check(set(g.data) == set(o.data), "columns", lambda: "%r / %r" % (list(o.data), list(g.data)))
        for k in o.data:
            case.check(genout.close(o.data[k], g.data[k], REL * (len(chain) + 1)), "values", lambda: "%r %s" % (chain, k))
            case.count("values", len(o.data[k]))
    case.shape(tuple(chain), len(outs), len(outs[0].labels))


BAD = ["ELEME\n", "hello\n", "\n\nhello\n", "A,B\n1,2\n", "1 2 3\n", "TITLE = \"x\"\n1 2 3\n", "VARIABLES = X Y\n",
       "\n\n\n", "X = 1\n", '"ELEMENT","X"\n']


def damaged(case):
    """Files that are not outputs, or cut short: an error or data, never an endless run."""
    from vmon.core import StepBudget, Violation, steps

    rng = case.rng
    if case.index < len(BAD):
        text = BAD[case.index]
    else:
        kind = rng.choice(["element", "connection"])
        fmt = "csv" if kind == "connection" else rng.choice(["csv", "petrasim", "tecplot", "listing", "save"])
        if fmt == "listing":
            text = listing.render(rng)["text"]
        elif fmt == "save":
            labs = ["A11%2d" % i for i in range(rng.randint(1, 30))]
            text = "INCON -- INITIAL CONDITIONS FOR %d ELEMENTS AT TIME  0.100000E+01\n" % len(labs) + "".join(
                "%s          %15.9E\n%s\n" % (l, rng.random(), "".join("%20.13E" % rng.uniform(-9, 9) for _ in range(rng.randint(1, 4)))) for l in labs) + rng.choice(["\n", "+++\n    1    2\n"])
        else:
            f = case.path("FULL")
            case.call("write_output", toughio.write_output, f, genout.gen(rng, kind, "XYZ"), file_format=fmt)
            text = tio.read_text(f)
        case.count("damaged_" + fmt)
        if fmt == "listing" and rng.random() < 0.3:
            # cut in or shortly behind the header of a table
            at = [i for i in range(len(text)) if text.startswith(" ELEM", i)]
            text = text[:rng.choice(at) + rng.randint(0, 200)] if at else text
        k = rng.random()
        if k < 0.6:
            text = text[:rng.randrange(len(text))]
        else:
            lines = text.split("\n")
            del lines[rng.randrange(len(lines))]
            text = "\n".join(lines)
    f = tio.write_text(case.path("DAMAGED"), text)
    try:
        with steps(20000 + 200 * len(text)):
            toughio.read_output(f, **({"connection": True} if rng.random() < 0.2 else {}))
        case.count("damaged_read")
    except StepBudget as x:
        raise Violation("no-termination", "%s on %r" % (x, text[:200]))
    except Exception:
        case.count("damaged_refused")
    case.count("oracle_evaluations")
    case.shape("damaged", len(text) // 100)


SCALE = 4  # cases of the quick tier are this many times those listed
FAMILIES = {"written": (written, 1200, 15000), "foreign": (foreign, 1000, 15000), "convert": (convert, 300, 4000),
            "damaged": (damaged, 300, 4000)}
