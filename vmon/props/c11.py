"""C11 - asking for a label order only reorders the data."""
import logging

import numpy as np
import toughio

from vmon.lib import genout, listing, tio
from vmon.props import c24

RULE = ("Case = seeded results (csv, petrasim, save, listing; labels of 5-9 characters) read without an order and with a permutation of the "
        "labels (list, tuple, array, array of another width); row by row comparison in every column and at every time. Connection "
        "results are not concerned by the order of the cells and must come back as they are in the file. Orders with a missing or "
        "unknown label must be refused. Distinct = format x cells x times x container.")
ASSUMPTIONS = ["an order names every label of the file once", "formats without labels (tecplot) have no order"]
REACH = {"csv": 60, "petrasim": 60, "save": 60, "listing": 60, "rows": 5000, "refused": 60, "connection": 30}


def size(rng):
    return rng.choice([1, 2, 3, 8, 30, 30, 45, 70]) if rng.random() < 0.93 else rng.choice([101, 128, 150, 300])


def source(case, labels=None):
    """(file, format, kwargs of read_output, labels of the file)"""
    rng = case.rng
    fmt = rng.choice(["csv", "petrasim", "save", "listing"])
    kw = {}
    f = case.path("result" + rng.choice(["", ".txt", ".out", ".csv"]))
    if fmt in ("csv", "petrasim"):
        outs = genout.gen(rng, "element", rng.choice(["XYZ", "", "XZ"]), n=size(rng))
        if len(outs) > 1 and rng.random() < 0.4:
            # elements in another order at every time
            for i in range(len(outs)):
                p = c24.permuted(rng, len(outs[i].labels))
                outs[i] = outs[i]._replace(labels=outs[i].labels[p], data={k: v[p] for k, v in outs[i].data.items()})
            case.count("order changes")
        case.call("write_output", toughio.write_output, f, outs, file_format=fmt)
        labs = [str(x) for x in outs[0].labels]
    elif fmt == "save":
        labs = genout.labels(rng, size(rng))
        text, _ = c24.make_save(rng, labs)
        tio.write_text(f, text, case)
    else:
        S = listing.render(rng, nlab=5, blank_labels=True) if rng.random() < 0.2 else listing.render(rng, n=rng.choice([None, None, size(rng)]))
        if S["nlab"] != 5 and rng.random() < 0.5:
            kw["label_length"] = S["nlab"]
        tio.write_text(f, S["text"], case)
        labs = S["labels"]
    return f, fmt, kw, labs


def container(rng, order):
    k = rng.choice(["list", "tuple", "array", "wide", "object", "npstr"])
    if k == "list":
        return k, list(order)
    if k == "tuple":
        return k, tuple(order)
    if k == "wide":
        return k, np.array(order, dtype="<U%d" % (len(order[0]) + 7))
    if k == "object":
        return k, np.array(order, dtype=object)
    if k == "npstr":
        return k, [np.str_(x) for x in order]
    return k, np.array(order)


def aslist(out):
    return out if isinstance(out, list) else [out]


def ordered(case):
    logging.disable(logging.CRITICAL)
    rng = case.rng
    f, fmt, kw, labs = source(case)
    base = aslist(case.call("read_output", toughio.read_output, f, **kw))
    case.check([str(x) for x in base[0].labels] == labs, "labels", lambda: "%s: labels %r read as %r" % (fmt, labs[:5], list(base[0].labels)[:5]))
    order = [labs[i] for i in c24.permuted(rng, len(labs))]
    ck, arg = container(rng, order)
    snap = tio.snapshot(arg)
    got = aslist(case.call("read_output/order", toughio.read_output, f, arg, **kw) if rng.random() < 0.5
                 else case.call("read_output/order", toughio.read_output, f, labels_order=arg, **kw))
    case.check(tio.snapshot(arg) == snap, "argument-changed", "the order was changed")
    case.check(len(got) == len(base), "times", lambda: "%d times without, %d with an order" % (len(base), len(got)))
    for o, g in zip(base, got):
        case.check((g.type, g.format) == (o.type, o.format) and (g.time == o.time), "times", lambda: "%r %r" % (g[:3], o[:3]))
        case.check([str(x) for x in g.labels] == order, "order", lambda: "%s: order %r, labels %r" % (fmt, order[:6], list(g.labels)[:6]))
        case.check(list(g.data) == list(o.data), "columns", lambda: "%r / %r" % (list(o.data), list(g.data)))
        at = {str(l): i for i, l in enumerate(o.labels)}
        for k in o.data:
            v, w = np.asarray(o.data[k]), np.asarray(g.data[k])
            case.check(v.shape == w.shape and v.dtype == w.dtype, "shape", lambda: "%s %s" % (v.shape, w.shape))
            want = np.array([v[at[l]] for l in order], dtype=v.dtype)
            case.check(np.array_equal(want, w, equal_nan=want.dtype.kind == "f"), "rows", lambda: "%s, time %r, column %s: order %r wanted %r got %r" % (
                fmt, o.time, k, order[:6], list(want)[:6], list(w)[:6]))
            case.count("rows", len(w))
    # the same order twice, and the inverse order: same data as the file
    if any([str(x) for x in o.labels] != labs for o in base):
        case.shape(fmt, len(labs), len(base), ck, "order changes")
        return
    again = aslist(case.call("read_output/order", toughio.read_output, f, labs, **kw))
    case.check(tio.snapshot([x.data for x in again]) == tio.snapshot([x.data for x in base]), "identity", "the order of the file changes the data")
    case.count(fmt)
    case.shape(fmt, len(labs), len(base), ck)
    case.note = {"format": fmt, "cells": len(labs), "times": len(base), "container": ck}


def connections(case):
    logging.disable(logging.CRITICAL)
    rng = case.rng
    f = case.path("conne.csv")
    if rng.random() < 0.5:
        outs = genout.gen(rng, "connection", "XYZ", n=rng.choice([2, 3, 8, 50]))
        case.call("write_output", toughio.write_output, f, outs)
        kw = {}
        labs = sorted({str(x) for r in outs[0].labels for x in r})
    else:
        S = listing.render(rng)
        if not S["connections"]:
            S = listing.render(rng, n=7)
        tio.write_text(f, S["text"], case)
        labs, kw = list(S["labels"]), {"connection": True}
    base = aslist(case.call("read_output", toughio.read_output, f, **kw))
    rng.shuffle(labs)
    got = aslist(case.call("read_output/order", toughio.read_output, f, labels_order=labs, **kw))
    case.check(tio.snapshot(got) == tio.snapshot(base), "connections", "an order of cells changed the connection data")
    case.count("connection")
    case.shape("connection", len(labs), len(base))


def refused(case):
    logging.disable(logging.CRITICAL)
    rng = case.rng
    f, fmt, kw, labs = source(case)
    before = tio.read_bytes(f)
    order = list(labs)
    rng.shuffle(order)
    kind = rng.choice(["fewer", "more", "unknown", "type"])
    types = Exception
    if kind == "fewer":
        order.pop()
        types = ValueError
    elif kind == "more":
        order.append("zz999")
        types = ValueError
    elif kind == "unknown":
        order[rng.randrange(len(order))] = "?" * len(labs[0])
    else:
        order, types = rng.choice(["".join(order), 3, {l: 1 for l in order}]), TypeError
    case.refused("read_output/" + kind, types, toughio.read_output, f, labels_order=order, **kw)
    case.check(tio.read_bytes(f) == before, "touched", "the file was changed")
    case.shape(kind, fmt, len(labs))


SCALE = 8  # cases of the quick tier are this many times those listed
FAMILIES = {
    "ordered": (ordered, 800, 6000),
    "connections": (connections, 100, 800),
    "refused": (refused, 150, 1000),
}
