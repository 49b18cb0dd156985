"""C10 - restart files: every element keeps its own state, and the conversion to INCON loses nothing."""
import os

import numpy as np
import toughio

from vmon.lib import deck, gendeck, genout, tio

RULE = ("Case = restart (SAVE) file rendered by an independent Fortran-style writer (label length, 1-8 primary variables on one "
        "or two records, optional porosity and user data, restart counters) read as an output, reordered, converted to INCON and "
        "read back as initial conditions. Distinct = label length x variables x elements x optional columns x trailer.")
ASSUMPTIONS = ["all elements of a file have the same number of primary variables",
               "labels start with a letter and do not read like a number"]
REACH = {"elements": 3000, "ordered": 200, "converted": 300, "reset": 100, "bad_order": 50, "refused": 50, "two_records": 100,
         "userx": 100, "library_written": 100}


def fnum(rng, v, w, p):
    """Text of value v in w columns with p decimals as Fortran or C would print it."""
    if v is None:
        return " " * w
    return deck.fmt_float(v, w, p, rng.choice(["c", "f", "d"]))


def enum(v, w, p, style):
    t, v = unsigned(v, w, p, style[0])
    if "+" in style and t.lstrip()[0] != "-" and t[0] == " ":
        t = ("+" + t.lstrip()).rjust(w)
    return t, v


def unsigned(v, w, p, style):
    t = "%.*E" % (p, v)
    if style == "F":  # 0.dddE+xx
        m, x = ("%.*E" % (p - 1, v)).split("E")
        sign = "-" if m[0] == "-" else ""
        digits = m.lstrip("-").replace(".", "")
        t = "%s0.%sE%+03d" % (sign, digits, int(x) + 1 if float(v) else 0)
        v = float("%s0.%sE%d" % (sign, digits, int(x) + 1 if float(v) else 0))
    else:
        v = float(t)
    assert len(t) <= w, t
    return t.rjust(w), v


def render(rng):
    n = rng.choice([1, 2, 3, 6, 20]) if rng.random() < 0.97 else rng.choice([120, 350, 1200])
    nlab = rng.choice([5, 5, 5, 6, 7, 8, 9])
    nv = rng.choice([1, 2, 3, 4, 4, 5, 6, 8] * 3 + [7, 9, 12, 13])
    used, labs = set(), []
    blanks = nlab == 5 and rng.random() < 0.3
    while len(labs) < n:
        l = gendeck.label(rng, nlab, used)
        if blanks:
            l = l[:2] + rng.choice([" ", l[2]]) + rng.choice([" ", l[3]]) + l[4]
            if l in labs:
                continue
        labs.append(l)
    style = rng.choice(["F", "C"] * 5 + ["F+", "C+"])
    por = rng.choice(["all", "none", "some"])
    nux = rng.choice([0, 0, 1, 2, 5])
    ux_some = rng.random() < 0.3
    head = rng.choice(["INCON", "INCON -- INITIAL CONDITIONS FOR %5d ELEMENTS AT TIME  0.100000E+09" % n,
                       "INCON----1----*----2----*----3----*----4----*----5----*----6----*----7----*----8"])
    L = [head]
    st = {"porosity": [], "userx": []}
    for i in range(nv):
        st["X%d" % (i + 1)] = []

    def x(sign=0.3):
        if rng.random() < 0.08:
            return 0.0
        return (-1 if rng.random() < sign else 1) * rng.uniform(1, 10) * 10.0 ** rng.randint(-12, 9)

    nad = [deck.INCON_N[nlab][1], deck.INCON_N[nlab][2]]
    for l in labs:
        r = l + " " * sum(nad)
        if por == "all" or (por == "some" and rng.random() < 0.5):
            t, v = enum(x(0), 15, 8, style)
        else:
            t, v = " " * 15, float("nan")
        r += t
        st["porosity"].append(v)
        m = rng.randint(0, nux) if ux_some else nux
        u = []
        for _ in range(m):
            t, v = enum(x(), 10, 3, style)
            r += t
            u.append(v)
        st["userx"].append(u)
        L.append(r if rng.random() < 0.5 else r.rstrip())
        for a in range(0, nv, 4):
            r = ""
            for i in range(a, min(a + 4, nv)):
                t, v = enum(x(), 20, 13, style)
                r += t
                st["X%d" % (i + 1)].append(v)
            L.append(r)
    trailer = rng.choice(["+++", "+++", "blank"])
    if trailer == "+++":
        L += ["+++", "%5d%5d%5d%s%s" % (rng.randint(1, 999), rng.randint(1, 999), 2, enum(0.0, 15, 8, style)[0], enum(1e9, 15, 8, style)[0])]
        if rng.random() < 0.3:
            L.append("")
    else:
        L.append("")
    if rng.random() < 0.1:
        L += ["", "A trailing comment"]
    mux = max(len(u) for u in st["userx"])
    if mux:
        st["userx"] = [u + [float("nan")] * (mux - len(u)) for u in st["userx"]]
    else:
        del st["userx"]
    return {"labels": labs, "data": st, "text": "\n".join(L) + "\n", "lines": L, "trailer": trailer, "nlab": nlab, "nv": nv, "por": por,
            "mux": mux}


def compare(case, want_labels, want, got, rel=1e-14):
    case.check(isinstance(got, toughio.Output) and got.type == "element" and got.format == "save" and got.time is None, "kind",
               lambda: "%r" % ((getattr(got, "type", None), getattr(got, "format", None), getattr(got, "time", 0)),))
    gl = np.asarray(got.labels).tolist()
    case.check(gl == list(want_labels), "labels", lambda: "%r / %r" % (list(want_labels)[:6], gl[:6]))
    case.check(set(got.data) == set(want), "columns", lambda: "%r / %r" % (sorted(want), sorted(got.data)))
    for k in want:
        case.check(genout.close(want[k], got.data[k], rel), "values", lambda: "%s: %r / %r" % (
            k, want[k][:4], np.asarray(got.data[k])[:4].tolist()))
        case.count("elements", len(want_labels))


def ordered(case, f, labs, data):
    rng = case.rng
    if len(labs) < 2:
        return
    order = list(labs)
    rng.shuffle(order)
    idx = [labs.index(l) for l in order]
    arg = rng.choice([list, tuple, np.array])(order)
    snap = tio.snapshot(arg)
    got = case.call("read_ordered", toughio.read_output, f, labels_order=arg)
    compare(case, order, {k: [v[i] for i in idx] for k, v in data.items()}, got)
    case.check(tio.snapshot(arg) == snap, "argument-changed", "labels_order")
    case.count("ordered")
    if rng.random() < 0.3:
        bad = rng.choice([order[:-1], order + ["ZZZ99"], order[:-1] + ["zz:99"]])
        case.refused("labels_order", (ValueError, KeyError), toughio.read_output, f, labels_order=bad)
        case.count("bad_order")


def save(case):
    rng = case.rng
    S = render(rng)
    f = tio.write_text(case.path("SAVE"), S["text"], case)
    raw = tio.read_text(f)
    got = case.call("read_output", toughio.read_output, f)
    compare(case, S["labels"], S["data"], got)
    ordered(case, f, S["labels"], S["data"])
    # conversion
    reset = rng.random() < 0.5
    inplace = rng.random() < 0.15
    out = f if inplace else case.path("INCON")
    if not inplace and rng.random() < 0.3:
        tio.write_text(out, "something that was there before\n" * 200)
    argv = [f, out] + ([rng.choice(["--reset", "-r"])] if reset else [])
    rng.shuffle(argv) if False else None
    case.call("save2incon", toughio._cli.save2incon, argv)
    case.count("converted")
    if not inplace:
        case.check(tio.read_text(f) == raw, "source-changed", "save2incon changed the SAVE file")
    text = tio.read_text(out).replace("\r\n", "\n")
    L = S["lines"]
    if reset:
        case.count("reset")
        if "+++" in L:
            L = L[:L.index("+++")]
        body = [l.rstrip() for l in text.splitlines()]
        case.check(not any(l.startswith("+++") for l in body), "counters-kept", "reset conversion keeps the counters")
        want = [l.rstrip() for l in L]
        case.check(body[:len(want)] == want and all(not l for l in body[len(want):]) and (len(body) > len(want) or want[-1] == ""),
                   "reset-lines", lambda: "%d lines expected + blank, got %d: %r" % (len(want), len(body), body[-3:]))
    else:
        case.check(text == S["text"], "copy", lambda: "INCON differs from SAVE: %d / %d characters" % (len(text), len(S["text"])))
    got = case.call("read_output", toughio.read_output, out)
    compare(case, S["labels"], S["data"], got)
    P = case.call("read_input", toughio.read_input, out)
    ic = P.get("initial_conditions", {})
    case.check(list(ic) == S["labels"] and list(P["initial_conditions_order"]) == S["labels"], "incon-labels", lambda: "%r / %r" % (S["labels"][:5], list(ic)[:5]))
    for i, l in enumerate(S["labels"]):
        v = [S["data"]["X%d" % (j + 1)][i] for j in range(S["nv"])]
        case.check(genout.close(v, ic[l]["values"], 1e-14), "incon-values", lambda: "%s: %r / %r" % (l, v, ic[l]))
        p = ic[l].get("porosity", float("nan"))
        case.check(genout.close([S["data"]["porosity"][i]], [p], 1e-14), "incon-porosity", lambda: "%s: %r / %r" % (l, S["data"]["porosity"][i], p))
    case.count("two_records", int(S["nv"] > 4))
    case.count("userx", int(S["mux"] > 0))
    case.shape(S["nlab"], S["nv"], len(S["labels"]), S["por"], S["mux"], S["trailer"], reset)
    case.note = {k: S[k] for k in ("nlab", "nv", "por", "mux", "trailer")}


def library(case):
    """Initial conditions written by the library are a restart file."""
    rng = case.rng
    n = rng.choice([1, 2, 5, 12])
    nlab = rng.choice([5, 5, 6, 7, 8, 9])
    nv = rng.choice([1, 2, 3, 4, 5, 8])
    labs = genout.labels(rng, n, nlab)
    ic, data = {}, {"porosity": []}
    nux = rng.choice([0, 0, 2, 5])
    ux = []
    for l in labs:
        c = {"values": [genout.val(rng) for _ in range(nv)]}
        if rng.random() < 0.6:
            c["porosity"] = rng.uniform(0, 1)
        if nux and rng.random() < 0.7:
            c["userx"] = [rng.uniform(0.1, 10) for _ in range(rng.randint(1, nux))]
        ic[l] = c
        data["porosity"].append(c.get("porosity", float("nan")))
        ux.append(c.get("userx", []))
    for i in range(nv):
        data["X%d" % (i + 1)] = [ic[l]["values"][i] for l in labs]
    P = {"initial_conditions": ic}
    order = list(labs)
    if rng.random() < 0.5:
        rng.shuffle(order)
        P["initial_conditions_order"] = order
    f = case.path("INCON")
    case.call("write_input", toughio.write_input, f, P, **{"block": rng.choice(["incon", ["INCON"]])} if False else {"block": "incon"})
    m = max(len(u) for u in ux)
    idx = [labs.index(l) for l in order]
    got = case.call("read_output", toughio.read_output, f)
    if m:
        want = [ux[i] + [float("nan")] * (m - len(ux[i])) for i in idx]
        case.check("userx" in got.data and genout.close(want, got.data["userx"], 6e-4), "userx", lambda: "%r / %r" % (want, got.data.get("userx")))
        got.data.pop("userx")
    for k in list(data):
        w = [data[k][i] for i in idx]
        case.check(k in got.data and genout.close(w, got.data[k], 5.1e-12 if k != "porosity" else 5.1e-9), "values",
                   lambda: "%s: %r / %r" % (k, w[:5], got.data.get(k)))
    case.check(np.asarray(got.labels).tolist() == order and set(got.data) == set(data), "labels", lambda: "%r / %r" % (order[:5], got.labels[:5]))
    case.count("library_written")
    case.shape("library", nlab, nv, n, m)


def bad(case):
    rng = case.rng
    S = render(rng)
    how = ["missing", "header", "empty"][case.index % 3]
    f = case.path("SAVE")
    if how == "header":
        tio.write_text(f, rng.choice(["", "\n", "SAVED "]) + "X" + S["text"][1:])
    elif how == "empty":
        tio.write_text(f, "")
    out = case.path("INCON")
    keep = rng.random() < 0.7
    if keep:
        tio.write_text(out, "precious\n")
    case.refused("save2incon", ValueError, toughio._cli.save2incon, [f, out] + (["-r"] if rng.random() < 0.5 else []))
    if keep:
        case.check(tio.read_text(out) == "precious\n", "clobber", "refused conversion changed the output file")
    else:
        case.check(not os.path.exists(out), "clobber", "refused conversion created the output file")
    case.shape("bad", how, keep)


SCALE = 6  # cases of the quick tier are this many times those listed
FAMILIES = {"save": (save, 900, 10000), "library": (library, 400, 4000), "bad": (bad, 90, 600)}
