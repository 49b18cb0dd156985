"""C12 - history files are read to the series they print."""
import os

import numpy as np
import toughio

from vmon.lib import genout, tio

RULE = ("Case = history file rendered by an independent writer (quoted comma-separated header of TOUGH3, or blank-separated header of "
        "TOUGH2; any number of columns and steps; C, Fortran, D and letterless exponents; padding; end of file with or without a newline, "
        "or followed by a blank line and comments) read back series by series; damaged copies (cut rows, text in a row) are never read to "
        "other values of complete rows. Distinct = style x columns x steps x spelling x end of file.")
ASSUMPTIONS = ["a header printed twice names any of its columns, and headers of a blank-separated file hold no blank", "the first column is the time",
               "a file has at least one time step"]
REACH = {"series": 3000, "values": 30000, "comma": 300, "blank": 300, "long": 10, "damaged": 100, "D": 100, "letterless": 100, "repeated": 100}

NAMES = ["PRES", "TEMP", "SAT_G", "SAT_L", "GEN", "ENTG", "PWB", "FLOW", "HEAT", "X(WAT1)", "FLO(GAS)", "P", "T", "S-G", "K:1", "VEL/L", "x_co2"]
WITH_BLANKS = ["PRES  (PA)", "X   Y  Z", "A  B", "PRES (PA)", "TEMP (DEG-C)", "SAT G", "FLOW_L (KG/S)", "Mass fraction 1"]


def number(rng, style, dec, w):
    v = genout.val(rng)
    if style in ("two", "letterless2") and v and not 1e-90 < abs(v) < 1e90:
        v = 1.5
    t = "%.*E" % (dec, v)
    m, x = t.split("E")
    if style in ("F", "letterless", "letterless2", "D"):
        sg, dg = ("-" if m[0] == "-" else ""), m.lstrip("-").replace(".", "")
        m, x = "%s0.%s" % (sg, dg), int(x) + 1 if v else 0
        if rng.random() < 0.2:
            m = m.replace("0.", ".", 1)
    x = int(x)
    want = float("%sE%d" % (m, x))
    if style == "D":
        t = m + rng.choice(["D", "D", "d"]) + "%+03d" % x
    elif style == "letterless" and abs(x) > 99:
        t = m + "%+04d" % x
    elif style == "letterless2":
        t = m + "%+03d" % x
    elif style == "e":
        t = "%se%+03d" % (m, x)
    elif style == "int":
        want = float(rng.choice([0, 0, 1, 10, rng.randint(-10 ** 6, 10 ** 6), rng.randint(-10 ** 6, 10 ** 6)]))
        t = rng.choice(["%d", "%d.", "%.3f"]) % want
    else:
        t = "%sE%+03d" % (m, x)
    return t.rjust(w), want


def render(rng, big=False):
    comma = rng.random() < 0.5
    ncol = rng.choice([1, 2, 3, 4, 6, 12]) if not big else 40
    nt = rng.choice([1, 2, 3, 10, 50, 200]) if not big else 3000
    if ncol > 12:
        names = ["V%d" % i for i in range(ncol)]
        rng.shuffle(names)
    else:
        names = rng.sample(NAMES + (WITH_BLANKS if comma else []), ncol)
        if ncol > 1 and rng.random() < 0.1:  # a header printed twice
            names.insert(rng.randrange(ncol + 1), rng.choice(names))
    style = rng.choice(["E", "e", "F", "D", "letterless", "letterless2", "int", "mix"])
    dec = rng.choice([3, 5, 8, 12])
    w = dec + 10 + rng.choice([0, 0, 4])
    first = rng.choice(["TIME", "TIME [sec]" if comma else "TIME(s)", "TIME (SEC)" if comma else "Time"])
    if comma:
        pad = rng.choice([0, 12, 18])
        head = ",".join(('"%' + rng.choice(["", "-"]) + "*s" + '"') % (pad, h) for h in [first] + names)
        if rng.random() < 0.3:
            head = " " + head
    else:
        head = rng.choice(["  ", " ", "\t", "      "]).join(["", first] + names)
    t = sorted({float("%.8E" % (rng.uniform(0, 10) * 10.0 ** rng.randint(-3, 10))) for _ in range(nt)})
    if rng.random() < 0.2:
        t[0] = 0.0
    if rng.random() < 0.1:  # a time printed twice
        t = sorted(t + [rng.choice(t)])
    if rng.random() < 0.1:
        rng.shuffle(t)
    rows, cols = [], [[] for _ in names]
    same, last = rng.random(), {}
    for x in t:
        r = ["%.8E" % x if rng.random() < 0.5 else repr(x) if x or rng.random() < 0.5 else "0"]
        for j, h in enumerate(names):
            if j in last and (same < 0.05 or same < 0.2 and rng.random() < 0.5):  # values that do not change
                s, v = last[j]
                r.append(s)
                cols[j].append(v)
                continue
            last[j] = s, v = number(rng, rng.choice(["E", "e", "F", "D", "letterless", "int"]) if style == "mix" else style, dec, w)
            r.append(s)
            cols[j].append(v)
        if comma:
            rows.append(rng.choice([",", ", "]).join(r))
        else:
            rows.append("  " + rng.choice([" ", "  "]).join(r))
        if rng.random() < 0.05:
            rows[-1] += "  "
    tail = rng.choice(["\n", "\n", "", "\n\n", "\n   \n", "\n\nEnd of the history\n 1.0 2.0\n"])
    nl = "\r\n" if rng.random() < 0.1 else "\n"
    text = (nl.join([head] + rows)) + tail.replace("\n", nl)
    return {"text": text, "time": t, "columns": cols, "names": names, "comma": comma, "style": style, "head": head, "rows": rows, "tail": tail}


def compare(case, H, got):
    case.check(isinstance(got, dict), "type", lambda: type(got).__name__)
    names = ["TIME"] + list(dict.fromkeys(H["names"]))
    case.check(list(got) == names, "headers", lambda: "%r / %r" % (["TIME"] + H["names"], list(got)))
    twice = {h for h in names if H["names"].count(h) > 1}
    for k in twice:  # a header printed twice: one of its columns
        wants = [c for h, c in zip(H["names"], H["columns"]) if h == k]
        case.check(any(genout.close(w, np.asarray(got[k]), 1e-15) for w in wants), "values", lambda: "%s: none of its columns" % k)
        case.count("repeated")
    for k, want in [("TIME", H["time"])] + [(h, c) for h, c in zip(H["names"], H["columns"]) if h not in twice]:
        v = np.asarray(got[k])
        case.check(v.dtype.kind == "f" and v.shape == (len(want),), "shape", lambda: "%s: %s %s, %d steps" % (k, v.dtype, v.shape, len(want)))
        case.check(genout.close(want, v, 1e-15), "values", lambda: "%s: %r / %r" % (k, want[:5], v[:5].tolist()))
        case.count("series")
        case.count("values", len(want))


def history(case, big=False):
    rng = case.rng
    H = render(rng, big)
    f = tio.write_text(case.path(rng.choice(["FOFT", "FOFT_A1912.csv", "GOFT_A1.out", "COFT A1 A2.csv", "ROFT.tec"])), H["text"])
    before = tio.read_bytes(f)
    got = case.call("read_history", toughio.read_history, f)
    compare(case, H, got)
    if rng.random() < 0.3:
        again = case.call("read_history", toughio.read_history, f)
        got["TIME"][:] = -1.0
        compare(case, H, again)
    case.check(tio.read_bytes(f) == before, "touched", "the file was changed")
    case.count("comma" if H["comma"] else "blank")
    case.count("D", int(H["style"] == "D"))
    case.count("letterless", int(H["style"].startswith("letterless")))
    case.count("long", int(big))
    case.shape(H["comma"], len(H["names"]), len(H["time"]), H["style"], H["tail"])
    case.note = {"head": H["head"], "first": H["rows"][0], "steps": len(H["time"])}


def long(case):
    history(case, True)


def damaged(case):
    """A file cut or damaged is refused, or read to the rows that are complete."""
    rng = case.rng
    H = render(rng)
    while len(H["names"]) < 2 or len(H["rows"]) < 2 or len(set(H["names"])) < len(H["names"]):
        H = render(rng)
    kind = rng.choice(["cut", "text", "less"])
    rows = list(H["rows"])
    i = len(rows) - 1 if kind == "cut" else rng.randrange(len(rows))
    sep = "," if H["comma"] else None
    cols = rows[i].split(sep)
    j = rng.randrange(1, len(cols))
    glue = "," if H["comma"] else "  "
    if kind == "text":
        cols[j] = rng.choice(["abc", "1.0.0", "--", "?"])
        rows[i] = glue.join(cols)
    else:
        rows[i] = glue.join(cols[:j])
    f = tio.write_text(case.path("FOFT"), "\n".join([H["head"]] + rows) + "\n")
    try:
        got = toughio.read_history(f)
    except Exception as e:
        case.check(isinstance(e, (ValueError, IndexError, TypeError)), "refusal", lambda: repr(e))
        case.count("refused")
    else:
        keep = [k for k in range(len(rows)) if k != i] if kind == "text" else list(range(len(rows) - 1))
        for k, want in [("TIME", H["time"])] + list(zip(H["names"], H["columns"])):
            v = np.asarray(got[k], dtype=float)
            case.check(len(v) in (len(rows) - 1, len(rows)), "rows", lambda: "%d rows of %d" % (len(v), len(rows)))
            case.check(len(v) == len(rows) and genout.close([want[a] for a in range(len(rows)) if a != i], [v[a] for a in range(len(rows)) if a != i], 1e-15)
                       or len(v) == len(rows) - 1 and genout.close([want[a] for a in range(len(rows)) if a != i], v, 1e-15),
                       "shifted", lambda: "%s of %s row %d: %r" % (k, kind, i, v[:6].tolist()))
    case.count("damaged")
    case.refused("read_history/type", TypeError, toughio.read_history, rng.choice([None, 3, [f], f.encode()]))
    case.refused("read_history/missing", OSError, toughio.read_history, case.path("missing"))
    case.shape(kind, H["comma"], len(H["names"]))


SCALE = 4  # cases of the quick tier are this many times those listed
FAMILIES = {"history": (history, 1500, 20000), "long": (long, 24, 200), "damaged": (damaged, 200, 3000)}
