"""Independent renderer of TOUGH main output listings (fixed-width Fortran tables)."""
import numpy as np

from vmon.lib import gendeck

ENAMES = ["P", "T", "SG", "SW", "X(WAT1)", "PCAP", "DG", "DW", "PRES", "TEMP", "SAT_G", "XCO2aq", "DEN_L", "K(gas)"]
CNAMES = ["HEAT", "FLOH/FLOF", "FLOF", "FLO(GAS)", "FLO(AQ.)", "VEL(GAS)", "VEL(LIQ)", "FLOW"]


def number(rng, w, p, style):
    """(text of exactly w columns or wider never, value)."""
    k = rng.random()
    sign = "-" if rng.random() < 0.4 else ""
    if k < 0.01:
        t = rng.choice(["NaN", "*" * (w - 1)])
        return t.rjust(w), float("nan")
    if k < 0.02 and w > 9:
        return ("%sInfinity" % sign).rjust(w), float(sign + "inf")
    digits = "".join(rng.choice("0123456789") for _ in range(p))
    k = rng.random()
    ex = rng.choice([0, 0, 1, -1, 5, -5, 10, -12, rng.randint(-99, 99), rng.choice([-100, 100, -150, 120])])
    if k < 0.1:
        digits, ex = "0" * p, 0
    elif style == "F":
        digits = rng.choice("123456789") + digits[1:]
    if style == "N":  # no zero before the point
        if digits[0] == "0" and digits != "0" * p:
            digits = rng.choice("123456789") + digits[1:]
        m = "." + digits
    elif style == "F":  # Fortran: 0.ddddd
        m = "0." + digits
    else:
        m = rng.choice("123456789") + "." + digits[:-1]
        if digits == "0" * p:
            m = "0." + digits[:-1]
    if abs(ex) > 99:
        x = "%+04d" % ex
    else:
        x = "E%+03d" % ex
    t = sign + m + x
    v = float(sign + m + "E%d" % ex)
    assert len(t) <= w, (t, w)
    return t.rjust(w), v


def render(rng, n=None, nt=None, nlab=None, glued=None, blank_labels=False, alpha_labels=False, labels=None,
           pairs=None, shuffle=False, restart=False):
    """Text of a listing with element and connection tables, and what it holds.

    ``shuffle``: the order of the rows changes in time (see labels and connections of the steps)."""
    if labels is not None:
        n, nlab = len(labels), len(labels[0])
    big = rng.random()
    if getattr(rng, "big", False) and labels is None:
        n, nt = rng.choice([1001, 1030, 2100]), rng.choice([1, 2])
    n = n or (rng.choice([1, 2, 3, 7, 20, 60, 130]) if big > 0.01 else rng.choice([300, 1000]))
    nt = nt or (rng.choice([1, 2, 3, 5]) if big > 0.05 or big < 0.01 else rng.choice([10, 13]))
    nlab = nlab or rng.choice([5, 5, 5, 6, 7, 8, 9])
    used, labs = set(), []
    for i in range(n):
        if labels is not None:
            break
        while True:
            if blank_labels:
                l = rng.choice(gendeck.ALNUM) + rng.choice(gendeck.ALNUM + " ") + rng.choice(gendeck.ALNUM + "1 ") + \
                    rng.choice("123456789 ") + rng.choice("0123456789")
            elif alpha_labels:
                l = "".join(rng.choice(gendeck.ALNUM) for _ in range(nlab))
            else:
                l = gendeck.label(rng, nlab, set())
            if l not in used and l[:4].upper() != "ELEM":
                used.add(l)
                break
        labs.append(l)
    if labels is not None:
        labs = list(labels)
    m = 0 if n == 1 else rng.choice([1, 2, 5, n, 2 * n])
    if pairs is not None:
        m = len(pairs)
    clabs = [(rng.choice(labs), rng.choice(labs)) for _ in range(m)] if pairs is None else list(pairs)
    p = rng.choice([4, 5, 5, 6])
    style = rng.choice("FFFCCCN")
    w = p + (6 if style == "N" else 7) if (glued if glued is not None else rng.random() < 0.5) else p + 7 + rng.choice([1, 2, 4])
    tight = w == p + (6 if style == "N" else 7)
    wi = rng.choice([5, 6, 7])
    names = rng.sample(ENAMES, rng.choice([1, 2, 4, 6]) if big < 0.9 else rng.choice([9, 10, 12]))
    cnames = rng.sample(CNAMES, rng.choice([1, 2, 4, 6]))
    page = rng.choice([0, 0, 2, 5, 50])
    units = rng.random() < 0.7
    gap = rng.random() < 0.7
    times = sorted({float("%.5E" % (rng.uniform(1, 10) * 10.0 ** rng.randint(0, 10))) for _ in range(nt)})
    if restart:
        # a run continued from an earlier time prints times again
        i = rng.randrange(len(times))
        times = times[:i + 1] + rng.choice([times[i:], times[:1], times])
    L = []
    if rng.random() < 0.5:
        L.append("1      @@@@@   @   @  @   @  @@@@@  @   @")
    else:
        L += ["", " @@@@@   @   @  @   @  @@@@@  @   @"]
    L += ["", "     TOUGH2 is a program for multiphase multicomponent flow", "", " PROBLEM TITLE: sample  problem", "",
          " MESH HAS %5d ELEMENTS AND %5d CONNECTIONS" % (n, m), ""]
    at = " " + "@" * 130
    out = []

    def table(head, rows, ncol):
        R = []
        h = " " + head

        def header():
            R.append(h)
            if units:
                R.append(" " * 22 + "".join(rng.choice(["(PA)", "(DEG-C)", "(W)", "(KG/S)"]).center(w) for _ in range(ncol)).rstrip())
            if gap:
                R.append("")

        header()
        for i, r in enumerate(rows):
            if page and i and i % page == 0:
                R.append("")
                header()
            R.append(r)
            if rng.random() < 0.02:
                R.append("")
        return R

    for it, t in enumerate(times):
        for j in range(rng.randint(0, 2)):
            L.append(" A1 %2d(   %d,  %d) ST = 0.100000E+02 DT = 0.100000E+02 DX1= -.168514E+04 DX2= 0.000000E+00 T =  20.000 P =  99833. S = 0.000000E+00" % (j, j, j))
        L += ["", " OUTPUT DATA AFTER (  %d,  3)-2-TIME STEPS%40s THE TIME IS  %.5E DAYS" % (it + 1, "", t / 86400.0), "", at]
        L += ["   TOTAL TIME     KCYC   ITER  ITERC   KON            DX1M            DX2M         MAX. RES.     NER    KER        DELTEX",
              "   %.5E%s%5d      3     45      2        0.12345E+03     0.00000E+00     0.57034E-06       %d      1     0.10000E+04" % (t, "   ", it + 1, n)]
        L += [at, ""]
        vals = {k: [] for k in names}
        const = {}
        some = rng.random() < 0.15

        def cell(k):
            """Text and value; some tables have columns with one value."""
            if not some:
                return number(rng, w, p, style)
            if k not in const:
                const[k] = number(rng, w, p, style) if rng.random() < 0.6 else None
            return const[k] or number(rng, w, p, style)

        rows = []
        tlabs, tclabs = list(labs), list(clabs)
        if shuffle:
            rng.shuffle(tlabs)
            rng.shuffle(tclabs)
        for i, lab in enumerate(tlabs):
            r = " " + lab + "%*d" % (wi, i + 1)
            for k in names:
                x, v = cell(k)
                r += x
                vals[k].append(v)
            rows.append(r)
        el = table("ELEM.  INDEX" + "".join(k.rjust(w) for k in names), rows, len(names))
        if m:
            cvals = {k: [] for k in cnames}
            rows = []
            for i, (a, b) in enumerate(tclabs):
                r = " " + a + "  " + b + "%*d" % (wi, i + 1)
                for k in cnames:
                    x, v = cell(k)
                    r += x
                    cvals[k].append(v)
                rows.append(r)
            co = table("ELEM1  ELEM2  INDEX" + "".join(k.rjust(w) for k in cnames), rows, len(cnames))
        else:
            co, cvals = None, None
        L += el + ["", at]
        if co:
            L += [""] + co + ["", at]
        if rng.random() < 0.5:  # another table of elements
            L += [""] + table("ELEM.  INDEX" + "".join(k.rjust(w) for k in ["X1", "X2"]),
                              [" " + l + "%*d" % (wi, i + 1) + number(rng, w, p, style)[0] + number(rng, w, p, style)[0]
                               for i, l in enumerate(tlabs)], 2) + ["", at]
        L.append("")
        out.append({"time": t, "element": vals, "connection": cvals, "labels": tlabs, "connections": tclabs})
    L += ["", " END OF TOUGH2 SIMULATION JOB"]
    return {"text": "\n".join(L) + "\n", "labels": labs, "connections": clabs, "steps": out, "nlab": nlab,
            "names": names, "cnames": cnames, "glued": tight, "style": style, "page": page, "width": w}
