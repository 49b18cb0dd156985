"""Seeded generator of simulation outputs (labels, times, data columns)."""
import numpy as np
import toughio

from vmon.lib import gendeck

NAMES = ["PRES", "TEMP", "SAT_G", "POR", "PCAP_GL", "DEN_G", "x_co2_l", "K(gas)", "VIS-W", "P", "T", "DG", "DW", "SG", "PERM_X"]
CNAMES = ["HEAT", "FLOW", "FLOW_G", "FLOW_L", "VEL_G", "vel(liq)", "X_FLOW"]


def val(rng):
    k = rng.random()
    if k < 0.1:
        return 0.0
    if k < 0.2:
        return rng.choice([-1, 1]) * 9.9999999999995 * 10.0 ** rng.randint(-12, 12)
    if k < 0.26:
        return rng.choice([-1, 1]) * rng.uniform(1, 10) * 10.0 ** rng.choice([-120, -100, -99, 99, 100, 200])
    if k < 0.3:
        return float(rng.randint(-1000, 1000))
    return rng.choice([-1, 1]) * rng.uniform(1, 10) * 10.0 ** rng.randint(-8, 9)


def labels(rng, n, nlab=None):
    nlab = nlab or rng.choice([5, 5, 5, 6, 7, 8, 9])
    used, out = set(), []
    for _ in range(n):
        out.append(gendeck.label(rng, nlab, used))
    return out


def times(rng, n, sort=True):
    t = set()
    if rng.random() < 0.15:  # neighbours at the digits every format holds
        m, e = rng.randint(10 ** 7, 10 ** 8 - 100), rng.randint(-7, 3)
        t = {float("%de%d" % (m + i, e)) for i in range(n)}
    while len(t) < n:
        k = rng.random()
        x = rng.uniform(1, 10) * 10.0 ** rng.randint(0, 10)
        if k < 0.3:
            x = float(rng.randint(0, 10 ** rng.randint(1, 8)))
        t.add(float("%.7e" % x))
    t = list(t)
    t.sort()
    if not sort:
        rng.shuffle(t)
    return t


def gen(rng, kind="element", coords="XYZ", nt=None, nd=None, n=None, fn=val):
    """A list of Output of one simulation (same labels and columns for all times)."""
    big = rng.random()
    n = n or (rng.choice([1, 2, 3, 5, 8, 20]) if big > 0.03 else rng.choice([64, 100, 129, 257, 1001]) if big > 0.002 else 5200)
    nt = nt or (rng.choice([1, 1, 2, 3, 5]) if big > 0.05 or big < 0.03 else rng.choice([9, 11, 26] + [310] * (n <= 3)))
    if kind == "element":
        labs = labels(rng, n)
    else:
        base = labels(rng, max(2, n))
        labs = [[rng.choice(base), rng.choice(base)] for _ in range(n)]
    names = list(NAMES if kind == "element" else CNAMES)
    rng.shuffle(names)
    names = names[:nd or rng.choice([1, 1, 2, 4, 7])]
    if not nd and rng.random() < 0.03:
        names += ["V%d" % i for i in range(rng.choice([8, 20, 40]))]
    keys = list(coords) + names
    if rng.random() < 0.3:
        rng.shuffle(keys)
    xyz = {c: np.array([fn(rng) for _ in range(n)]) for c in coords}
    out = []
    same = rng.random()
    for t in times(rng, nt):
        d = {k: (xyz[k].copy() if k in xyz else np.array([fn(rng) for _ in range(n)])) for k in keys}
        if same < 0.2 and out:  # columns that do not change in time
            for k in names:
                if same < 0.1 or rng.random() < 0.5:
                    d[k] = out[-1].data[k].copy()
        elif same < 0.3:  # columns with one value
            for k in names:
                d[k] = np.full(n, fn(rng))
        elif same < 0.4 and n > 1:  # equal rows
            i, j = rng.randrange(n), rng.randrange(n)
            for k in keys:
                d[k][i] = d[k][j]
        out.append(toughio.Output(kind, "csv", t, np.array(labs), d))
    return out


def close(a, b, rel):
    """Vector comparison to a relative precision; nan equals nan."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rel * np.abs(a))
    return bool(ok.all())
