"""Independent fixed-column reader of MESH and INCON files."""
from vmon.lib import deck


def num(s):
    s = s.strip()
    return None if not s else deck.parse_fortran(s)


def parse(text, nlab, step=1):
    """Blocks of a MESH / INCON file: {keyword: [records]}; raises ValueError on anything else.

    ``step``: lines per entry (the lines after the first one of an entry may be blank)."""
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    out, i = {}, 0
    while i < len(lines):
        k = lines[i][:5]
        if k not in ("ELEME", "COORD", "CONNE", "INCON"):
            if not lines[i].strip():
                i += 1
                continue
            raise ValueError("unexpected record %r" % lines[i])
        if k in out:
            raise ValueError("block %s twice" % k)
        rec = []
        i += 1
        while i < len(lines) and lines[i].strip():
            rec += lines[i:i + step]
            i += step
        if i >= len(lines):
            raise ValueError("block %s is not ended by a blank record" % k)
        i += 1
        out[k] = rec
    for k, rec in out.items():
        for l in rec:
            if len(l.rstrip()) > 80:  # noqa
                raise ValueError("record longer than 80 columns %r" % l)
    return out


def cut(line, widths):
    o, p = [], 0
    for w in widths:
        o.append(line[p:p + w])
        p += w
    if line[p:].strip():
        raise ValueError("text beyond the last field: %r" % line)
    return o


def elements(rec, n):
    a = deck_elem(n)
    out = []
    for l in rec:
        f = cut(l, [n, a[0], a[1], 5, 10, 10, 10, 10, 10, 10])
        out.append({"label": f[0], "blank": f[1] + f[2], "material": f[3], "volume": num(f[4]), "ahtx": num(f[5]), "pmx": num(f[6]),
                    "center": [num(x) for x in f[7:]]})
    return out


def deck_elem(n):
    return {5: (5, 5), 6: (5, 4), 7: (4, 4), 8: (4, 3), 9: (3, 3)}[n]


def connections(rec, n):
    w = {5: (5, 5, 5), 6: (5, 4, 4), 7: (5, 3, 3), 8: (3, 3, 3), 9: (3, 2, 2)}[n]
    out = []
    for l in rec:
        f = cut(l, [n, n] + list(w) + [5, 10, 10, 10, 10, 10])
        out.append({"labels": (f[0], f[1]), "blank": f[2] + f[3] + f[4], "isot": int(f[5]), "d": (num(f[6]), num(f[7])), "area": num(f[8]),
                    "beta": num(f[9]), "sig": num(f[10])})
    return out


def coords(rec):
    return [[num(x) for x in cut(l, [20, 20, 20])] for l in rec]


def incon(rec, n, nvar):
    w = {5: (5, 5), 6: (5, 4), 7: (4, 4), 8: (4, 3), 9: (3, 3)}[n]
    out = []
    step = 1 + -(-nvar // 4)
    if len(rec) % step:
        raise ValueError("%d records for records of %d lines" % (len(rec), step))
    for i in range(0, len(rec), step):
        f = cut(rec[i], [n] + list(w) + [15] + [10] * 5)
        v = []
        for j in range(1, step):
            v += [num(x) for x in cut(rec[i + j], [20] * 4)]
        out.append({"label": f[0], "blank": f[1] + f[2], "porosity": num(f[3]), "userx": [num(x) for x in f[4:]], "values": v[:nvar],
                    "rest": v[nvar:]})
    return out
