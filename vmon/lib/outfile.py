"""Independent parsers of simulation output files (csv, petrasim, tecplot)."""
import csv
import io
import re


class Bad(Exception):
    pass


def parse(fmt, text):
    """[(time, labels, {column: [values]})], labels None for tecplot; values are the texts' floats."""
    return {"csv": _csv, "petrasim": _petrasim, "tecplot": _tecplot}[fmt](text)


def _rows(text):
    return [[c.strip() for c in r] for r in csv.reader(io.StringIO(text), skipinitialspace=True) if r]


def _csv(text):
    rows = _rows(text)
    head = rows[0]
    nl = 2 if head[0] == "ELEM1" else 1
    if head[0] != ("ELEM" if nl == 1 else "ELEM1") or len(rows[1]) != len(head):
        raise Bad("header %r" % (rows[:2],))
    out = []
    for r in rows[2:]:
        if r[0].startswith("TIME"):
            out.append((float(r[0].split()[-1]), [], {h: [] for h in head[nl:]}))
            continue
        if not out:
            out.append((None, [], {h: [] for h in head[nl:]}))
        if len(r) != len(head):
            raise Bad("row %r" % (r,))
        out[-1][1].append(r[0] if nl == 1 else r[:2])
        for h, v in zip(head[nl:], r[nl:]):
            out[-1][2][h].append(float(v))
    return out


def _petrasim(text):
    rows = _rows(text)
    head = rows[0]
    if head[:3] != ["TIME [sec]", "ELEM", "INDEX"]:
        raise Bad("header %r" % (head,))
    out = []
    for r in rows[1:]:
        if len(r) != len(head):
            raise Bad("row %r" % (r,))
        t = float(r[0])
        if not out or out[-1][0] != t or int(r[2]) == 1:
            out.append((t, [], {h: [] for h in head[3:]}))
        out[-1][1].append(r[1])
        if int(r[2]) != len(out[-1][1]):
            raise Bad("index %r at row %d" % (r[2], len(out[-1][1])))
        for h, v in zip(head[3:], r[3:]):
            out[-1][2][h].append(float(v))
    return out


def _tecplot(text):
    lines = [l.strip() for l in text.splitlines() if l.strip()]
    m = re.match(r'(?i)variables\s*=\s*(.*)$', lines[0])
    if not m:
        raise Bad("header %r" % (lines[0],))
    head = [h.strip('"') for h in m.group(1).replace(",", " ").split()]
    out, i = [], 1
    while i < len(lines):
        m = re.match(r'(?i)zone\s+t\s*=\s*"\s*([-+0-9.eE]+)\s+sec"\s+i\s*=\s*(\d+)$', lines[i])
        if not m:
            raise Bad("zone %r" % (lines[i],))
        n = int(m.group(2))
        cols = {h: [] for h in head}
        for l in lines[i + 1:i + 1 + n]:
            v = l.split()
            if len(v) != len(head):
                raise Bad("row %r" % (l,))
            for h, x in zip(head, v):
                cols[h].append(float(x))
        if len(cols[head[0]]) != n:
            raise Bad("%d rows of %d" % (len(cols[head[0]]), n))
        out.append((float(m.group(1)), None, cols))
        i += 1 + n
    return out
