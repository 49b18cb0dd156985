"""C02 - reading back a written deck returns the parameters; re-writing is a fixed point."""
import logging
import re

import toughio

from vmon.lib import deck, gendeck, tio
from vmon.props import c01

RULE = ("Case = seeded parameter dictionary written, read, re-written and re-read; the dictionary read is compared with "
        "the effective parameters to the precision of each field, and the second file with the first. Distinct = set of "
        "blocks x label length x record count.")
ASSUMPTIONS = ["names that a Fortran reader could take for a number are not generated",
               "all initial conditions of a deck have the same number of records (as the simulator requires)",
               "a number written again with other digits of the same value (1e-99) is the same"]
REACH = c01.REACH


def norm_title(text, n):
    lines = text.split("\n")
    return [l.strip() for l in lines[:n]] + lines[n:]


EDGE = re.compile(r" *(-?)1\.0+e-99")  # -9.996e-100 takes fewer digits than the number it is rounded to, -1.000e-99


def same_numbers(a, b):
    """Lines that only differ in the digits printed of numbers equal to 1e-99."""
    return EDGE.sub(r"\1#", a) == EDGE.sub(r"\1#", b)


def one(case, P, **kw):
    B = deck.deck_blocks(P)
    a, b = case.path("A"), case.path("B")
    case.call("write_input", toughio.write_input, a, P)
    R = case.call("read_input", toughio.read_input, a, **kw)
    d = deck.diff(deck.effective(P, B), deck.canonical_read(R))
    case.check(d is None, "roundtrip", lambda: "%s\nparameters: %.1500r" % (d, P))
    case.call("rewrite", toughio.write_input, b, R)
    n = len(B["TITLE"])
    ta, tb = tio.read_text(a), tio.read_text(b)
    if norm_title(ta, n) != norm_title(tb, n):
        la, lb = norm_title(ta, n), norm_title(tb, n)
        i = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y and not same_numbers(x, y)), min(len(la), len(lb)))
        case.check(len(la) == len(lb) == i, "rewrite", "line %d differs: %r then %r" % (i + 1, la[i:i + 1], lb[i:i + 1]))
    R2 = case.call("read_input", toughio.read_input, b, **kw)
    case.check(tio.snapshot(R) == tio.snapshot(R2), "reread", lambda: "reading the re-written file differs: %s"
               % (deck.diff(R, R2),))
    c01.observe(case, P, B)


def full(case):
    logging.disable(logging.CRITICAL)
    one(case, gendeck.gen_params(case.rng))


def single(case):
    logging.disable(logging.CRITICAL)
    b = c01.BLOCKS[case.index % len(c01.BLOCKS)]
    only = {b} | ({case.rng.choice(c01.BLOCKS)} if case.rng.random() < 0.5 else set())
    if "COORD" in only:
        only.add("ELEME")
    one(case, gendeck.gen_params(case.rng, only=only))


def explicit(case):
    """Explicit label length: records whose columns would make it ambiguous."""
    logging.disable(logging.CRITICAL)
    rng = case.rng
    P = gendeck.gen_params(rng, only={"ELEME", "COORD", "GENER", "INCON", "CONNE"})
    n = len(next(iter(P["elements"])))
    w = deck.ELEME_N[n]
    for e in P["elements"].values():
        if rng.random() < 0.7:
            e["nseq"] = rng.randint(10 ** (w[1] - 1), 10 ** w[1] - 1)
    P["generators"] = {k: v for k, v in P["generators"].items() if len(k) == n}
    for g in P["generators"].values():
        if isinstance(g["type"], str):
            g["name"] = "%05d" % rng.randint(0, 99999)
        else:
            g["name"] = ["%05d" % rng.randint(0, 99999) for _ in g["type"]]
    one(case, P, label_length=n)


def big(case):
    """Many rocks, elements, connections, sources, times."""
    logging.disable(logging.CRITICAL)
    one(case, gendeck.gen_params(case.rng, big=True))


def huge(case):
    """Thousands of elements, connections, times; hundreds of rocks and sources."""
    logging.disable(logging.CRITICAL)
    one(case, gendeck.gen_params(case.rng, big=2))
    case.count("huge")


SCALE = 2  # cases of the quick tier are this many times those listed
FAMILIES = {"huge": (huge, 16, 120), "big": (big, 48, 800), "full": (full, 3000, 50000), "single": (single, 3000, 50000), "explicit": (explicit, 800, 8000)}
