"""C01 - a written TOUGH deck holds every given value in its own columns."""
import logging

import toughio

from vmon.core import Violation
from vmon.lib import deck, gendeck, tio

RULE = ("Case = seeded parameter dictionary (all blocks, boundary list lengths, label lengths 5-9, negative / "
        "three-digit-exponent / NumPy values) written by the library; the file is compared column by column with the "
        "records an independent layout model expects. Distinct = set of blocks written x label length x record count.")
ASSUMPTIONS = ["record layouts transcribed from the TOUGH2/TOUGH3/TOUGH-FLAC manuals",
               "values fit the integer/character width of their field"]
REACH = {"block:%s" % b: 5 for b in deck.KEYWORDS}
REACH["huge"] = 10


def observe(case, P, B):
    nlab = 0
    for k in ("elements", "initial_conditions", "generators"):
        if P.get(k):
            nlab = len(next(iter(P[k])))
    for k, recs in B.items():
        if k != "TITLE":
            case.count("block:%s" % k)
        if recs:
            case.count("records", len(recs))
            case.count("fields", sum(len(r) for r in recs if r))
    case.shape(tuple(B), nlab, sum(len(r or ()) for r in B.values()))
    case.note = {"blocks": list(B), "label_length": nlab, "parameters": repr(P)[:1500]}


def one(case, P):
    B = deck.deck_blocks(P)
    path = case.path("INFILE")
    case.call("write_input", toughio.write_input, path, P)
    text = tio.read_text(path)
    e = deck.check_deck(text, B)
    case.check(e is None, "deck", lambda: "%s\nparameters: %.1500r" % (e, P))
    for line in text.split("\n"):
        case.check(len(line) <= 80, "line-length", lambda: "line of %d columns: %r" % (len(line), line))
    observe(case, P, B)


def full(case):
    logging.disable(logging.CRITICAL)
    one(case, gendeck.gen_params(case.rng))


BLOCKS = ["RPCAP", "FLAC", "MULTI", "SOLVR", "PARAM", "MOP", "SELEC", "INDOM", "MOMOP", "TIMES", "FOFT", "COFT", "GOFT",
          "GENER", "DIFFU", "OUTPU", "ELEME", "COORD", "CONNE", "INCON"]


def single(case):
    """One or two optional blocks only: neighbours cannot hide a missing terminator."""
    logging.disable(logging.CRITICAL)
    b = BLOCKS[case.index % len(BLOCKS)]
    only = {b} | ({case.rng.choice(BLOCKS)} if case.rng.random() < 0.5 else set())
    if "COORD" in only:
        only.add("ELEME")
    one(case, gendeck.gen_params(case.rng, only=only))


def big(case):
    """Many rocks, elements, connections, sources, times."""
    logging.disable(logging.CRITICAL)
    one(case, gendeck.gen_params(case.rng, big=True))


def huge(case):
    """Thousands of elements, connections, times; hundreds of rocks and sources."""
    logging.disable(logging.CRITICAL)
    one(case, gendeck.gen_params(case.rng, big=2))
    case.count("huge")


SCALE = 2  # cases of the quick tier are this many times those listed
FAMILIES = {"huge": (huge, 16, 120), "big": (big, 48, 800), "full": (full, 4000, 60000), "single": (single, 4000, 60000)}
