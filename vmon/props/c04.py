"""C04 - a JSON input file holds exactly the parameters and is equivalent to the TOUGH deck."""
import json
import logging

import numpy as np
import toughio

from vmon.lib import deck, gendeck, tio

RULE = ("Case = seeded parameter dictionary (NumPy scalars and arrays, tuples, integer keys) written as JSON and read back: "
        "exact equality of values, same TOUGH deck written from either side, same JSON from a deck. Distinct = set of "
        "parameter groups x number of leaves.")
ASSUMPTIONS = ["numbers are finite"]
REACH = {"leaves": 1000, "numpy_leaves": 100, "group:extra_options": 10, "group:selections": 10, "group:more_options": 10}


def plain(x, case=None):
    """Plain Python image of a parameter (exact)."""
    if isinstance(x, np.ndarray):
        case.count("numpy_leaves")
        return plain(x.tolist(), case)
    if isinstance(x, np.generic):
        case.count("numpy_leaves")
        return plain(x.item(), case)
    if isinstance(x, (list, tuple)):
        return [plain(v, case) for v in x]
    if isinstance(x, dict):
        return {k: plain(v, case) for k, v in x.items()}
    case.count("leaves")
    return x


def same(a, b, path=""):
    """First difference, exact types for bool/int/float/str."""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return "%s: %r / %r" % (path, a, b)
        if set(a) != set(b):
            return "%s: keys %r / %r" % (path, sorted(map(repr, a)), sorted(map(repr, b)))
        for k in a:
            d = same(a[k], b[k], path + "/%r" % (k,))
            if d:
                return d
        return None
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)) or len(a) != len(b):
            return "%s: %r / %r" % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, path + "/%d" % i)
            if d:
                return d
        return None
    if isinstance(a, bool) != isinstance(b, bool) or a != b:
        return "%s: %r / %r" % (path, a, b)
    return None


def order(case, P, R):
    """Dictionaries whose order is meaningful keep it."""
    for k in ("rocks", "elements", "connections", "initial_conditions", "generators"):
        case.check(list(P.get(k) or {}) == list(R.get(k) or {}), "json-order", "%s: %r / %r" % (k, list(P.get(k) or {}), list(R.get(k) or {})))


def roundtrip(case):
    logging.disable(logging.CRITICAL)
    rng = case.rng
    P = gendeck.gen_params(rng, big=rng.choice([1, 1, 1, 2]) if rng.random() < 0.01 else 0)
    ext = rng.random() < 0.6
    f = case.path("in.json" if ext else "infile")
    kw = {} if ext else {"file_format": "json"}
    case.call("write_json", toughio.write_input, f, P, **kw)
    R = case.call("read_json", toughio.read_input, f, **kw)
    want = plain(P, case)
    d = same(want, R)
    case.check(d is None, "json-roundtrip", lambda: "%s\n%.1200r" % (d, P))
    order(case, P, R)
    with open(f) as fh:
        json.loads(fh.read(), parse_constant=lambda c: case.check(False, "json-standard", "constant %s" % c))
    # the deck does not depend on the side it is written from
    a, b, c = case.path("A"), case.path("B"), case.path("C.json")
    case.call("write_tough", toughio.write_input, a, P, file_format="tough")
    case.call("write_tough", toughio.write_input, b, R, file_format="tough")
    ta, tb = tio.read_text(a), tio.read_text(b)
    if any(isinstance(x, np.float32) for x in leaves(P)):
        case.count("float32")  # a float32 has no exact shorter decimal image
        e = deck.check_deck(tb, deck.deck_blocks(P))
        case.check(e is None, "json-deck", lambda: str(e))
    else:
        case.check(ta == tb, "json-deck", lambda: "decks differ: %r" % (
            next(((x, y) for x, y in zip(ta.split("\n"), tb.split("\n")) if x != y), None),))
    # and a deck read in gives the same JSON parameters
    T = case.call("read_tough", toughio.read_input, a, file_format="tough")
    case.call("write_json", toughio.write_input, c, T)
    U = case.call("read_json", toughio.read_input, c)
    d = same(plain(T, case), U)
    case.check(d is None, "json-of-deck", lambda: str(d))
    for k in P:
        case.count("group:%s" % k)
    case.shape(tuple(sorted(P)), len(repr(want)) // 50)
    case.note = {"groups": sorted(P), "json_bytes": len(open(f).read())}


def leaves(x):
    if isinstance(x, dict):
        for v in x.values():
            for y in leaves(v):
                yield y
    elif isinstance(x, (list, tuple)):
        for v in x:
            for y in leaves(v):
                yield y
    else:
        yield x


class Opaque(object):
    pass


def failed(case):
    """A dictionary that cannot be written leaves an existing file as it was."""
    logging.disable(logging.CRITICAL)
    rng = case.rng
    P = gendeck.gen_params(rng)
    f = case.path("in.json")
    Q = gendeck.gen_params(rng)
    case.call("write_json", toughio.write_input, f, Q)
    before = tio.read_bytes(f)
    P[rng.choice(["title", "zzz", "times"])] = rng.choice([Opaque(), {1, 2}, [Opaque()], {"a": [1, Opaque()]}])
    try:
        toughio.write_input(f, P)
    except (TypeError, ValueError):
        case.count("unserializable")
    else:
        case.check(False, "accepted", "wrote an object that JSON cannot hold")
    case.check(tio.read_bytes(f) == before, "file-lost", "existing JSON file changed by a refused write")
    case.shape("failed", rng.random())


SCALE = 4  # cases of the quick tier are this many times those listed
FAMILIES = {"roundtrip": (roundtrip, 2000, 30000), "failed": (failed, 200, 2000)}
