"""C05 - a deck written in parts and merged again is the whole deck."""
import logging
import os

import toughio

from vmon.lib import deck, gendeck, tio

RULE = ("Case = seeded parameter dictionary written whole and in parts (MESH / INCON / GENER selections, main file without "
        "them); the parts are compared with the records an independent layout model expects, read alone, and put back "
        "together with the merge command (missing final newlines, foreign lines after the end keyword, ENDFI). "
        "Distinct = set of blocks x label length x record count.")
ASSUMPTIONS = ["the merged main file does not itself contain ELEME, CONNE or INCON"]
REACH = {"part:mesh": 200, "part:incon": 100, "part:gener": 100, "merged": 200, "merge_no_newline": 50, "merge_refused": 30, "rocks_second": 30, "merge_over:mesh": 30, "merge_over:incon": 20}

PART = {"mesh": ("ELEME", "COORD", "CONNE"), "incon": ("INCON",), "gener": ("GENER",)}
PKEYS = {"mesh": ("elements", "elements_order", "coordinates", "connections", "connections_order"),
         "incon": ("initial_conditions", "initial_conditions_order"), "gener": ("generators",)}


def parts(case):
    logging.disable(logging.CRITICAL)
    rng = case.rng
    only = None
    if rng.random() < 0.5:
        only = {b for b in ("ELEME", "COORD", "CONNE", "INCON", "GENER", "PARAM", "INDOM", "TIMES") if rng.random() < 0.7}
        if "COORD" in only:
            only.add("ELEME")
    P = gendeck.gen_params(rng, only=only, big=rng.choice([1, 1, 1, 2]) if rng.random() < 0.01 else 0)
    B = deck.deck_blocks(P)
    for part, names in PART.items():
        f = case.path("part_%s" % part)
        case.call("write_part", toughio.write_input, f, P, block=part)
        text = tio.read_text(f)
        sub = {k: v for k, v in B.items() if k in names}
        if not sub:
            case.check(text == "", "part-empty", lambda: "%s: %.200r" % (part, text))
            continue
        e = deck.check_deck(text, dict([("TITLE", [])] + list(sub.items())))
        case.check(e is None, "part-deck", lambda: "%s: %s" % (part, e))
        case.count("part:%s" % part)
        # the part alone reads back like the same blocks of the whole deck
        R = case.call("read_part", toughio.read_input, f)
        want = deck.effective({k: P[k] for k in PKEYS[part] if k in P}, sub)
        got = deck.canonical_read(R)
        d = deck.diff({k: v for k, v in want.items() if k in PKEYS[part]}, {k: v for k, v in got.items() if k in PKEYS[part]})
        case.check(d is None, "part-read", lambda: "%s: %s" % (part, d))
    case.shape(tuple(B), sum(len(r or ()) for r in B.values()))
    case.note = {"blocks": list(B)}


def exchange(text, P):
    """The same deck with blocks ROCKS and PARAM exchanged."""
    B = deck.deck_blocks(P)
    lines = text.split("\n")
    at, i = {}, 0
    for k, r in B.items():
        n = len(r or ()) + (k != "TITLE")
        at[k] = lines[i:i + n]
        i += n
    if "PARAM" not in B or "ROCKS" not in B or "FLAC" in B or not (at["PARAM"][0].startswith("PARAM") and at["ROCKS"][0].startswith("ROCKS")):
        return text
    order = list(B)
    a, b = order.index("ROCKS"), order.index("PARAM")
    order[a], order[b] = order[b], order[a]
    return "\n".join([l for k in order for l in at[k]] + lines[i:])


def merge(case):
    logging.disable(logging.CRITICAL)
    rng = case.rng
    only = {b for b in ("COORD", "CONNE", "INCON", "GENER", "PARAM", "INDOM", "TIMES", "FOFT", "OUTPU", "SELEC", "MOMOP",
                        "RPCAP", "MULTI") if rng.random() < 0.6} | {"ELEME"}
    P = gendeck.gen_params(rng, only=only, big=rng.choice([1, 1, 1, 2]) if rng.random() < 0.01 else 0)
    whole = case.path("whole")
    case.call("write_input", toughio.write_input, whole, P)
    meshincon = set(PKEYS["mesh"] + PKEYS["incon"])
    d = case.subdir("run")
    main, mesh, incon, out = [os.path.join(d, x) for x in ("INFILE", "MESH", "INCON", "merged")]
    Q = {k: v for k, v in P.items() if k not in meshincon}
    case.call("write_input", toughio.write_input, main, Q)
    case.call("write_part", toughio.write_input, mesh, P, block="mesh")
    with_incon = bool(P.get("initial_conditions"))
    if with_incon:
        case.call("write_part", toughio.write_input, incon, P, block="incon")
    texts = {}
    for f in (main, mesh, incon):
        if os.path.exists(f):
            t = tio.read_text(f)
            if f == main:
                if rng.random() < 0.3:
                    t = exchange(t, Q)
                    case.count("rocks_second", int(t.find("ROCKS") > t.find("PARAM") > 0))
                k = rng.random()
                if k < 0.3:
                    i = t.rindex("ENDCY")
                    t = t[:i] + rng.choice(["ENDFI", "endcy", "ENDCY   "]) + t[i + 5:]
                if rng.random() < 0.3:
                    t = t.rstrip("\n") + "\n" + "comment after the end\nMORE 1.0\n" + rng.choice(["", "ENDCY (old)\n", "ENDFI\nfin\n", "PARAM\nROCKS\n\nENDCY\n", "ELEME\n\n"])
            if rng.random() < 0.3:
                # last record without newline (the blank record that ends MESH and INCON stays one)
                t = t.rstrip("\n") if f == main else t[:-1] + " " * rng.choice([1, 5, 80])
                case.count("merge_no_newline")
            tio.write_text(f, t)
            texts[f] = t
    target = rng.choice(["other", "other", "infile", "infile", "mesh", "incon"])
    if target == "incon" and not with_incon:
        target = "mesh"
    out = {"other": out, "infile": main, "mesh": mesh, "incon": incon}[target]
    case.count("merge_over:%s" % target)
    cwd = os.getcwd()
    if rng.random() < 0.3:
        os.chdir(d)
        argv = [os.path.basename(main), os.path.basename(out)]
    else:
        argv = [main, out]
    try:
        case.call("merge", toughio._cli.merge, argv)
    finally:
        os.chdir(cwd)
    case.count("merged")
    for f in (main, mesh, incon):
        if f in texts and f != out:
            case.check(tio.read_text(f) == texts[f], "merge-source", "merge changed %s" % os.path.basename(f))
    got = tio.read_text(out)
    # every line of every source, in its order: main up to the end keyword, MESH, INCON, rest of main
    lines = texts[main].splitlines()
    n_title = len(deck.deck_blocks(P)["TITLE"])
    iend = next(i for i, l in enumerate(lines) if i >= n_title and l[:5].upper() in ("ENDCY", "ENDFI"))
    want = lines[:iend] + texts[mesh].splitlines() + (texts[incon].splitlines() if with_incon else []) + lines[iend:]
    g = got.splitlines()
    i = next((i for i, (x, y) in enumerate(zip(want, g)) if x != y), min(len(want), len(g)))
    case.check(want == g, "merge-lines", lambda: "line %d: expected %r, got %r (%d / %d lines)" % (
        i + 1, want[i:i + 1], g[i:i + 1], len(want), len(g)))
    # and it reads like the whole deck
    if "ENDFI" not in texts[main] and "endcy" not in texts[main]:
        A = case.call("read_input", toughio.read_input, whole)
        M = case.call("read_input", toughio.read_input, out)
        case.check(set(A) == set(M), "merge-read", lambda: "%r / %r" % (sorted(A), sorted(M)))
        for D in (A, M):  # its keys come from two blocks, in any order
            if "default" in D:
                D["default"] = dict(sorted(D["default"].items()))
        for k in A:
            case.check(tio.snapshot(A[k]) == tio.snapshot(M[k]), "merge-read", lambda: "%s: %.200r / %.200r" % (k, A[k], M[k]))
    case.shape("merge", len(want), with_incon, target)
    case.note = {"lines": len(want), "incon": with_incon, "target": target}


def refused(case):
    """Sources that are not what they should be: refused, nothing written."""
    logging.disable(logging.CRITICAL)
    rng = case.rng
    P = gendeck.gen_params(rng, only={"ELEME", "CONNE", "INCON", "PARAM"})
    d = case.subdir("run")
    main, mesh, incon, out = [os.path.join(d, x) for x in ("INFILE", "MESH", "INCON", "merged")]
    case.call("write_input", toughio.write_input, main, {k: v for k, v in P.items() if k not in set(PKEYS["mesh"] + PKEYS["incon"])})
    case.call("write_part", toughio.write_input, mesh, P, block="mesh")
    case.call("write_part", toughio.write_input, incon, P, block="incon")
    how = ["no-infile", "no-mesh", "bad-mesh", "bad-incon", "no-end", "no-rocks", "empty-mesh", "empty-incon", "empty-infile"][case.index % 9]
    if how == "no-infile":
        os.remove(main)
    elif how == "no-mesh":
        os.remove(mesh)
    elif how == "bad-mesh":
        tio.write_text(mesh, "CONNE" + tio.read_text(mesh)[5:])
    elif how == "bad-incon":
        tio.write_text(incon, "SAVED" + tio.read_text(incon)[5:])
    elif how.startswith("empty"):
        tio.write_text({"empty-mesh": mesh, "empty-incon": incon, "empty-infile": main}[how], "")
    elif how == "no-end":
        t = tio.read_text(main)
        tio.write_text(main, t[:t.rindex("ENDCY")])
    elif how == "no-rocks":
        t = tio.read_text(main)
        tio.write_text(main, "\n".join(l for l in t.split("\n") if not l.startswith("ROCKS")))
    keep = rng.random() < 0.5
    if keep:
        tio.write_text(out, "precious\n")
    case.refused("merge", ValueError, toughio._cli.merge, [main, out])
    case.count("merge_refused")
    if keep:
        case.check(tio.read_text(out) == "precious\n", "merge-clobber", "refused merge changed the output file")
    else:
        case.check(not os.path.exists(out), "merge-clobber", "refused merge wrote the output file")
    case.shape("refused", how, keep, len(P["elements"]))


SCALE = 5  # cases of the quick tier are this many times those listed
FAMILIES = {"parts": (parts, 1500, 20000), "merge": (merge, 1000, 10000), "refused": (refused, 120, 1200)}
