"""C03 - decks written by others are read as what they say, and reading always ends."""
import logging

import toughio

from vmon import core
from vmon.lib import deck, gendeck, tio
from vmon.props import c01

RULE = ("Case = deck rendered from seeded parameters by an independent renderer (number spelling, justification, stripped "
        "trailing blanks, header text, block order, '+++' continuation), or a damaged/partial file read under a "
        "deterministic step budget. Distinct = blocks x style, or damage kind x position.")
ASSUMPTIONS = ["damaged files may raise any ordinary exception; only termination within the step budget is required"]
REACH = dict(c01.REACH)
REACH.update({"damaged:read": 20, "damaged:raised": 20, "direct-step": 10, "blank direction": 100})


def styles(case, big=False):
    logging.disable(logging.CRITICAL)
    rng = case.rng
    P = gendeck.gen_params(rng, big=big)
    for rock in (P.get("rocks") or {}).values():
        k = rock.get("permeability")
        if k is not None and rng.random() < 0.1:
            # some directions are left blank
            rock["permeability"] = [x if rng.random() < 0.5 else None for x in deck.per3(k)]
            case.count("blank direction")
    strip = rng.choice([True, False, "mix"])
    style = rng.choice(["e", "E", "fixed", "noexp", "D", "short", "mix"])
    text = deck.render(P, rng, style=style, strip=strip)
    nl = rng.choice(["\n", "\n", "\n", "\r\n"])
    path = tio.write_text(case.path("deck.inp"), text.replace("\n", nl))
    R = case.call("read_input", toughio.read_input, path)
    d = deck.diff(deck.effective(P), deck.canonical_read(R))
    case.check(d is None, "foreign-deck", lambda: "%s\nstyle=%s strip=%s\n%s" % (d, style, strip, text[:3000]))
    c01.observe(case, P, deck.deck_blocks(P))
    case.shape(style, strip, nl)
    case.note = {"style": style, "strip": strip, "newline": nl, "deck": text[:1200]}


def big(case):
    """Many rocks, elements, connections, sources, times."""
    styles(case, True)


def huge(case):
    """Thousands of elements, connections, times; hundreds of rocks and sources."""
    styles(case, 2)
    case.count("huge")


def step(case):
    """Constant time step given directly in the record (no table)."""
    rng = case.rng
    v = rng.choice([0.5, 1.0, 100.0, 8.64e4, 2.5e-3, 1e6, 12.75, rng.uniform(0, 10)])
    spell = rng.choice(["%.4g", "%.3e", "%.3E"]) % v
    P = gendeck.gen_params(rng, only={"MOP"})
    lines = deck.render(P, rng, shuffle=False, headers="bare", noise=False).split("\n")
    i = lines.index("PARAM")
    lines[i + 2] = lines[i + 2].ljust(80)[:20] + spell.rjust(10) + lines[i + 2].ljust(80)[30:]
    del lines[i + 3]
    path = tio.write_text(case.path("deck"), "\n".join(lines))
    R = case.call("read_input", toughio.read_input, path)
    got = R["options"].get("t_steps")
    case.check(got is not None and abs(float(got) - float(spell)) <= 1e-12 * abs(float(spell)), "time-step",
               lambda: "time step %r read as %r" % (spell, got))
    # the rest of the record and the following ones must not move
    C = deck.canonical_read(R)
    E = deck.effective(P)
    C["options"].pop("t_steps", None)
    E["options"].pop("t_steps", None)
    d = deck.diff(E, C)
    case.check(d is None, "foreign-deck", d)
    case.count("direct-step")
    case.shape(spell)


def partial(case):
    """MESH, INCON and GENER files: no title, no ROCKS."""
    logging.disable(logging.CRITICAL)
    rng = case.rng
    kind = rng.choice(["mesh", "incon", "gener"])
    only = {"mesh": {"ELEME", "CONNE"}, "incon": {"INCON"}, "gener": {"GENER"}}[kind]
    P = gendeck.gen_params(rng, only=only | {"COORD"})
    B = deck.deck_blocks(P)
    keep = {"mesh": ("ELEME", "COORD", "CONNE"), "incon": ("INCON",), "gener": ("GENER",)}[kind]
    sub = {"mesh": ("elements", "elements_order", "coordinates", "connections", "connections_order"),
           "incon": ("initial_conditions", "initial_conditions_order"), "gener": ("generators",)}[kind]
    Q = {k: v for k, v in P.items() if k in sub}
    BQ = {k: B[k] for k in keep if k in B}
    # render only these blocks
    full = deck.deck_blocks
    try:
        deck.deck_blocks = lambda _: BQ
        text = deck.render(Q, rng, strip=rng.choice([True, False]), shuffle=False)
    finally:
        deck.deck_blocks = full
    path = tio.write_text(case.path({"mesh": "MESH", "incon": "INCON", "gener": "GENER"}[kind]), text)
    R = case.call("read_input", toughio.read_input, path)
    E = deck.effective(Q, BQ)
    d = deck.diff(E, deck.canonical_read(R))
    case.check(d is None, "partial-file", lambda: "%s\n%s" % (d, text[:2000]))
    case.count("partial:" + kind)
    for k in BQ:
        case.count("block:" + k)
    case.shape(kind, len(text))


def damaged(case):
    """Truncated, shuffled, foreign or empty files: reading must end."""
    logging.disable(logging.CRITICAL)
    rng = case.rng
    kind = ["truncate", "no-rocks", "empty", "garbage", "drop-line", "dup-line", "blank"][case.index % 7]
    P = gendeck.gen_params(rng)
    text = deck.render(P, rng)
    if kind == "truncate":
        text = text[:rng.randint(0, len(text))]
    elif kind == "no-rocks":
        text = "\n".join(l for l in text.split("\n") if not l.strip().startswith("ROCKS"))
    elif kind == "empty":
        text = rng.choice(["", "\n", "\n\n\n", "title only", "title\n\n\n"])
    elif kind == "garbage":
        text = "\n".join("".join(chr(rng.randint(32, 126)) for _ in range(rng.randint(0, 90))) for _ in range(rng.randint(1, 60)))
    else:
        lines = text.split("\n")
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(len(lines))
            if kind == "drop-line":
                del lines[i]
            elif kind == "dup-line":
                lines.insert(i, lines[i])
            else:
                lines[i] = ""
            if not lines:
                lines = [""]
        text = "\n".join(lines)
    path = tio.write_text(case.path("deck"), text)
    budget = 20000 + 400 * (text.count("\n") + 1) + 40 * len(text)
    with core.steps(budget) as st:
        try:
            toughio.read_input(path)
            case.count("damaged:read")
        except (core.StepBudget, MemoryError):
            raise
        except Exception:
            case.count("damaged:raised")
    case.check(st.n <= budget, "no-termination")
    case.count("steps", st.n)
    case.shape(kind, len(text))


SCALE = 4  # cases of the quick tier are this many times those listed
FAMILIES = {"huge": (huge, 16, 120), "big": (big, 48, 800), "styles": (styles, 4000, 60000), "step": (step, 200, 2000), "partial": (partial, 800, 8000),
            "damaged": (damaged, 700, 7000)}
