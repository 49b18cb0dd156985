"""C09 - main output listings are read completely and without misplacing a value."""
import numpy as np
import toughio

from vmon import core
from vmon.lib import genout, listing, tio

RULE = ("Case = listing rendered by an independent Fortran-style writer (label length 5-9, repeated page headers, glued "
        "negative numbers, three-digit exponents, overflow asterisks, NaN, several times, secondary tables) read for elements and connections, "
        "with and without explicit label length. Distinct = label length x cells x times x columns x glued x page.")
ASSUMPTIONS = ["table rows: one blank, label(s) separated by two blanks, index, fixed-width numbers",
               "tables end with a line of @"]
REACH = {"large": 12, "element_rows": 5000, "connection_rows": 5000, "glued_tables": 100, "no_zero": 100, "long_labels": 100, "explicit_length": 100,
         "ordered": 100, "refused": 10, "order_changes": 60}


def check(case, S, got, kind):
    case.check(isinstance(got, list) and len(got) == len(S["steps"]), "steps", lambda: "%d time steps, read %d" % (len(S["steps"]), len(got)))
    names = S["names"] if kind == "element" else S["cnames"]
    for s, g in zip(S["steps"], got):
        labs = s["labels"] if kind == "element" else [list(c) for c in s["connections"]]
        case.count("order_changes", int(kind == "element" and labs != S["labels"]))
        case.check(g.type == kind and g.format == "tough", "type", lambda: "%r" % ((g.type, g.format),))
        case.check(genout.close([s["time"]], [g.time], 1e-12), "time", lambda: "%r / %r" % (s["time"], g.time))
        gl = np.asarray(g.labels).tolist()
        case.check(gl == labs, "labels", lambda: "%r / %r" % (labs[:4], gl[:4]))
        case.check(list(g.data) == names, "columns", lambda: "%r / %r" % (names, list(g.data)))
        for k in names:
            v = np.asarray(g.data[k], dtype=float)
            case.check(genout.close(s[kind][k], v, 1e-13), "values", lambda: "%s time %r %s: %r / %r" % (
                kind, s["time"], k, s[kind][k][:6], v[:6].tolist()))
        case.count("%s_rows" % kind, len(labs))


def one(case, **kw):
    rng = case.rng
    S = listing.render(rng, restart=rng.random() < 0.08, **kw)
    case.count("again", int(len({s["time"] for s in S["steps"]}) < len(S["steps"])))
    f = tio.write_text(case.path("OUTPUT"), S["text"], case)
    opts = {}
    if rng.random() < 0.4 or kw.get("alpha_labels"):
        opts["label_length"] = S["nlab"]
        case.count("explicit_length")
    got = case.call("read_output", toughio.read_output, f, **opts)
    check(case, S, got, "element")
    if S["connections"]:
        got = case.call("read_connection", toughio.read_output, f, connection=True, **opts)
        check(case, S, got, "connection")
    else:
        case.refused("no-connection", ValueError, toughio.read_output, f, connection=True, **opts)
    if len(S["labels"]) > 1 and rng.random() < 0.4:
        order = list(S["labels"])
        rng.shuffle(order)
        steps = []
        for s in S["steps"]:
            idx = [s["labels"].index(l) for l in order]
            steps.append(dict(s, labels=order, element={k: [v[i] for i in idx] for k, v in s["element"].items()}))
        T = dict(S, labels=order, steps=steps)
        got = case.call("read_ordered", toughio.read_output, f, labels_order=rng.choice([list, tuple, np.array])(order), **opts)
        check(case, T, got, "element")
        case.count("ordered")
    case.count("glued_tables", int(S["glued"]))
    case.count("no_zero", int(S["style"] == "N"))
    case.count("long_labels", int(S["nlab"] > 5))
    case.shape(S["nlab"], len(S["labels"]), len(S["steps"]), len(S["names"]), S["glued"], S["page"])
    case.note = {k: S[k] for k in ("nlab", "names", "cnames", "glued", "page", "width")}


def plain(case):
    one(case, shuffle=case.rng.random() < 0.15)


def blanks(case):
    one(case, nlab=5, blank_labels=True)


def alpha(case):
    """Labels whose length cannot be guessed: it is given."""
    one(case, alpha_labels=True)


def truncated(case):
    from vmon.core import StepBudget, Violation, steps

    rng = case.rng
    S = listing.render(rng, n=rng.choice([1, 3, 7]), nt=rng.choice([1, 2]))
    text = S["text"][:rng.randrange(len(S["text"]))]
    f = tio.write_text(case.path("OUTPUT"), text)
    for conn in (False, True):
        try:
            with steps(50000 + 400 * len(text)):
                toughio.read_output(f, connection=conn)
            case.count("truncated_read")
        except StepBudget as x:
            raise Violation("no-termination", str(x))
        except Exception:
            case.count("truncated_refused")
        case.count("oracle_evaluations")
    case.shape("truncated", len(text) // 500)


SCALE = 4  # cases of the quick tier are this many times those listed
FAMILIES = {"large": (core.large(plain), 16, 160), "plain": (plain, 900, 12000), "blanks": (blanks, 200, 3000), "alpha": (alpha, 200, 3000), "truncated": (truncated, 150, 2000)}
