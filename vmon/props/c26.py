"""C26 - capillarity models follow their published equations."""
import math

import numpy as np
import toughio

from vmon.lib import models

RULE = ("Case = model with seeded admissible parameters (at and around their limits) evaluated at seeded saturations and at every threshold "
        "+/- a few ulps, one by one and as arrays, before and after its parameters are changed; compared with formulas transcribed from the "
        "TOUGH2 manual; sign, bound and monotonicity monitored. Distinct = model x rounded parameters.")
ASSUMPTIONS = ["arrays of saturations have one dimension", "pressures are not negative (the sign of the maximum of TRUST does not matter) and exponents positive",
               "the equation of Milly is undefined where its value exceeds the floating-point range (no residual saturation, no liquid)",
               "the equation of Pickens is cut off at 1.001 times the residual and 0.999 times the initial saturation",
               "above 99.9 % of liquid, capillary pressure vanishes linearly (TRUST, van Genuchten)"]
REACH = {"values": 15000, "monotonic": 300, "arrays": 300, "unsorted": 300, "refused": 200, "changed": 80, "plots": 5, "integers": 300, "above_sls": 200, "signed_maximum": 200}
CP = toughio.capillarity


def linear(s, pmax, smin, smax):
    return -pmax if s <= smin else 0.0 if s >= smax else -pmax * (smax - s) / (smax - smin)


def pickens(s, p0, slr, sl0, x):
    s = min(max(s, 1.001 * slr), 0.999 * sl0)
    A = (1 + s / sl0) * (sl0 - slr) / (sl0 + slr)
    B = 1 - s / sl0
    return -p0 * math.log(A / B * (1 + math.sqrt(1 - (B / A) ** 2))) ** (1 / x)


def ramp(s):
    return (1 - s) / 0.001 if s > 0.999 else 1.0


def trust(s, p0, slr, eta, pe, pmax):
    if s <= slr:
        p = -abs(pmax)
    else:
        p = max(-pe - p0 * ((1 - s) / (s - slr)) ** (1 / eta), -abs(pmax))
    return p * ramp(s)


def milly(s, slr):
    s = max(s, 1.001 * slr)
    if s - slr >= 0.371:
        return -97.783
    return -97.783 * 10 ** (2.26 * (0.371 / (s - slr) - 1) ** 0.25 - 2)


def vg(s, m, slr, alpha, pmax, sls):
    if s >= sls:
        return 0.0
    if s <= slr:
        p = -pmax
    else:
        p = max(-((((s - slr) / (sls - slr)) ** (-1 / m) - 1) ** (1 - m)) / abs(alpha), -pmax)
    return p * ramp(s)


def p_linear(rng):
    while True:
        p = [rng.choice([0.0, 10.0 ** rng.uniform(2, 8)]), rng.choice([0.0, rng.random()]), rng.choice([1.0, rng.random()])]
        if p[1] < p[2] - 0.01:
            return p


def p_pickens(rng):
    return [10.0 ** rng.uniform(2, 7), rng.uniform(0.01, 0.9), rng.choice([1.0, rng.uniform(1, 2)]), rng.choice([-1, 1]) * rng.uniform(0.5, 4)]


def p_trust(rng):
    return [10.0 ** rng.uniform(2, 6), rng.choice([0.0, rng.uniform(0, 0.8)]), rng.uniform(0.4, 4), rng.choice([0.0, 10.0 ** rng.uniform(0, 5)]),
            rng.choice([1, 1, 1, -1]) * 10.0 ** rng.uniform(4, 9)]


def p_vg(rng):
    slr = rng.choice([0.0, rng.uniform(0, 0.6)])
    return [rng.uniform(0.15, 0.9), slr, 10.0 ** rng.uniform(-6, -2), rng.choice([0.0, 10.0 ** rng.uniform(3, 9)]), rng.choice([1.0, rng.uniform(slr + 0.1, 1.0)])]


MODELS = {
    "Linear": (CP.Linear, 1, linear, p_linear, lambda p: p[1:]),
    "Pickens": (CP.Pickens, 2, pickens, p_pickens, lambda p: [1.001 * p[1], 0.999 * p[2]]),
    "TRUST": (CP.TRUST, 3, trust, p_trust, lambda p: [p[1], 0.999]),
    "Milly": (CP.Milly, 4, milly, lambda rng: [rng.choice([0.0, rng.uniform(0.01, 0.7)])], lambda p: [1.001 * p[0]]),
    "vanGenuchten": (CP.vanGenuchten, 7, vg, p_vg, lambda p: [p[1], p[4], 0.999]),
}


def evaluate(case, model, name, formula, pars, special):
    rng = case.rng
    S = models.saturations(rng, special)
    if name in ("TRUST", "vanGenuchten"):
        S = [s for s in S if not 0 < s - pars[1] < 1e-12]
    jump = pars[0] + 0.371 if name == "Milly" else None
    S = [s for s in S if jump is None or abs(s - jump) > 1e-9 and max(s, pars[0]) > 1e-8]
    got = []
    pmax = {"Linear": 0, "TRUST": 4, "vanGenuchten": 3}.get(name)
    for s in S:
        x = rng.choice([s, np.float64(s)]) if s not in (0.0, 1.0) else rng.choice([s, int(s), np.float64(s)])
        r = case.call("scalar", model, x)
        case.check(models.real(r), "not-real", lambda: "%s%r at %r: %r" % (name, pars, s, r))
        w = formula(s, *pars)
        # near a threshold the slope of the equation is unbounded: allow the value of a neighbouring saturation
        near = [formula(min(max(s + e, 0.0), 1.0), *pars) for e in (-1e-13, 1e-13)] + [w]
        tol = 1e-9 * (abs(w) + 1) if name != "Pickens" else 1e-6 * (abs(w) + 1)
        case.check(min(near) - tol <= r <= max(near) + tol, "value", lambda: "%s%r at %r: %r, expected %r" % (name, pars, s, r, w))
        case.check(r <= 0, "sign", lambda: "%s%r at %r: %r" % (name, pars, s, r))
        if pmax is not None:
            case.check(r >= -abs(pars[pmax]) * (1 + 1e-12), "maximum", lambda: "%s%r at %r: %r" % (name, pars, s, r))
        if name == "vanGenuchten" and pars[4] < s < 1:
            case.count("above_sls")
        if name == "TRUST" and pars[4] < 0:
            case.count("signed_maximum")
        case.count("values")
        got.append(float(r))
    A = np.asarray(case.call("array", model, models.container(rng, S)))
    case.check(A.shape == (len(S),), "shape", lambda: "%r" % (A.shape,))
    case.check(A.dtype.kind == "f" and np.allclose(A, got, rtol=1e-12, atol=0), "array", lambda: "%s%r: arrays differ from scalars" % (name, pars))
    case.count("arrays")
    models.arrays(case, model, S, got, lambda a, b: np.allclose(a, b, rtol=1e-12, atol=0), "%s%r" % (name, pars))
    if name in ("Linear", "TRUST", "vanGenuchten") or (name == "Pickens" and pars[3] < 0):
        d = np.diff(A)
        case.check((d >= -1e-9 * (np.abs(A[1:]) + 1)).all(), "monotonic", lambda: "%s%r" % (name, pars))
        case.count("monotonic")


def plain(text):
    return "".join(c for c in str(text).lower() if c.isalnum())


def one(case):
    rng = case.rng
    name = rng.choice(list(MODELS))
    cls, ident, formula, draw, special = MODELS[name]
    pars = draw(rng)
    model = case.call("model", cls, *pars)
    case.check(model.id == ident, "identifier", lambda: "%s: %r" % (name, model.id))
    case.check([float(x) for x in model.parameters] == [float(x) for x in pars], "parameters", lambda: "%r / %r" % (model.parameters, pars))
    text = case.call("repr", repr, model)
    case.check(all(str(x) in text for x in model.parameters) and str(ident) in text, "repr", text)
    # a model says which one it is; how its name is spelled is left open
    case.check(plain(name) in plain(text) and plain(name) in plain(model.name), "name", lambda: "%s: %r / %r" % (name, model.name, text))
    evaluate(case, model, name, formula, pars, special(pars))
    other = case.call("model", cls, *draw(rng))
    evaluate(case, model, name, formula, pars, special(pars))
    if rng.random() < 0.6:
        p2 = draw(rng)
        case.call("set", setattr, model, "parameters", models.container(rng, p2))
        evaluate(case, model, name, formula, p2, special(p2))
        case.count("changed")
    for x in (-1e-6, 1 + 1e-6, float("nan"), [0.5, 1.5], np.array([0.2, -0.1]), (0.3, float("nan"))):
        case.refused("saturation", ValueError, model, x)
    n = len(model.parameters)
    case.refused("parameters", ValueError, setattr, model, "parameters", [0.1] * (n + rng.choice([-1, 1])))
    del other
    case.shape(name, tuple(round(float(x), 2) for x in pars))
    case.note = {"model": name, "parameters": pars}


def inadmissible(case):
    rng = case.rng
    name = rng.choice(list(MODELS))
    cls, _, _, draw, _ = MODELS[name]
    p = draw(rng)
    if name == "Linear":
        p[1] = p[2] + rng.choice([0.0, 0.1])
    elif name == "Pickens":
        k, v = rng.choice([(1, 0.0), (1, 1.0), (1, -0.2), (2, 0.99), (3, 0.0)])
        p[k] = v
    elif name == "TRUST":
        k, v = rng.choice([(1, -0.1), (2, 0.0)])
        p[k] = v
    elif name == "Milly":
        p = [-0.1]
    else:
        p[3] = -1.0
    case.refused("model", ValueError, cls, *p)
    case.shape("inadmissible", name)


def plot(case):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    rng = case.rng
    name = list(MODELS)[case.index % len(MODELS)]
    cls, _, formula, draw, _ = MODELS[name]
    pars = draw(rng)
    m = cls(*pars)
    n = rng.randint(2, 60)
    ax0 = plt.figure().add_subplot(1, 1, 1)
    ax = case.call("plot", m.plot, n=n, **({"ax": ax0} if rng.random() < 0.5 else {}))
    lines = ax.get_lines()
    case.check(len(lines) == 1, "plot", "")
    s = np.linspace(0, 1, n)
    w = np.abs([formula(x, *pars) for x in s])
    case.check(np.allclose(lines[0].get_xdata(), s) and np.allclose(lines[0].get_ydata(), w, rtol=1e-5), "plot", lambda: "%s%r" % (name, pars))
    plt.close("all")
    case.count("plots")
    case.shape("plot", name)


SCALE = 32  # cases of the quick tier are this many times those listed
FAMILIES = {"models": (one, 600, 12000), "inadmissible": (inadmissible, 60, 300), "plot": (plot, 15, 60)}
