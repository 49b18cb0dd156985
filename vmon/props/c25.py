"""C25 - relative permeability models follow their published equations."""
import numpy as np
import toughio

from vmon.lib import models, tio

RULE = ("Case = model with seeded admissible parameters (at and around their limits) evaluated at seeded saturations and at every threshold "
        "+/- a few ulps, one by one and as arrays, before and after its parameters are changed; compared with formulas transcribed from the "
        "TOUGH2 manual; bounds and monotonicity monitored. Distinct = model x rounded parameters.")
ASSUMPTIONS = ["arrays of saturations have one dimension", "residual saturations are not negative",
               "above the maximum liquid saturation, gas is immobile in the model of van Genuchten-Mualem"]
REACH = {"values": 20000, "monotonic": 500, "arrays": 400, "unsorted": 400, "refused": 200, "changed": 100, "plots": 5, "integers": 300}
RP = toughio.relative_permeability


def clip(x):
    return min(max(x, 0.0), 1.0)


def linear(s, slmin, sgmin, slmax, sgmax):
    g = 1.0 - s
    return clip((s - slmin) / (slmax - slmin)), clip((g - sgmin) / (sgmax - sgmin))


def pickens(s, x):
    return s ** x, 1.0


def hat(s, slr, sgr):
    return clip((s - slr) / (1.0 - slr - sgr))


def corey(s, slr, sgr):
    h = hat(s, slr, sgr)
    return h ** 4, (1 - h) ** 2 * (1 - h * h)


def grant(s, slr, sgr):
    h = hat(s, slr, sgr)
    return h ** 4, 1 - h ** 4


def fatt(s, slr):
    h = clip((s - slr) / (1 - slr))
    return h ** 3, (1 - h) ** 3


def vgm(s, m, slr, sls, sgr):
    if s >= sls:
        return 1.0, 0.0
    e = clip((s - slr) / (sls - slr))
    kl = np.sqrt(e) * (1.0 - (1.0 - e ** (1.0 / m)) ** m) ** 2
    h = hat(s, slr, sgr)
    return kl, (1.0 - kl if sgr <= 0 else (1 - h) ** 2 * (1 - h * h))


def verma(s, slr=0.2, sls=0.895, a=1.259, b=-1.7615, c=0.5089):
    h = clip((s - slr) / (sls - slr))
    return h ** 3, clip(a + b * h + c * h * h)


def p_residual(rng):
    while True:
        a, b = [rng.choice([0.0, rng.random(), rng.random() * 0.3]) for _ in range(2)]
        if a + b < 0.98:
            return [a, b]


def p_linear(rng):
    while True:
        p = [rng.choice([0.0, 1.0, rng.random()]) for _ in range(4)]
        if p[0] < p[2] - 0.01 and p[1] < p[3] - 0.01:
            return p


def p_vgm(rng):
    slr = rng.choice([0.0, rng.random() * 0.5])
    sls = rng.choice([1.0, rng.uniform(slr + 0.1, 1.0)])
    sgr = rng.choice([0.0, rng.uniform(0, 0.98 - slr)])
    return [rng.uniform(0.1, 0.95), slr, sls, sgr]


def p_verma(rng):
    if rng.random() < 0.3:
        return []
    slr = rng.uniform(0, 0.5)
    return [slr, rng.uniform(slr + 0.1, 1.0), rng.uniform(0.5, 2.0), -rng.uniform(0.0, 3.0), rng.uniform(-1.0, 1.0)]


MODELS = {
    "Linear": (RP.Linear, 1, linear, p_linear, lambda p: [p[0], p[2], 1 - p[1], 1 - p[3]]),
    "Pickens": (RP.Pickens, 2, pickens, lambda rng: [rng.choice([1.0, 2.0, rng.uniform(0.1, 6)])], lambda p: []),
    "Corey": (RP.Corey, 3, corey, p_residual, lambda p: [p[0], 1 - p[1]]),
    "Grant": (RP.Grant, 4, grant, p_residual, lambda p: [p[0], 1 - p[1]]),
    "FattKlikoff": (RP.FattKlikoff, 6, fatt, lambda rng: [rng.choice([0.0, rng.uniform(0, 0.95)])], lambda p: [p[0]]),
    "vanGenuchtenMualem": (RP.vanGenuchtenMualem, 7, vgm, p_vgm, lambda p: [p[1], p[2], 1 - p[3]]),
    "Verma": (RP.Verma, 8, verma, p_verma, lambda p: p[:2]),
}


def evaluate(case, model, name, formula, pars, special):
    rng = case.rng
    S = models.saturations(rng, special)
    got = []
    for s in S:
        x = rng.choice([s, np.float64(s)]) if s not in (0.0, 1.0) else rng.choice([s, int(s), np.float64(s)])
        r = case.call("scalar", model, x)
        case.check(len(r) == 2 and all(models.real(v) for v in r), "not-real", lambda: "%s%r at %r: %r" % (name, pars, s, r))
        w = formula(s, *pars)
        # a threshold itself may fall on either side of the rounding of 1 - sl
        ok = all(abs(a - b) <= 1e-9 + 1e-7 * abs(b) for a, b in zip(r, w))
        case.check(ok, "value", lambda: "%s%r at %r: %r, expected %r" % (name, pars, s, r, w))
        case.check(all(-1e-12 <= v <= 1 + 1e-12 for v in r), "bounds", lambda: "%s%r at %r: %r" % (name, pars, s, r))
        case.count("values")
        got.append(r)
    A = case.call("array", model, models.container(rng, S))
    A = np.asarray(A)
    case.check(A.shape == (2, len(S)), "shape", lambda: "%r" % (A.shape,))
    case.check(np.array_equal(A.T.astype(float), np.array(got, dtype=float)), "array", lambda: "%s%r: arrays differ from scalars" % (name, pars))
    case.count("arrays")
    models.arrays(case, model, S, got, np.array_equal, "%s%r" % (name, pars))
    mono = name != "Verma" or not pars or all(pars[3] + 2 * pars[4] * h <= 0 for h in (0.0, 1.0))
    if mono:
        d = np.diff(A, axis=1)
        case.check((d[0] >= -1e-9).all() and (d[1] <= 1e-9).all(), "monotonic", lambda: "%s%r" % (name, pars))
        case.count("monotonic")


def plain(text):
    return "".join(c for c in str(text).lower() if c.isalnum())


def one(case):
    rng = case.rng
    name = rng.choice(list(MODELS))
    cls, ident, formula, draw, special = MODELS[name]
    pars = draw(rng)
    model = case.call("model", cls, *pars)
    case.check(model.id == ident, "identifier", lambda: "%s: %r" % (name, model.id))
    if pars:
        case.check([float(x) for x in model.parameters] == [float(x) for x in pars], "parameters", lambda: "%r / %r" % (model.parameters, pars))
    text = case.call("repr", repr, model)
    case.check(all(str(x) in text for x in model.parameters) and str(ident) in text, "repr", text)
    # a model says which one it is; how its name is spelled is left open
    case.check(plain(name) in plain(text) and plain(name) in plain(model.name), "name", lambda: "%s: %r / %r" % (name, model.name, text))
    evaluate(case, model, name, formula, pars, special(pars))
    other = case.call("model", cls, *draw(rng))
    evaluate(case, model, name, formula, pars, special(pars))
    p2 = draw(rng)
    if p2 and rng.random() < 0.6:
        case.call("set", setattr, model, "parameters", models.container(rng, p2))
        evaluate(case, model, name, formula, p2, special(p2))
        case.count("changed")
    for x in (-1e-6, 1 + 1e-6, float("nan"), [0.5, 1.5], np.array([0.2, -0.1]), (0.3, float("nan"))):
        case.refused("saturation", ValueError, model, x)
    n = len(model.parameters)
    case.refused("parameters", ValueError, setattr, model, "parameters", [0.1] * (n + rng.choice([-1, 1])))
    del other
    case.shape(name, tuple(round(float(x), 2) for x in pars))
    case.note = {"model": name, "parameters": pars}


def inadmissible(case):
    rng = case.rng
    name = rng.choice(["Linear", "Corey", "Grant", "FattKlikoff"])
    cls = MODELS[name][0]
    if name == "Linear":
        p = p_linear(rng)
        k = rng.choice([0, 1])
        p[k] = p[k + 2] + rng.choice([0.0, 0.1])
    elif name == "FattKlikoff":
        p = [rng.choice([1.0, 1.2])]
    else:
        a = rng.random()
        p = [a, 1.0 - a + rng.choice([0.0, 0.2]) + 1e-12]
    case.refused("model", ValueError, cls, *p)
    case.shape("inadmissible", name)


def plot(case):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    rng = case.rng
    name = list(MODELS)[case.index % len(MODELS)]
    cls, _, formula, draw, _ = MODELS[name]
    pars = draw(rng)
    m = cls(*pars)
    n = rng.randint(2, 60)
    fig = plt.figure()
    ax0 = fig.add_subplot(1, 1, 1)
    ax = case.call("plot", m.plot, n=n, **({"ax": ax0} if rng.random() < 0.5 else {}))
    lines = ax.get_lines()
    case.check(len(lines) == 2, "plot", "")
    s = np.linspace(0, 1, n)
    w = np.array([formula(x, *pars) for x in s]).T
    for l, y in zip(lines, w):
        case.check(np.allclose(l.get_xdata(), s) and np.allclose(l.get_ydata(), y, atol=1e-9), "plot", lambda: "%s%r" % (name, pars))
    plt.close("all")
    case.count("plots")
    case.shape("plot", name)


SCALE = 32  # cases of the quick tier are this many times those listed
FAMILIES = {"models": (one, 600, 12000), "inadmissible": (inadmissible, 60, 300), "plot": (plot, 14, 70)}
