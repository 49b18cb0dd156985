"""Shared workload of the saturation models (relative permeability, capillarity)."""
import math

import numpy as np


def saturations(rng, special, n=30):
    s = [0.0, 1.0, 0.5, 0.999, 0.9995, 0.9985]
    for x in special:
        s += [x, x * (1 + 1e-9), x * (1 - 1e-9), x + 1e-6, x - 1e-6, x + 0.01, x - 0.01]
    s += [rng.random() for _ in range(n)]
    s = sorted({min(max(float(x), 0.0), 1.0) for x in s})
    return s


def container(rng, s):
    return rng.choice([list, tuple, np.array])(s)


def real(x):
    return isinstance(x, (int, float, np.floating, np.integer)) and math.isfinite(x)


def arrays(case, model, S, got, close, what):
    """Arrays in any order, with repetitions, of any length: entry by entry what the scalars give; the argument is left alone."""
    rng = case.rng
    at = list(range(len(S)))
    k = rng.random()
    if k < 0.4:
        rng.shuffle(at)
    elif k < 0.6:
        at.reverse()
    elif k < 0.7:
        at = [rng.randrange(len(S))] * rng.choice([1, 2, 5])
    elif k < 0.9:
        at = [rng.randrange(len(S)) for _ in range(rng.choice([1, 2, 3, 40, 300, 1500, 5000] if rng.random() < 0.2 else [1, 2, 3, 40]))]
    else:
        at = [rng.randrange(len(S)) for _ in range(rng.choice([1, 2]))] + at[::-1]
    x = container(rng, [S[i] for i in at])
    before = list(x)
    A = np.asarray(case.call("array", model, x))
    case.check(list(x) == before, "argument", lambda: "%s: evaluation changed its argument" % what)
    W = np.array([got[i] for i in at], dtype=float)
    case.check(A.shape == (W.T.shape), "shape", lambda: "%s: %r for %d saturations" % (what, A.shape, len(at)))
    case.check(close(A.T.astype(float), W), "array", lambda: "%s: arrays differ from scalars" % what)
    case.count("unsorted")
    if case.rng.random() < 0.3:  # saturations as integers
        n = rng.choice([1, 2, 3, 8])
        ends = [rng.choice([v for v in (0, 1) if float(v) in S]) for _ in range(n)]
        y = rng.choice([list, tuple, np.array, lambda v: np.array(v, dtype=np.int8), lambda v: np.array(v, dtype=bool)])(ends)
        W = np.array([model(float(v)) for v in ends], dtype=float)
        A = np.asarray(case.call("array", model, y)).astype(float)
        case.check(A.shape == W.T.shape and close(A.T, W), "integers", lambda: "%s: %r gives %r, expected %r" % (what, y, A.T.tolist(), W.tolist()))
        case.count("integers")
