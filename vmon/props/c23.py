"""C23 - labels of a mesh are unique, well-formed and stable."""
import logging

import numpy as np
import toughio

from vmon.lib import genmesh

RULE = ("Case = mesh of a seeded number of cells (small, around every rollover of a character, up to the capacity of 5 characters) and label "
        "length (none or 5-9): every label compared with the closed form of its position, uniqueness over the whole mesh, same labels "
        "whatever the cells are and after any other mesh. Distinct = number of cells x length.")
ASSUMPTIONS = ["order of characters: digits, then 1-9A-Z from right to left, then A-Z"]
REACH = {"labels": 500000, "meshes": 300, "rollover": 100, "capacity": 1, "lengths": 5, "changed": 100, "refused": 1}
A = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
B = "123456789" + A
CASE_CPU_LIMIT = 240


def expected(n, L):
    """Labels of positions 0..n-1 as an array of strings (vectorized closed form)."""
    k = L - 3
    i = np.arange(n, dtype=np.int64)
    q, r = np.divmod(i, 10 ** k)
    out = np.empty((n, L), dtype="U1")
    for c in range(k):
        out[:, L - 1 - c] = np.array(list("0123456789"))[(r // 10 ** c) % 10]
    b = np.array(list(B))
    out[:, 2] = b[q % 35]
    out[:, 1] = b[(q // 35) % 35]
    out[:, 0] = np.array(list(A))[q // 1225]
    return np.ascontiguousarray(out).view("U%d" % L).ravel()


def points_mesh(n):
    return toughio.Mesh(np.zeros((1, 3)), [("vertex", np.zeros((n, 1), dtype=int))])


def verify(case, m, n, L):
    got = np.asarray(case.call("labels", lambda: m.labels))
    case.check(got.shape == (n,) and got.dtype.kind == "U", "shape", lambda: "%r %r" % (got.shape, got.dtype))
    want = expected(n, L or 5)
    bad = np.nonzero(got != want)[0]
    case.check(not len(bad), "label", lambda: "cell %d of %d: %r, expected %r" % (bad[0], n, got[bad[0]], want[bad[0]]))
    case.check(len(np.unique(got)) == n, "duplicate", lambda: "%d labels for %d cells" % (len(np.unique(got)), n))
    case.count("labels", n)
    case.count("meshes")
    return got


def small(case):
    logging.disable(logging.CRITICAL)
    rng = case.rng
    if rng.random() < 0.5:
        m, ref = genmesh.mesh(rng)
        n = len(ref["cells"])
    else:
        n = rng.choice([1, 2, 9, 10, 11, 99, 100, 101, 350, 999, 1000, 1001, rng.randint(1, 12000)])
        m = points_mesh(n)
    L = rng.choice([None, None, 5, 6, 7, 8, 9])
    m.label_length = L
    if L:
        case.count("lengths")
    got = verify(case, m, n, L)
    # not influenced by another mesh or another length in between
    o = points_mesh(rng.randint(1, 300))
    o.label_length = rng.choice([None, 5, 6, 9])
    verify(case, o, o.n_cells, o.label_length)
    got2 = m.labels
    case.check(np.array_equal(got, got2), "unstable", "")
    if rng.random() < 0.5 and n > 1:
        got2[0] = "XXXXX"
        case.check(np.array_equal(got, m.labels), "unstable", "changing a returned array changes labels")
    # labels follow the length asked for, also when they were read before
    for _ in range(rng.choice([0, 1, 3])):
        L = rng.choice([None, 5, 6, 7, 8, 9])
        m.label_length = L
        verify(case, m, n, L)
        case.count("changed")
    case.shape(n, L)
    case.note = {"cells": n, "length": L, "last": str(got[-1])}


def rollover(case):
    logging.disable(logging.CRITICAL)
    rng = case.rng
    L = rng.choice([None, 5, 5, 6, 7])
    k = 10 ** ((L or 5) - 3)
    base = rng.choice([k, 9 * k, 35 * k, 34 * k, 35 * 9 * k, 35 * 35 * k, 35 * 34 * k, 35 * 35 * 2 * k, rng.randint(1, 35 * 35) * k])
    if base > 400000:
        base = base % 400000 + k
    n = base + rng.choice([-1, 0, 1, 2, 57])
    m = points_mesh(max(n, 1))
    m.label_length = L
    verify(case, m, max(n, 1), L)
    case.count("rollover")
    case.shape(n, L)


def capacity(case):
    """Around the number of cells that 5 characters can name."""
    logging.disable(logging.CRITICAL)
    n = 26 * 35 * 35 * 100
    k = case.index % 4
    m = points_mesh(n + (k >= 2))
    m.label_length = 5 if k in (0, 2) else None
    if k == 2:
        case.refused("labels", ValueError, lambda: m.labels)
    else:
        verify(case, m, m.n_cells, 6 if k == 3 else 5)
    case.count("capacity")
    case.shape(n, k)


FAMILIES = {"small": (small, 400, 4000), "rollover": (rollover, 150, 1500), "capacity": (capacity, 4, 4)}
