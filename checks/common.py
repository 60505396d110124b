"""Helpers shared by the check bodies. Bodies run both symbolically and, for replay, with numbers."""
from fractions import Fraction

import numpy as np

from harness import Ob


def arr(S, xs):
    """1-d array of inputs"""
    return np.array(list(xs), dtype=object if S.symbolic else float)


def mat(S, rows):
    return np.array([list(r) for r in rows], dtype=object if S.symbolic else float)


def dsum(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def power(x, k):
    r = 1
    for _ in range(k):
        r = r * x
    return r


def at(m, i, j):
    """element of a 2-d array-like"""
    m = np.asarray(m) if not hasattr(m, 'elems_') else m.a
    return m[i, j]


def shape(m):
    return tuple(m.shape)


# concrete node sets for the linear encoding: dtype, order, scale and sign vary
def grids(tier):
    g = [
        ('one', [0.25]),
        ('unit2', [0.0, 1.0]),
        ('int3', np.array([0, 1, 2])),
        ('list4', [0, 1, 3, 7]),
        ('rev3', [1.0, 0.5, 0.0]),
        ('perm5', [0.3, -1.0, 2.0, 0.9, -0.4]),
        ('neg4', [-4.0, -3.0, -2.5, -1.0]),
        ('shift4', [100.0, 100.5, 101.25, 102.0]),
        ('tiny4', [0.0, 1e-3, 2e-3, 5e-3]),
        ('big4', [0.0, 1000.0, 1500.0, 4000.0]),
        ('cheb8', list((1 - np.cos(np.pi * np.arange(9) / 8)) / 2)),
        ('cheb12', list((1 - np.cos(np.pi * np.arange(13) / 12)) / 2)),
        ('int6', [5, 3, 1, -1, -3, -5]),
        ('zero_in7', [-3.0, -2.0, -1.0, 0.0, 1.0, 2.0, 3.0]),
    ]
    if tier == 'thorough':
        g += [('cheb20', list((1 - np.cos(np.pi * np.arange(21) / 20)) / 2)),
              ('cheb16m', list(np.cos(np.pi * np.arange(17) / 16) * 3 + 1)),
              ('rand9', list(np.sort(np.random.RandomState(1).uniform(-1, 1, 9)) + np.arange(9) * .3))]
    return g


def scaled_basis(tau):
    """centre and scale of a node set (conditioning of the test polynomials)"""
    lo, hi = float(np.min(tau)), float(np.max(tau))
    return (lo + hi) / 2, (hi - lo) / 2 or 1.0


def lagrange_float(nodes, x):
    """weights of interpolation at x (exact rational arithmetic)"""
    nodes = [Fraction(float(v)) for v in nodes]
    x = Fraction(float(x))
    w = []
    for j in range(len(nodes)):
        r = Fraction(1)
        for k in range(len(nodes)):
            if k != j:
                r *= (x - nodes[k]) / (nodes[j] - nodes[k])
        w.append(r)
    return w
