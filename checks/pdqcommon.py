"""Reference semantics of differential quadratures."""
import math

import casadi as cs
from pwcommon import *


def unit_grid(order, kind):
    if kind == 'chebyshev':
        return [(1 - math.cos(math.pi * k / order)) / 2 for k in range(order + 1)]
    return [0.0] + list(cs.collocation_points(order, kind))


def bounds_in(S, t):
    return S.choice('container', [arr(S, t), list(t)])


def ref_points(t, order, kind):
    g = unit_grid(order, kind)
    N = len(t) - 1
    p = [t[i] + (t[i + 1] - t[i]) * v for i in range(N) for v in g[:-1]]
    return p + [t[N - 1] + (t[N] - t[N - 1]) * g[-1]]


def points(S, pdq, t, order, kind, label=''):
    """collocation points of the object after checking them"""
    N = len(t) - 1
    p = list(np.asarray(pdq.collocationPoints).reshape(-1))
    S.true(len(p) == N * order + 1, label + 'number of collocation points')
    if len(p) != N * order + 1:
        return None
    for a, b in zip(p, p[1:]):
        S.true(b > a, label + 'ascending')
    for i in range(N + 1):
        S.eq(p[i * order], t[i], label + 'interval bound', 1e-9)
    for a, b in zip(p, ref_points(t, order, kind)):
        S.eq(a, b, label + 'position of the points', 1e-9)
    S.true(pdq.numIntervals == N and pdq.polyOrder == order, label + 'sizes')
    S.true(len(pdq.intervalBounds) == N + 1, label + 'bounds')
    for a, b in zip(pdq.intervalBounds, t):
        S.eq(a, b, label + 'bounds')
    S.eq(pdq.t0, p[0], label + 't0')
    S.eq(pdq.tf, p[-1], label + 'tf')
    S.eq(pdq.intervalLength(), p[-1] - p[0], label + 'length')
    return p


def dderiv(p, y, order, N):
    """derivative at all points but the last; right interval at bounds. y: rows"""
    out = []
    for i in range(N):
        nodes = p[i * order:(i + 1) * order + 1]
        for k in range(order):
            L = dlagrange(nodes, nodes[k])
            out.append([dsum(r[i * order + j] * L[j] for j in range(order + 1)) for r in y])
    return out      # columns


def interp(p, cols, first, q, i, order, option):
    """rows of the interpolant of interval i at q; column j of cols belongs to point first+j"""
    lo, hi = i * order, (i + 1) * order
    if option == 'right':
        hi -= 1
    if option == 'left':
        lo += 1
    L = lagrange(p[lo:hi + 1], q)
    return [dsum(r[lo + j - first] * L[j] for j in range(hi - lo + 1)) for r in cols]


def rowmat(S, name, rows, n):
    return [S.reals('%s%d_' % (name, r), n) for r in range(rows)]


KINDS = ['chebyshev', 'radau']
FB = [('unit', [0.0, 1.0]), ('two', [0, 1, 3]), ('int', np.array([0, 2, 3, 7])), ('neg', np.array([-4.0, -1.5, -1.0, 2.0, 2.25])), ('many', [0, .25, 1, 1.125, 2, 3, 3.5, 4.5, 4.75, 5, 6.5, 7, 9.25]), ('scale', np.array([0.0, .01, .05]))]


def exact(S, xs):
    return [Fraction(float(v)) for v in xs] if S.symbolic else [float(v) for v in xs]
