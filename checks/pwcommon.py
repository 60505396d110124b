"""Reference semantics of piecewise polynomials (exact)."""
from common import *
from sym import SymReal


def lagrange(nodes, s):
    L = []
    for j in range(len(nodes)):
        l = 1
        for k in range(len(nodes)):
            if k != j:
                l = l * ((s - nodes[k]) / (nodes[j] - nodes[k]))
        L.append(l)
    return L


def interval(t, q, continuity):
    """index of the interval that determines the value at q"""
    N = len(t) - 1
    for i in range(N - 1):
        if bool(q < t[i + 1]) if continuity == 'right' else bool(q <= t[i + 1]):
            return i
    return N - 1


def value(t, nodes, coef, q, i):
    """rows of the polynomial of interval i at q"""
    s = (q - t[i]) / (t[i + 1] - t[i])
    L = lagrange(nodes, s)
    return [dsum(row[j] * L[j] for j in range(len(nodes))) for row in coef[i]]


def dlagrange(nodes, s):
    """derivatives of the basis polynomials"""
    n = len(nodes)
    out = []
    for j in range(n):
        tot = 0
        for m in range(n):
            if m == j:
                continue
            l = 1 / (nodes[j] - nodes[m])
            for k in range(n):
                if k != j and k != m:
                    l = l * ((s - nodes[k]) / (nodes[j] - nodes[k]))
            tot = tot + l
        out.append(tot)
    return out


NODES = [[Fraction(0), Fraction(1, 2), Fraction(1)], [Fraction(1, 4), Fraction(3, 4)], [Fraction(1, 2)], [Fraction(1), Fraction(0)], [Fraction(0), Fraction(1, 4), Fraction(1, 2), Fraction(1)]]


def fl(S, nodes):
    if S.symbolic:
        return np.array([SymReal.const(v) for v in nodes], dtype=object)
    return np.array([float(v) for v in nodes])


def num(S, nodes):
    return list(nodes) if S.symbolic else [float(v) for v in nodes]


def coefs(S, N, rows, n, name='c'):
    return [[S.reals('%s%d_%d_' % (name, i, r), n) for r in range(rows)] for i in range(N)]


def cmats(S, c, vector=False):
    # a vector of coefficients means one row
    return [arr(S, m[0]) if vector else mat(S, m) for m in c]


# fixed interval bounds for the unpatched runs: equal and unequal, integer, negative, many intervals
BOUNDS = [('unit', [0.0, 1.0]), ('two', [0, 1, 3]), ('int', np.array([0, 2, 3, 7])), ('neg', np.array([-4.0, -1.5, -1.0, 2.0, 2.25])), ('many', [0, .25, 1, 1.125, 2, 3, 3.5, 4.5, 4.75, 5, 6.5, 7, 9.25]), ('scale', np.array([0.0, 1e-3, 5e-3])), ('big', np.array([100.0, 300.0, 1300.0]))]
FNODES = [('mid', [0.5]), ('ends', [0.0, 1.0]), ('rev', [1.0, 0.25, 0.0]), ('inner', [.1, .6, .9]), ('cheb5', list((1 - np.cos(np.pi * np.arange(6) / 5)) / 2)), ('three', [0, 0.5, 1])]


def units(N, n, dtype):
    """coefficient matrices of all unit data: row i*n+j is 1 at node j of interval i"""
    c = [np.zeros((N * n, n), dtype=dtype) for i in range(N)]
    for i in range(N):
        for j in range(n):
            c[i][i * n + j, j] = 1
    return c


def typed_units(S, N, n):
    """unit data of integer type, for all or some of the intervals"""
    types = S.choice('types', [[int] * N, [float] + [int] * (N - 1), [int] + [float] * (N - 1)])
    return [u.astype(d) for u, d in zip(units(N, n, int), types)]
