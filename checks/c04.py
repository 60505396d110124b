import math
from common import *

F = ['polynomial.collocationPoints', 'polynomial.cheb']


def cheb_body(S, M, orders):
    N = S.choice('N', orders)
    t0, tf = S.reals('t', 2)
    S.distinct([t0, tf])
    D, t = M.cheb(N, t0, tf)
    h = tf - t0
    S.true(np.ndim(t) == 1 and len(t) == N + 1, 'number of points')
    S.eq(t[0], t0, 'first point')
    if N > 0:
        S.eq(t[N], tf, 'last point', 1e-12)
    for k in range(N):
        S.true(bool((t[k + 1] - t[k]) * h > 0), 'monotone in the direction of the interval')
    for k in range(N + 1):
        if N > 0:
            S.eq((t[k] - t0) / h, (1 - math.cos(k * math.pi / N)) / 2, 'affine image of the cosine grid', 1e-9)
            S.eq((t[k] - t0) / h, (tf - t[N - k]) / h, 'symmetry', 1e-9)


def unit_body(S, M, orders):
    N = S.choice('N', orders)
    M.collocationPoints(N + 1, 'chebyshev')
    M.collocationPoints(min(max(N, 1), 9), 'radau')
    x = [float(v) for v in M.collocationPoints(N, 'chebyshev')]
    S.true(len(x) == N + 1, 'number of points')
    S.true(x[0] == 0, 'first point')
    e = S.real('e', 0, 1)      # every point between two neighbours lies strictly between them in the grid order
    for k in range(N):
        S.true((x[k + 1] - x[k]) * (1 - e) + (x[k + 1] - x[k]) * e > 0, 'strictly ascending')
        S.eq(x[k], (1 - math.cos(k * math.pi / N)) / 2, 'cosine grid', 1e-12)
    if N:
        S.true(x[N] == 1, 'last point')


def scheme_body(S, M, orders):
    """casadi.collocation_points is the specification of the points of a scheme"""
    import casadi as cs
    N = S.choice('N', orders)
    scheme = S.choice('scheme', ['legendre', 'radau'])
    # independent of grids made before
    M.collocationPoints(N, {'legendre': 'radau', 'radau': 'chebyshev'}[scheme])
    M.collocationPoints(N % 9 + 1, scheme)
    x = [float(v) for v in M.collocationPoints(N, scheme)]
    ref = cs.collocation_points(N, scheme)
    S.true(len(x) == N + 1, 'number of points')
    S.true(x[0] == 0, 'first point')
    c = S.reals('c', N)        # for all linear functionals: the points are those of the scheme, in order
    S.eq(dsum(c[k] * x[k + 1] for k in range(N)), dsum(c[k] * ref[k] for k in range(N)), 'points of the scheme', 1e-12)
    for k in range(N):
        S.true(0 <= x[k] < x[k + 1] <= 1, 'ascending in the unit interval')


def obligations(tier):
    hi = 9 if tier == 'quick' else 20
    return [Ob('interval', cheb_body, bounds='orders 0..%d, t0 != tf symbolic' % hi, functions=F, params=dict(orders=list(range(hi + 1))), validate=60),
            Ob('interval large', cheb_body, bounds='orders 12, 17', functions=F, params=dict(orders=[12, 17])),
            Ob('interval unpatched', cheb_unpatched, 'real', bounds='fixed intervals, orders up to 24', functions=F, params=dict(orders=[0, 1, 2, 3, 5, 8, 13, 24])),
            Ob('unit', unit_body, 'real', bounds='orders 0..30', functions=F[:1], params=dict(orders=list(range(31)))),
            Ob('schemes', scheme_body, 'real', bounds='orders 1..9', functions=F[:1], params=dict(orders=list(range(1, 10))))]


def cheb_unpatched(S, M, orders):
    N = S.choice('N', orders)
    t0, tf = S.choice('interval', [(0, 1), (0.0, 1.0), (-1, 1), (5, 2), (-3.5, 10.25), (1e3, 1e3 + 1)])
    _, t = M.cheb(N, t0, tf)
    t = [float(v) for v in t]
    S.true(len(t) == N + 1, 'number of points')
    S.true(t[0] == t0, 'first point')
    c = S.reals('c', N + 1)
    ref = [t0 + (tf - t0) * (1 - math.cos(k * math.pi / N)) / 2 if N else t0 for k in range(N + 1)]
    S.eq(dsum(c[k] * t[k] for k in range(N + 1)), dsum(c[k] * ref[k] for k in range(N + 1)), 'affine image of the cosine grid', 1e-8)
    if N:
        S.true(t[N] == tf or abs(t[N] - tf) < 1e-9, 'last point')
    for k in range(N):
        S.true((t[k + 1] - t[k]) * (tf - t0) > 0, 'monotone')
