from pwcommon import *

F = ['piecewise_poly.PiecewisePoly.derivative', 'piecewise_poly.PiecewisePoly.__call__', 'polynomial.PolynomialBasis.__init__']


def dvalue(t, nodes, coef, q, i, order):
    """rows of the derivative of the given order of the polynomial of interval i"""
    h = t[i + 1] - t[i]
    s = (q - t[i]) / h
    n = len(nodes)
    c = coef[i]
    # derivative of the interpolating polynomial, represented again by its node values
    for _ in range(order):
        Dm = [dlagrange(nodes, x) for x in nodes]
        c = [[dsum(row[j] * Dm[k][j] for j in range(n)) / h for k in range(n)] for row in c]
    L = lagrange(nodes, s)
    return [dsum(row[j] * L[j] for j in range(n)) for row in c]


def body(S, M, N, rows, nodes, orders, symnodes=0, vector=False):
    t = S.reals('t', N + 1)
    S.ascending(t)
    if symnodes:
        nodes = S.reals('n', symnodes)
        S.distinct(nodes)
        bn = arr(S, nodes)
    else:
        nodes = S.choice('nodes', nodes)
        bn = fl(S, nodes)
        nodes = num(S, nodes)
    c = coefs(S, N, rows, len(nodes))
    order = S.choice('order', orders)
    f = M.PiecewisePoly(S.choice('container', [arr(S, t), list(t)]), cmats(S, c, vector), M.PolynomialBasis(bn))
    g = f
    for _ in range(order):
        g = g.derivative()
    S.true(g.numIntervals == N and len(g.intervals) == N + 1, 'number of intervals')
    for k in range(N + 1):
        S.eq(g.intervals[k], t[k], 'intervals')
    s = S.real('s', 0, 1)
    for i in range(N):
        # a point of interval i
        q = t[i] + s * (t[i + 1] - t[i])
        j = interval(t, q, 'right')
        want = dvalue(t, nodes, c, q, j, order)
        y = g(q)
        for r in range(rows):
            S.eq(at(y, r, 0), want[r], 'derivative %d, row %d, interval %d' % (order, r, i))
        # the original is unchanged
        y = f(q)
        want = value(t, nodes, c, q, j)
        for r in range(rows):
            S.eq(at(y, r, 0), want[r], 'original after derivative, interval %d' % i)


def grid_body(S, M, part):
    bname, t = S.choice('bounds', [b for k, b in enumerate(BOUNDS) if k % 2 == part])
    nname, nodes = S.choice('basis', FNODES)
    order = S.choice('order', [1, 2, 3])
    N = len(t) - 1
    c = coefs(S, N, 2, len(nodes))
    f = M.PiecewisePoly(t, cmats(S, c), M.PolynomialBasis(nodes))
    g = f
    for _ in range(order):
        g = g.derivative()
    T = [float(v) for v in t]
    fr = (lambda v: Fraction(float(v))) if S.symbolic else float
    for i in range(N):
        h = T[i + 1] - T[i]
        for x in (0, .35, .8):
            q = T[i] + x * h
            y = g(q)
            want = dvalue([fr(v) for v in T], [fr(v) for v in nodes], c, fr(q), i, order)
            S.true(shape(y) == (2, 1), 'shape')
            for r in range(2):
                # relative to the size of the derivative on this interval
                k = fr(h) ** order
                S.eq(at(y, r, 0) * k, want[r] * k, '%s %s derivative %d interval %d' % (bname, nname, order, i), 1e-4)


def typed_body(S, M):
    """unpatched code: coefficients of integer type; data enters linearly"""
    bname, t = S.choice('bounds', BOUNDS[1:4])
    nname, nodes = S.choice('basis', FNODES[:4] + [('int', np.array([0, 1]))])
    order = S.choice('order', [1, 2])
    N, n = len(t) - 1, len(nodes)
    g = M.PiecewisePoly(t, typed_units(S, N, n), M.PolynomialBasis(nodes))
    for _ in range(order):
        g = g.derivative()
    T = [float(v) for v in t]
    fr = (lambda v: Fraction(float(v))) if S.symbolic else float
    c = coefs(S, N, 1, n)
    e = [v for m in c for v in m[0]]
    for i in range(N):
        q = T[i] + .35 * (T[i + 1] - T[i])
        want = dvalue([fr(v) for v in T], [fr(v) for v in nodes], c, fr(q), i, order)[0]
        y = g(q)
        S.true(shape(y) == (N * n, 1), 'shape')
        S.eq(dsum(v * float(at(y, r, 0)) for r, v in enumerate(e)), want, '%s %s derivative %d interval %d' % (bname, nname, order, i), 1e-5)


def obligations(tier):
    th = tier == 'thorough'
    o = [Ob('N=1', body, bounds='1 interval, 4 node sets, order up to 2', functions=F, params=dict(N=1, rows=2, nodes=NODES[:4], orders=[1, 2])),
         Ob('N=2', body, bounds='2 unequal intervals, 4 node sets, order up to 3', functions=F, params=dict(N=2, rows=1, nodes=NODES[:4], orders=[1, 2, 3])),
         Ob('N=3', body, bounds='3 intervals, 2 nodes', functions=F, params=dict(N=3, rows=2, nodes=NODES[1:2], orders=[1, 2])),
         Ob('coefficient vectors', body, bounds='2 intervals, coefficients as vectors', functions=F, params=dict(N=2, rows=1, nodes=NODES[:2], orders=[1, 2], vector=True)),
         Ob('symbolic nodes', body, bounds='2 intervals, 2 symbolic nodes', functions=F, params=dict(N=2, rows=1, nodes=None, orders=[1, 2], symnodes=2)),
         Ob('integer data', typed_body, 'real', bounds='3 interval vectors x 5 bases, integer coefficients, data in the box', functions=F, validate=10),
         Ob('unpatched 0', grid_body, 'real', bounds='interval vectors x 6 bases, order up to 3, coefficients in the box', functions=F, params=dict(part=0), validate=15),
         Ob('unpatched 1', grid_body, 'real', bounds='interval vectors x 6 bases, order up to 3, coefficients in the box', functions=F, params=dict(part=1), validate=15)]
    if th:
        o += [Ob('symbolic nodes 3', body, bounds='1 interval, 3 symbolic nodes', functions=F, params=dict(N=1, rows=1, nodes=None, orders=[1], symnodes=3), seconds=300),
              Ob('nodes 4', body, bounds='2 intervals, 4 nodes', functions=F, params=dict(N=2, rows=1, nodes=NODES[4:], orders=[1, 2]), seconds=300)]
    return o
