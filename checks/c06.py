from pwcommon import *

F = ['piecewise_poly.PiecewisePoly.__init__', 'piecewise_poly.PiecewisePoly.__call__', 'piecewise_poly.PiecewisePoly.intervals', 'piecewise_poly.PiecewisePoly.numIntervals', 'polynomial.PolynomialBasis.interpolationMatrix']


def _compare(S, y, t, nodes, c, qs, cont):
    rows = len(c[0])
    S.true(shape(y) == (rows, len(qs)), 'shape of the result')
    for k, q in enumerate(qs):
        i = interval(t, q, cont)
        if any(bool(q == b) for b in t[1:-1]):
            S.cover('query at an interior bound')
        want = value(t, nodes, c, q, i)
        for r in range(rows):
            S.eq(at(y, r, k), want[r], 'row %d at point %d' % (r, k))


def eval_body(S, M, N, m, rows, nodes=None, symnodes=0, vector=False):
    t = S.reals('t', N + 1)
    S.ascending(t)
    if symnodes:
        nodes = S.reals('n', symnodes)
        S.distinct(nodes)
        bn = arr(S, nodes)
    else:
        nodes = S.choice('nodes', nodes)
        bn = fl(S, nodes)
        nodes = num(S, nodes)
    c = coefs(S, N, rows, len(nodes))
    q = S.reals('q', m)
    cont = S.choice('continuity', ['right', 'left', None])
    f = M.PiecewisePoly(S.choice('container', [arr(S, t), list(t)]) if N < 3 else arr(S, t), cmats(S, c, vector), M.PolynomialBasis(bn))
    a = arr(S, q) if m > 1 else q[0]
    y = f(a) if cont is None else f(a, cont) if cont == 'left' else f(a, continuity=cont)
    S.true(f.numIntervals == N, 'numIntervals')
    for k in range(N + 1):
        S.eq(f.intervals[k], t[k], 'intervals')
    _compare(S, y, t, nodes, c, q, cont or 'right')


def bounds_body(S, M, N):
    """query vector consisting of all bounds and points next to them"""
    t = S.reals('t', N + 1)
    S.ascending(t)
    nodes = [Fraction(0), Fraction(1, 2)]
    c = coefs(S, N, 1, 2)
    cont = S.choice('continuity', ['right', 'left'])
    f = M.PiecewisePoly(arr(S, t), cmats(S, c), M.PolynomialBasis(fl(S, nodes)))
    d = S.real('d')
    S.assume(d > 0)
    for k in range(N):
        S.assume(d < t[k + 1] - t[k])
    qs = []
    for b in t:
        qs += [b - d, b, b + d]
    _compare(S, f(arr(S, qs), cont), t, num(S, nodes), c, qs, cont)


def invalid_body(S, M):
    t = S.reals('t', 3)
    S.ascending(t)
    c = coefs(S, 2, 1, 1)
    f = M.PiecewisePoly(arr(S, t), cmats(S, c), M.PolynomialBasis(np.array([.5])))
    q = S.real('q')
    bad = S.choice('option', ['both', 'center', '', 'Left', 'RIGHT', None, 'l', 0, True, 'leftright'])
    S.raises(lambda: f(q, bad), 'continuity option %r accepted' % (bad,))
    # numbers of coefficient matrices and bounds must match
    b = M.PolynomialBasis(np.array([.5]))
    k = S.choice('number', [0, 1, 3, 4])
    S.raises(lambda: M.PiecewisePoly(arr(S, t), (cmats(S, c) * 2)[:k], b), '%d coefficient matrices for 2 intervals accepted' % k)
    S.raises(lambda: M.PiecewisePoly(arr(S, t)[:1], [], b), 'a single bound accepted')


def grid_body(S, M):
    """unpatched code, fixed bounds, nodes and queries; all coefficients"""
    bname, t = S.choice('bounds', BOUNDS)
    nname, nodes = S.choice('basis', FNODES)
    cont = S.choice('continuity', ['right', 'left'])
    N = len(t) - 1
    c = coefs(S, N, 2, len(nodes))
    f = M.PiecewisePoly(t, cmats(S, c), M.PolynomialBasis(nodes))
    T = [float(v) for v in t]
    qs = []
    for i in range(N):
        h = T[i + 1] - T[i]
        qs += [T[i], T[i] + .3 * h, T[i] + .5 * h, T[i] + .9999 * h]
    qs += [T[-1], T[0] - .25 * (T[1] - T[0]), T[-1] + .25 * (T[-1] - T[-2])]
    y = f(np.array(qs), cont)
    S.true(shape(y) == (2, len(qs)), 'shape')
    fr = (lambda v: Fraction(float(v))) if S.symbolic else float
    for k, q in enumerate(qs):
        i = interval(T, q, cont)
        want = value([fr(v) for v in T], [fr(v) for v in nodes], c, fr(q), i)
        for r in range(2):
            S.eq(at(y, r, k), want[r], '%s %s row %d at %g' % (bname, nname, r, q), 1e-6)
    # scalar calls, Python and numpy scalars, integer type
    for q in (qs[1], np.float64(qs[-1]), int(T[-1])):
        y = f(q, cont)
        want = value([fr(v) for v in T], [fr(v) for v in nodes], c, fr(q), interval(T, q, cont))
        S.true(shape(y) == (2, 1), 'shape for scalar query')
        for r in range(2):
            S.eq(at(y, r, 0), want[r], '%s %s scalar %r' % (bname, nname, q), 1e-5)


def typed_body(S, M):
    """unpatched code: coefficients of integer type, bounds and nodes of integer or float type; data enters linearly"""
    bname, t = S.choice('bounds', BOUNDS[1:4])
    nname, nodes = S.choice('basis', FNODES[:4] + [('int', np.array([0, 1]))])
    N, n = len(t) - 1, len(nodes)
    f = M.PiecewisePoly(t, typed_units(S, N, n), M.PolynomialBasis(nodes))
    T = [float(v) for v in t]
    fr = (lambda v: Fraction(float(v))) if S.symbolic else float
    c = coefs(S, N, 1, n)
    e = [v for m in c for v in m[0]]
    q = [T[i] + s * (T[i + 1] - T[i]) for i in range(N) for s in (.25, .6)] + [T[-1]]
    # points in any order, as a list, tuple or array
    q = S.choice('points', [list, tuple, np.array])(q[::2] + q[1::2][::-1])
    y = f(q)
    S.true(shape(y) == (N * n, len(q)), 'shape')
    for k, x in enumerate(q):
        want = value([fr(v) for v in T], [fr(v) for v in nodes], c, fr(x), interval(T, x, 'right'))[0]
        S.eq(dsum(v * float(at(y, r, k)) for r, v in enumerate(e)), want, '%s %s at %g' % (bname, nname, x), 1e-6)


def after_body(S, M, N, nodes):
    """calls do not depend on what was called before"""
    t = S.reals('t', N + 1)
    S.ascending(t)
    c = coefs(S, N, 1, len(nodes))
    f = M.PiecewisePoly(arr(S, t), cmats(S, c), M.PolynomialBasis(fl(S, nodes)))
    nodes = num(S, nodes)
    q = S.reals('q', 2)
    cont = S.choice('continuity', ['right', 'left', 'both'])
    what = S.choice('before', ['call', 'derivative', 'poly', 'discretize', 'none'])
    if what == 'call':
        _compare(S, f(q[1], 'left' if cont == 'left' else 'right'), t, nodes, c, q[1:], 'left' if cont == 'left' else 'right')
    elif what == 'derivative':
        f.derivative()(q[1])
    elif what == 'poly':
        for k in range(N):
            f.poly(k)
    elif what == 'discretize':
        S.assume(t[N] - t[0] <= q[1])
        f.discretize(q[1])
    else:
        S.assume(q[1] == 0)
    cont = 'left' if cont in ('left', 'both') else 'right'      # both: changes from right to left
    _compare(S, f(q[0], cont), t, nodes, c, q[:1], cont)
    _compare(S, f(q[0], cont), t, nodes, c, q[:1], cont)


def obligations(tier):
    th = tier == 'thorough'
    o = [Ob('eval N=1', eval_body, bounds='1 interval, 4 node sets', functions=F, params=dict(N=1, m=1, rows=2, nodes=NODES[:4])),
         Ob('eval N=2', eval_body, bounds='2 intervals, 5 node sets', functions=F, params=dict(N=2, m=1, rows=1, nodes=NODES)),
         Ob('eval N=3', eval_body, bounds='3 intervals, 2 node sets', functions=F, params=dict(N=3, m=1, rows=1, nodes=NODES[:2])),
         Ob('eval N=4', eval_body, bounds='4 intervals, 1 node', functions=F, params=dict(N=4, m=1, rows=1, nodes=NODES[2:3])),
         Ob('vector N=2', eval_body, bounds='2 intervals, 2 query points, 2 nodes', functions=F, params=dict(N=2, m=2, rows=2, nodes=NODES[1:2]), validate=60),
         Ob('coefficient vectors', eval_body, bounds='1 interval, 2 query points, coefficients as vectors', functions=F, params=dict(N=1, m=2, rows=1, nodes=NODES[1:3], vector=True)),
         Ob('symbolic nodes', eval_body, bounds='2 intervals, 2 symbolic nodes', functions=F, params=dict(N=2, m=1, rows=1, symnodes=2)),
         Ob('bounds', bounds_body, bounds='%d intervals, query at and around every bound' % (3 if th else 2), functions=F, params=dict(N=3 if th else 2)),
         Ob('refusals', invalid_body, bounds='10 options, 4 numbers of matrices', functions=F),
         Ob('integer data', typed_body, 'real', bounds='3 interval vectors x 5 bases, integer coefficients, data in the box', functions=F, validate=10),
         Ob('after other calls', after_body, bounds='2 intervals, 2 nodes, two queries', functions=F, params=dict(N=2, nodes=NODES[1])),
         Ob('unpatched', grid_body, 'real', bounds='7 interval vectors x 6 bases, coefficients in the box', functions=F, validate=20)]
    if th:
        o += [Ob('symbolic nodes 3', eval_body, bounds='2 intervals, 3 symbolic nodes', functions=F, params=dict(N=2, m=1, rows=1, symnodes=3), seconds=300),
              Ob('vector N=3', eval_body, bounds='3 intervals, 2 query points, 2 nodes', functions=F, params=dict(N=3, m=2, rows=1, nodes=NODES[1:2]), seconds=300, validate=60)]
    return o
