from pwcommon import *

F = ['piecewise_poly.PiecewisePoly.poly', 'polynomial.PolynomialBasis.compose', 'polynomial.PolynomialBasis.__init__']


def body(S, M, N, rows, nodes, symnodes=0):
    t = S.reals('t', N + 1)
    S.ascending(t)
    if symnodes:
        nodes = S.reals('n', symnodes)
        S.distinct(nodes)
        bn = arr(S, nodes)
    else:
        nodes = S.choice('nodes', nodes)
        bn = fl(S, nodes)
        nodes = num(S, nodes)
    n = len(nodes)
    c = coefs(S, N, rows, n)
    f = M.PiecewisePoly(S.choice('container', [arr(S, t), list(t)]), cmats(S, c), M.PolynomialBasis(bn))
    i = S.choice('interval', range(N))
    p = f.poly(i)
    S.true(len(p) == rows, 'number of polynomials')
    s = S.real('s')
    want = value(t, nodes, c, t[i] + s, i)
    for r in range(rows):
        S.eq(p[r](s), want[r], 'polynomial of row %d' % r)
        S.eq(p[r](0), value(t, nodes, c, t[i], i)[r], 'value at the left bound')
    # asking twice gives the same, the object is unchanged
    p2 = f.poly(i)
    y = f(t[i])
    left = value(t, nodes, c, t[i], i)
    for r in range(rows):
        S.eq(p2[r](s), want[r], 'polynomial of row %d, second call' % r)
        S.eq(at(y, r, 0), left[r], 'object after poly')


def degenerate_body(S, M, n, deg):
    """node values of a polynomial of degree <= deg < n-1 (exactly vanishing leading coefficients)"""
    nodes = [Fraction(k, 4) for k in (0, 4, 2, 1)][:n]
    t = S.reals('t', 2)
    S.ascending(t)
    a = S.reals('a', deg + 1)
    x = num(S, nodes)
    c = [[[dsum(a[k] * power(v, k) for k in range(deg + 1)) for v in x], [a[0]] * n]]
    f = M.PiecewisePoly(arr(S, t), cmats(S, c), M.PolynomialBasis(fl(S, nodes)))
    p = f.poly(0)
    s = S.real('s')
    sn = s / (t[1] - t[0])
    S.eq(p[0](s), dsum(a[k] * power(sn, k) for k in range(deg + 1)), 'degree %d in a basis of %d nodes' % (deg, n))
    S.eq(p[1](s), a[0], 'constant row')


def grid_body(S, M):
    """unpatched code: fixed bounds and bases, rows picked so that degrees differ; data enters linearly"""
    bname, t = S.choice('bounds', BOUNDS)
    nname, nodes = S.choice('basis', FNODES)
    n, N = len(nodes), len(t) - 1
    i = S.choice('interval', sorted({0, N // 2, N - 1}))
    row = S.choice('row', ['unit', 'const', 'linear', 'zero', 'neg'])
    x = np.asarray(nodes, dtype=float)
    U = {'unit': np.eye(n), 'const': np.ones((1, n)), 'linear': np.vstack([x, 1 - x]), 'zero': np.zeros((2, n)), 'neg': -2 * np.eye(n)}[row]
    if row in ('unit', 'const', 'zero', 'neg'):
        U = U.astype(S.choice('dtype', [float, int]))
    f = M.PiecewisePoly(t, [U * (k + 1) for k in range(N)], M.PolynomialBasis(nodes))
    p = f.poly(i)
    S.true(len(p) == len(U), 'number of polynomials')
    h = float(t[i + 1]) - float(t[i])
    c = S.reals('c', len(U))
    fr = (lambda v: Fraction(float(v))) if S.symbolic else float
    for s in (0.0, .3 * h, h, -.5 * h):
        L = lagrange([fr(v) for v in x], fr(s) / fr(h))
        want = [dsum(fr(v) * (i + 1) * L[j] for j, v in enumerate(u)) for u in U]
        S.eq(dsum(c[r] * float(p[r](s)) for r in range(len(U))), dsum(c[r] * want[r] for r in range(len(U))), '%s %s %s interval %d' % (bname, nname, row, i), 1e-5)


def obligations(tier):
    th = tier == 'thorough'
    o = [Ob('N=1', body, bounds='1 interval, 4 node sets, forks on vanishing leading coefficients', functions=F, params=dict(N=1, rows=1, nodes=NODES[:4])),
         Ob('N=2', body, bounds='2 intervals, 2 rows', functions=F, params=dict(N=2, rows=2, nodes=NODES[1:4])),
         Ob('N=3', body, bounds='3 intervals, 3 nodes', functions=F, params=dict(N=3, rows=1, nodes=NODES[:1])),
         Ob('symbolic nodes', body, bounds='2 intervals, 2 symbolic nodes', functions=F, params=dict(N=2, rows=1, nodes=None, symnodes=2)),
         Ob('unpatched', grid_body, 'real', bounds='interval vectors x 6 bases x 5 rows', functions=F, validate=20)]
    o += [Ob('degree %d of %d nodes' % (d, n), degenerate_body, bounds='polynomial of degree %d in a basis of %d nodes' % (d, n), functions=F, params=dict(n=n, deg=d)) for n, d in [(2, 0), (3, 0), (3, 1), (4, 1), (4, 2)]]
    if th:
        o += [Ob('symbolic nodes, N=4', body, bounds='4 intervals, 2 symbolic nodes, 3 rows', functions=F, params=dict(N=4, rows=3, nodes=None, symnodes=2), seconds=300), Ob('N=4', body, bounds='4 intervals, 4 node sets, 2 rows', functions=F, params=dict(N=4, rows=2, nodes=NODES[:4]), seconds=300)]
    return o
