from common import *

F = ['polynomial.PolynomialBasis.__init__', 'polynomial.cheb', 'polynomial.collocationPoints']


def nodes_body(S, M, n):
    """D maps node values of every monomial of degree < n to its derivative, symbolic nodes."""
    tau = S.reals('t', n)
    S.distinct(tau)
    D = M.PolynomialBasis(arr(S, tau)).D
    S.true(shape(D) == (n, n), 'shape of D')
    for k in range(n):
        for i in range(n):
            got = dsum(at(D, i, j) * power(tau[j], k) for j in range(n))
            S.eq(got, k * power(tau[i], k - 1) if k else 0, 'D row %d, degree %d' % (i, k))


def cheb_body(S, M, N):
    t0, tf = S.reals('t', 2)
    S.distinct([t0, tf])
    D, t = M.cheb(N, t0, tf)
    S.true(shape(D) == (N + 1, N + 1), 'shape of D')
    S.true(len(t) == N + 1, 'number of points')
    h = tf - t0
    # polynomials in the normalized coordinate (t - t0)/h: exact derivative k s^(k-1)/h
    for k in range(N + 1):
        for i in range(N + 1):
            s = [(t[j] - t0) / h for j in range(N + 1)]
            got = dsum(at(D, i, j) * power(s[j], k) for j in range(N + 1)) * h
            S.eq(got, k * power(s[i], k - 1) if k else 0, 'cheb D row %d, degree %d' % (i, k), 1e-8)


def _linear(S, D, tau, label, tol):
    n = len(tau)
    m, sc = scaled_basis(tau)
    s = [Fraction(float(x)) - Fraction(m) for x in tau]
    s = [x / Fraction(sc) for x in s]
    if not S.symbolic:
        s = [float(x) for x in s]
        sc = float(sc)
    else:
        sc = Fraction(sc)
    c = S.reals('c', n)
    p = [dsum(c[k] * power(x, k) for k in range(n)) for x in s]
    for i in range(n):
        got = dsum(p[j] * float(at(D, i, j)) for j in range(n)) * sc
        want = dsum(c[k] * (k * power(s[i], k - 1)) for k in range(1, n))
        S.eq(got, want, '%s row %d' % (label, i), tol)


def grid_body(S, M, tier, part):
    g = [x for i, x in enumerate(grids(tier)) if i % 3 == part]
    name, tau = S.choice('grid', g)
    D = M.PolynomialBasis(tau).D
    S.true(shape(D) == (len(tau), len(tau)), 'shape of D')
    _linear(S, D, np.asarray(tau, dtype=float), name, 1e-5)


def chebgrid_body(S, M, orders):
    N = S.choice('N', orders)
    t0, tf = S.choice('interval', [(0.0, 1.0), (-1.0, 1.0), (2, 5), (3.0, -1.0), (-7.5, -7.25), (0, 1000)])
    D, t = M.cheb(N, t0, tf)
    _linear(S, np.asarray(D), np.asarray(t, dtype=float), 'cheb %d' % N, 1e-5)


def obligations(tier):
    o = [Ob('nodes n=%d' % n, nodes_body, bounds='n=%d symbolic distinct nodes, all polynomials of degree < n' % n, functions=F[:1], params=dict(n=n), seconds=90) for n in ([1, 2, 3, 4] if tier == 'quick' else [1, 2, 3, 4, 5])]
    o += [Ob('cheb N=%d' % n, cheb_body, bounds='order %d, t0 != tf symbolic' % n, functions=F, params=dict(N=n), seconds=60) for n in ([0, 1, 2, 3, 4, 5] if tier == 'quick' else range(9))]
    o += [Ob('grids %d' % k, grid_body, 'real', bounds='fixed grids of up to 13 nodes, all polynomials with coefficients in the box', functions=F[:1], params=dict(tier=tier, part=k)) for k in range(3)]
    o += [Ob('cheb grids', chebgrid_body, 'real', bounds='orders up to 15', functions=F, params=dict(orders=[0, 1, 2, 3, 4, 6, 8, 11, 15]))]
    return o
