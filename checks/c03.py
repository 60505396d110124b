from common import *

F = ['polynomial.PolynomialBasis.__init__', 'polynomial.PolynomialBasis.compose', 'polynomial.PolynomialBasis.interpolationMatrix', 'polynomial.PolynomialBasis.numPoints', 'polynomial.PolynomialBasis.order']


def cardinal_body(S, M, n):
    tau = S.reals('t', n)
    S.distinct(tau)
    b = M.PolynomialBasis(arr(S, tau))
    S.true(len(b.poly) == n, 'number of basis polynomials')
    S.true(b.numPoints == n, 'numPoints')
    S.true(b.order == n - 1, 'order')
    for j in range(n):
        S.eq(b.tau[j], tau[j], 'node')
        for i in range(n):
            S.eq(b.poly[j](tau[i]), 1 if i == j else 0, 'basis polynomial %d at node %d' % (j, i))
        S.true(b.poly[j].order == n - 1, 'degree of basis polynomial')
    x = S.real('x')
    # partition of unity and agreement with interpolation at every point
    W = b.interpolationMatrix(x)
    for j in range(n):
        S.eq(b.poly[j](x), at(W, 0, j), 'basis polynomial %d and interpolation' % j)


def compose_body(S, M, n, rows):
    tau = S.reals('t', n)
    S.distinct(tau)
    b = M.PolynomialBasis(arr(S, tau))
    c = [S.reals('c%d_' % r, n) for r in range(rows)]
    q = b.compose(mat(S, c))
    S.true(len(q) == rows, 'number of polynomials')
    x = S.real('x')
    L = []
    for j in range(n):
        l = 1
        for k in range(n):
            if k != j:
                l = l * (x - tau[k]) / (tau[j] - tau[k])
        L.append(l)
    for r in range(rows):
        for i in range(n):
            S.eq(q[r](tau[i]), c[r][i], 'composed polynomial %d at node %d' % (r, i))
        S.eq(q[r](x), dsum(c[r][j] * L[j] for j in range(n)), 'composed polynomial %d' % r)
    # the basis itself is not changed by composing
    for j in range(n):
        S.eq(b.poly[j](x), L[j], 'basis polynomial %d after compose' % j)


def grid_body(S, M, tier, part):
    name, tau = S.choice('grid', [x for i, x in enumerate(grids(tier)) if i % 3 == part and len(x[1]) <= 9 and x[0] not in ('shift4',)])
    b = M.PolynomialBasis(tau)
    n = len(tau)
    t = np.asarray(tau, dtype=float)
    m, sc = scaled_basis(t)
    c = S.reals('c', n)
    dt = S.choice('dtype', [float, int])
    xs = [float(v) for v in t] + [m + .3 * sc, m - .77 * sc]
    for x in xs:
        L = lagrange_float(t, x)
        if not S.symbolic:
            L = [float(v) for v in L]
        w = [float(p(x)) for p in b.compose(np.eye(n, dtype=dt))]
        S.true(len(w) == n, 'number of composed polynomials')
        S.eq(dsum(c[j] * w[j] for j in range(n)), dsum(c[j] * L[j] for j in range(n)), name + ' compose', 1e-5)
        w = [float(p(x)) for p in b.poly]
        S.eq(dsum(c[j] * w[j] for j in range(n)), dsum(c[j] * L[j] for j in range(n)), name + ' basis', 1e-5)


def obligations(tier):
    ns = [1, 2, 3, 4] if tier == 'quick' else [1, 2, 3, 4, 5]
    o = [Ob('cardinal n=%d' % n, cardinal_body, bounds='%d symbolic nodes, one symbolic point' % n, functions=F, params=dict(n=n)) for n in ns]
    o += [Ob('compose n=%d rows=%d' % (n, r), compose_body, bounds='%d symbolic nodes, %d rows of symbolic coefficients' % (n, r), functions=F, params=dict(n=n, rows=r)) for n, r in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (2, 3)] + ([(3, 2)] if tier == 'thorough' else [])]
    o += [Ob('grids %d' % k, grid_body, 'real', bounds='fixed grids of up to 9 nodes', functions=F, params=dict(tier=tier, part=k)) for k in range(3)]
    return o
