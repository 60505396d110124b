from pdqcommon import *

F = ['collocation.Pdq.integral', 'collocation.Pdq.derivative', 'collocation.Pdq.__init__']


def _num(x):
    return x if hasattr(x, 'elems_') else np.asarray(cs.evalf(x).full()) if isinstance(x, (cs.MX, cs.DM)) else np.asarray(x)


def body(S, M, N, order, rows, kinds=KINDS):
    t = S.reals('t', N + 1)
    S.ascending(t)
    kind = S.choice('kind', kinds)
    pdq = M.Pdq(bounds_in(S, t), order, kind)
    p = list(np.asarray(pdq.collocationPoints).reshape(-1))
    n = N * order
    S.true(len(p) == n + 1, 'number of points')
    y = rowmat(S, 'y', rows, n + 1)
    tol = 0 if order == 1 else 1e-6
    dy = dderiv(p, y, order, N)
    Y = _num(pdq.integral(mat(S, [[dy[k][r] for k in range(n)] for r in range(rows)])))
    S.true(shape(Y) == (rows, n), 'shape of the integral')
    for k in range(n):
        for r in range(rows):
            S.eq(at(Y, r, k), y[r][k + 1] - y[r][0], 'integral of the derivative, point %d' % (k + 1), tol)
    g = rowmat(S, 'g', rows, n)
    I = _num(pdq.integral(mat(S, g)))
    full = [[0] + [at(I, r, k) for k in range(n)] for r in range(rows)]
    D = _num(pdq.derivative(mat(S, full)))
    for k in range(n):
        for r in range(rows):
            S.eq(at(D, r, k), g[r][k], 'derivative of the integral, point %d' % k, tol)


def grid_body(S, M, orders):
    """unpatched code: image of every unit vector, data enters linearly"""
    bname, t = S.choice('bounds', FB)
    order = S.choice('order', orders)
    kind = S.choice('kind', KINDS)
    pdq = M.Pdq(t, order, kind)
    p = exact(S, np.asarray(pdq.collocationPoints))
    N = len(t) - 1
    n = N * order
    label = '%s %s %d: ' % (bname, kind, order)
    c = S.reals('y', n + 1)
    dy = [col[0] for col in dderiv(p, [c], order, N)]
    R = _num(pdq.integral(cs.DM.eye(n)))       # row k: integral of the k-th unit vector
    S.true(shape(R) == (n, n), label + 'shape')
    for k in range(n):
        S.eq(dsum(dy[j] * float(R[j, k]) for j in range(n)), c[k + 1] - c[0], label + 'integral up to point %d' % (k + 1), 1e-6)
    g = S.reals('g', n)
    D = _num(pdq.derivative(cs.horzcat(cs.DM.zeros(n, 1), cs.DM(R))))
    for k in range(n):
        S.eq(dsum(g[j] * float(D[j, k]) for j in range(n)), g[k], label + 'derivative of the integral at point %d' % k, 1e-6)


def expr_body(S, M, orders):
    """expressions as argument: several rows, linear solves by casadi are evaluated for unit vectors"""
    bname, t = S.choice('bounds', FB[:4])
    order = S.choice('order', orders)
    rows = S.choice('rows', [1, 3])
    pdq = M.Pdq(t, order)
    p = exact(S, np.asarray(pdq.collocationPoints))
    N = len(t) - 1
    n = N * order
    s = cs.MX.sym('dy', rows, n)
    f = cs.Function('f', [s], [pdq.integral(s)])
    S.true(f.size_out(0) == (rows, n), 'shape')
    J = np.hstack([f(cs.DM([float(j == k) for k in range(rows * n)]).reshape((rows, n))).full().T.reshape(-1, 1) for j in range(rows * n)])
    S.true(not np.any(f(0).full()), 'integral of zero')
    y = [S.reals('y%d_' % r, n + 1) for r in range(rows)]
    dy = dderiv(p, y, order, N)
    v = [dy[k][r] for k in range(n) for r in range(rows)]
    for k in range(n):
        for r in range(rows):
            S.eq(dsum(v[j] * float(J[k * rows + r, j]) for j in range(rows * n)), y[r][k + 1] - y[r][0], 'row %d, point %d' % (r, k + 1), 1e-6)


def obligations(tier):
    o = [Ob('N=%d order %d%s' % (n, k, ', 3 rows' if r > 2 else ''), body, bounds='%d intervals with symbolic bounds, order %d, %d rows' % (n, k, r), functions=F, params=dict(N=n, order=k, rows=r), seconds=90)
         for n, k, r in [(1, 1, 2), (2, 1, 2), (3, 1, 1), (1, 2, 1), (2, 2, 1)] + ([(3, 2, 1), (2, 2, 3)] if tier == 'thorough' else [])]
    o += [Ob('unpatched order %d' % k, grid_body, 'real', bounds='6 bound vectors (1 to 7 intervals), order %d' % k, functions=F, params=dict(orders=[k]), validate=6) for k in ([1, 2, 3, 5] if tier == 'quick' else [1, 2, 3, 4, 5, 6])]
    o += [Ob('unpatched expressions', expr_body, 'real', bounds='4 bound vectors, 1 and 3 rows', functions=F, params=dict(orders=[1, 3]), validate=6)]
    return o
