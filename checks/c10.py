from pdqcommon import *

F = ['collocation.Pdq.__init__', 'collocation.Pdq.derivative', 'polynomial.collocationPoints', 'polynomial.PolynomialBasis.__init__']


def body(S, M, N, order, rows, kinds=KINDS, again=False):
    t = S.reals('t', N + 1)
    S.ascending(t)
    kind = S.choice('kind', kinds)
    pdq = M.Pdq(bounds_in(S, t), order, kind)
    p = points(S, pdq, t, order, kind)
    if p is None:
        return
    y = rowmat(S, 'y', rows, len(p))
    d = pdq.derivative(mat(S, y))
    want = dderiv(p, y, order, N)
    S.true(shape(d) == (rows, N * order), 'shape of the derivative')
    for k in range(N * order):
        for r in range(rows):
            S.eq(at(d, r, k), want[k][r], 'derivative at point %d' % k, 1e-6 if kind != 'chebyshev' or order > 1 else 0)
    if again:
        w = rowmat(S, 'w', rows, len(p))
        for v in (w, y):
            d = pdq.derivative(mat(S, v))
            want = dderiv(p, v, order, N)
            for k in range(N * order):
                for r in range(rows):
                    S.eq(at(d, r, k), want[k][r], 'derivative of other data at point %d' % k, 1e-6)


def grid_body(S, M, orders):
    """unpatched code; values of the function are symbols of a casadi expression"""
    bname, t = S.choice('bounds', FB)
    order = S.choice('order', orders)
    kind = S.choice('kind', KINDS)
    typ = S.choice('type', [cs.MX, cs.SX])
    t_ = [float(v) for v in t]
    pdq = M.Pdq(t, order, kind) if (order, kind) != (5, 'chebyshev') else M.Pdq(t)
    label = '%s %s %d: ' % (bname, kind, order)
    p = points(S, pdq, exact(S, t_), order, kind, label)
    if p is None:
        return
    p = exact(S, p)
    N = len(t) - 1
    s = typ.sym('y', 2, len(p))
    f = cs.Function('f', [s], [pdq.derivative(s)])
    y = [S.reals('y%d_' % r, len(p)) for r in range(2)]
    [d] = S.call(f, [[y[r][k] for k in range(len(p)) for r in range(2)]])
    S.true(f.size_out(0) == (2, N * order), label + 'shape')
    # scaled by the interval length
    h = [p[(i + 1) * order] - p[i * order] for i in range(N)]
    want = dderiv(p, y, order, N)
    for k in range(N * order):
        for r in range(2):
            S.eq(d[2 * k + r] * h[k // order], want[k][r] * h[k // order], label + 'derivative at point %d' % k, 1e-6)


def refused(S, M, N):
    """bounds in another order"""
    t = S.reals('t', N + 1)
    k = S.choice('interval', list(range(N)))
    for i in range(N):
        S.assume(t[i + 1] < t[i] if i == k else t[i + 1] > t[i])
    kind = S.choice('kind', KINDS)
    order = S.choice('order', [1, 2])
    S.raises(lambda: M.Pdq(bounds_in(S, t), order, kind), 'descending bounds accepted')


def obligations(tier):
    o = [Ob('N=%d order %d' % (n, k), body, bounds='%d intervals with symbolic bounds, order %d, %d rows, chebyshev and radau' % (n, k, r), functions=F, params=dict(N=n, order=k, rows=r), seconds=60)
         for n, k, r in [(1, 1, 2), (2, 1, 2), (3, 1, 1), (1, 2, 1), (2, 2, 2)] + ([(3, 2, 1), (1, 3, 1), (4, 1, 1)] if tier == 'thorough' else [])]
    o += [Ob('unpatched order %d' % k, grid_body, 'real', bounds='6 bound vectors (1 to 7 intervals), order %d, values in the box' % k, functions=F, params=dict(orders=[k]), validate=6) for k in ([1, 2, 3, 5] if tier == 'quick' else [1, 2, 3, 4, 5, 6])]
    o += [Ob('again', body, bounds='2 intervals with symbolic bounds, order 1, two sets of data in turns', functions=F, params=dict(N=2, order=1, rows=2, again=True))]
    return o + [Ob('refused bounds, N=%d' % n, refused, bounds='all bounds of %d intervals one of which is reversed' % n, functions=F, params=dict(N=n), validate=8) for n in (1, 2, 3)]
