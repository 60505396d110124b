from pdqcommon import *

F = ['collocation.Pdq.interpolator', 'collocation._PdqInterpolator.__init__', 'collocation._PdqInterpolator.__call__', 'polynomial.PolynomialBasis.interpolationMatrix']
OPT = ['both', 'right', 'left']


def _setup(S, M, N, order, kind, t):
    pdq = M.Pdq(bounds_in(S, t), order, kind)
    p = list(np.asarray(pdq.collocationPoints).reshape(-1))
    S.true(len(p) == N * order + 1, 'number of points')
    return pdq, p


def body(S, M, N, order, rows, kinds=KINDS, again=False):
    """query at a symbolic point"""
    t = S.reals('t', N + 1)
    S.ascending(t)
    kind = S.choice('kind', kinds)
    pdq, p = _setup(S, M, N, order, kind, t)
    opt = S.choice('option', OPT)
    first = 1 if opt == 'left' else 0
    cols = len(p) if opt == 'both' else len(p) - 1
    x = rowmat(S, 'x', rows, cols)
    f = pdq.interpolator(opt) if opt != 'both' else S.choice('default', [pdq.interpolator, pdq.interpolator])()
    q = S.real('q')
    i = interval(t, q, 'left' if opt == 'left' else 'right')
    S.cover('interval %d' % i)
    y = f(mat(S, x), q)
    S.true(shape(y) == (rows, 1), 'shape')
    want = interp(p, x, first, q, i, order, opt)
    for r in range(rows):
        S.eq(at(y, r, 0), want[r], 'option %s, row %d, interval %d' % (opt, r, i), 0 if order == 1 else 1e-6)
    if again:
        # several points as a list
        y = f(mat(S, x), [q, t[0]])
        S.true(shape(y) == (rows, 2), 'shape')
        for r in range(rows):
            S.eq(at(y, r, 0), want[r], 'first of two points')
        # other data, another point, then the first ones
        w, q2 = rowmat(S, 'w', rows, cols), S.real('p')
        for v, s in ((w, q2), (w, q), (x, q)):
            i = interval(t, s, 'left' if opt == 'left' else 'right')
            y = f(mat(S, v), s)
            want = interp(p, v, first, s, i, order, opt)
            for r in range(rows):
                S.eq(at(y, r, 0), want[r], 'later call, option %s' % opt)
        # another interpolator of the same object
        o2 = {'both': 'right', 'right': 'left', 'left': 'both'}[opt]
        first = 1 if o2 == 'left' else 0
        v = rowmat(S, 'v', rows, len(p) if o2 == 'both' else len(p) - 1)
        y = pdq.interpolator(o2)(mat(S, v), q)
        want = interp(p, v, first, q, interval(t, q, 'left' if o2 == 'left' else 'right'), order, o2)
        for r in range(rows):
            S.eq(at(y, r, 0), want[r], 'option %s after %s' % (o2, opt))


def points_body(S, M, N, order, rows, kinds=KINDS):
    """queries at the collocation points give the stored columns; several points give several columns"""
    t = S.reals('t', N + 1)
    S.ascending(t)
    kind = S.choice('kind', kinds)
    pdq, p = _setup(S, M, N, order, kind, t)
    opt = S.choice('option', OPT)
    first = 1 if opt == 'left' else 0
    last = len(p) - 2 if opt == 'right' else len(p) - 1
    x = rowmat(S, 'x', rows, last - first + 1)
    f = pdq.interpolator(continuity=opt)
    y = f(mat(S, x), arr(S, p[first:last + 1]))
    S.true(shape(y) == (rows, last - first + 1), 'shape')
    for k in range(last - first + 1):
        for r in range(rows):
            S.eq(at(y, r, k), x[r][k], 'value at a collocation point, option %s, column %d' % (opt, k), 0 if order == 1 else 1e-6)


def grid_body(S, M, orders):
    """unpatched code at fixed bounds and queries"""
    bname, t = S.choice('bounds', FB)
    order = S.choice('order', orders)
    kind = S.choice('kind', KINDS)
    opt = S.choice('option', OPT)
    pdq = M.Pdq(t, order, kind)
    p = exact(S, np.asarray(pdq.collocationPoints))
    T = exact(S, t)
    N = len(t) - 1
    first = 1 if opt == 'left' else 0
    x = [S.reals('x%d_' % r, len(p) if opt == 'both' else len(p) - 1) for r in range(2)]
    f = pdq.interpolator(opt)
    tf = [float(v) for v in t]
    q = [tf[0] - .05 * (tf[1] - tf[0])]
    for i in range(N):
        q += [tf[i], tf[i] + .3 * (tf[i + 1] - tf[i]), tf[i] + .95 * (tf[i + 1] - tf[i])]
    q += [tf[-1], tf[-1] + .05 * (tf[-1] - tf[-2])]
    q = S.choice('query', [q, tuple(q[::-1]), np.array(q[::2] + q[1::2][::-1])])
    y = f(mat(S, x), q)
    S.true(shape(y) == (2, len(q)), 'shape')
    for k, v in enumerate(q):
        i = interval(tf, float(v), 'left' if opt == 'left' else 'right')
        want = interp(p, x, first, exact(S, [v])[0], i, order, opt)
        for r in range(2):
            S.eq(at(y, r, k), want[r], '%s %s %d, option %s, query %g' % (bname, kind, order, opt, v), 1e-6)


def typed_body(S, M):
    """unpatched code: data, bounds and queries of integer type; data enters linearly"""
    bname, t = S.choice('bounds', FB[1:4])
    order = S.choice('order', [1, 2, 3])
    opt = S.choice('option', OPT)
    pdq = M.Pdq(t, order)
    p = exact(S, np.asarray(pdq.collocationPoints))
    n = len(p) if opt == 'both' else len(p) - 1
    q = S.choice('query', [[0, 1, 2], np.array([2, 1]), [.25, 1.75], 1])
    qs = [q] if np.ndim(q) == 0 else list(q)
    y = pdq.interpolator(opt)(np.eye(n, dtype=int), q)
    S.true(shape(y) == (n, len(qs)), 'shape')
    x = S.reals('x', n)
    for k, v in enumerate(qs):
        i = interval([float(b) for b in t], float(v), 'left' if opt == 'left' else 'right')
        want = interp(p, [x], 1 if opt == 'left' else 0, exact(S, [v])[0], i, order, opt)[0]
        S.eq(dsum(c * float(at(y, j, k)) for j, c in enumerate(x)), want, '%s %d, option %s, query %g' % (bname, order, opt, v), 1e-6)


def refuse_body(S, M):
    N, order = S.choice('size', [(1, 1), (2, 1), (1, 3), (2, 2), (3, 2)])
    t = S.reals('t', N + 1)
    S.ascending(t)
    pdq, p = _setup(S, M, N, order, 'chebyshev', t)
    opt = S.choice('option', OPT + ['none', '', 'Right', None, 'LEFT', 0])
    if opt not in OPT:
        S.raises(lambda: pdq.interpolator(opt), 'unknown option %r accepted' % (opt,))
        return
    good = len(p) if opt == 'both' else len(p) - 1
    n = S.choice('columns', range(0, len(p) + 4))
    v = S.real('v')
    x = np.full((2, n), v, dtype=object if S.symbolic else float)
    f = pdq.interpolator(opt)
    if n != good:
        S.raises(lambda: f(x, t[0]), '%d columns accepted instead of %d (%s)' % (n, good, opt))
    else:
        S.eq(at(f(x, t[0]), 0, 0), v, 'constant', 0 if order == 1 else 1e-6)


def obligations(tier):
    th = tier == 'thorough'
    o = [Ob('query N=%d order %d' % (n, k), body, bounds='%d intervals, order %d, query anywhere' % (n, k), functions=F, params=dict(N=n, order=k, rows=r), seconds=90)
         for n, k, r in [(1, 1, 2), (2, 1, 2), (3, 1, 1), (1, 2, 1), (2, 2, 1)] + ([(3, 2, 1), (1, 3, 1)] if th else [])]
    o += [Ob('again', body, bounds='2 intervals, order 1, two queries and data in turns, two options', functions=F, params=dict(N=2, order=1, rows=1, kinds=KINDS[:1], again=True), seconds=90),
          Ob('integer data', typed_body, 'real', bounds='3 bound vectors, orders 1 to 3, integer data and queries, data in the box', functions=F, validate=10)]
    o += [Ob('points N=%d order %d' % (n, k), points_body, bounds='%d intervals, order %d, queries at the points' % (n, k), functions=F, params=dict(N=n, order=k, rows=1), seconds=90)
          for n, k in [(2, 1), (3, 1), (2, 2)] + ([(3, 2)] if th else [])]
    o += [Ob('unpatched order %d' % k, grid_body, 'real', bounds='6 bound vectors, order %d, 3 query vectors' % k, functions=F, params=dict(orders=[k]), validate=6) for k in ([1, 2, 4] if not th else [1, 2, 3, 4, 5])]
    o += [Ob('refused', refuse_body, bounds='up to 3 intervals, all column counts up to the number of points + 3, 6 invalid options', functions=F, validate=20)]
    return o
