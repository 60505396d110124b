from pdqcommon import *

F = ['system_trajectory.SystemTrajectory.__init__', 'system_trajectory.SystemTrajectory.state', 'system_trajectory.SystemTrajectory.algState', 'system_trajectory.SystemTrajectory.input',
     'collocation._PdqInterpolator.__call__']


def body(S, M, N, order, dims):
    nx, nz, nu = S.choice('dims', dims)
    t = S.reals('t', N + 1)
    S.ascending(t)
    kind = S.choice('kind', KINDS)
    pdq = M.Pdq(arr(S, t), order, kind)
    p = list(np.asarray(pdq.collocationPoints).reshape(-1))
    n = len(p)
    tol = 0 if order == 1 else 1e-6
    x, z, u = rowmat(S, 'x', nx, n), rowmat(S, 'z', nz, n - 1), rowmat(S, 'u', nu, n - 1)
    st = M.SystemTrajectory(mat(S, x), mat(S, z), mat(S, u), pdq)
    for a, b in zip(st.time, t):
        S.eq(a, b, 'time')
    k = S.choice('point', list(range(n)) + [None])
    if k is not None:
        y = st.state(p[k])
        S.true(shape(y) == (nx, 1), 'shape')
        for r in range(nx):
            S.eq(at(y, r, 0), x[r][k], 'state at point %d' % k, tol)
        if k < n - 1:
            for what, f, v in (('algebraic state', st.algState, z), ('input', st.input, u)):
                y = f(p[k])
                S.true(shape(y) == (len(v), 1), 'shape')
                for r in range(len(v)):
                    S.eq(at(y, r, 0), v[r][k], '%s at point %d' % (what, k), tol)
        return
    q = S.real('q')
    i = interval(t, q, 'right')
    for what, f, v, opt in (('state', st.state, x, 'both'), ('algebraic state', st.algState, z, 'right'), ('input', st.input, u, 'right')):
        y = f(q)
        want = interp(p, v, 0, q, i, order, opt)
        for r in range(len(v)):
            S.eq(at(y, r, 0), want[r], '%s between points, interval %d' % (what, i), tol)


def grid_body(S, M, orders):
    bname, t = S.choice('bounds', FB)
    order = S.choice('order', orders)
    kind = S.choice('kind', KINDS)
    pdq = M.Pdq(t, order, kind)
    pf = [float(v) for v in np.asarray(pdq.collocationPoints)]
    p = exact(S, pf)
    n = len(p)
    x, z, u = [[S.reals('%s%d_' % (a, r), m) for r in range(d)] for a, d, m in (('x', 2, n), ('z', 1, n - 1), ('u', 3, n - 1))]
    st = M.SystemTrajectory(mat(S, x), mat(S, z), mat(S, u), pdq)
    tf = [float(v) for v in t]
    S.true([float(v) for v in st.time] == tf, 'time')
    N = len(tf) - 1
    q = [tf[i] + s * (tf[i + 1] - tf[i]) for i in range(N) for s in (.25, .97)] + pf
    for what, f, v, opt in (('state', st.state, x, 'both'), ('algebraic state', st.algState, z, 'right'), ('input', st.input, u, 'right')):
        qq = q if opt == 'both' else q[:-1]
        y = f(qq)
        S.true(shape(y) == (len(v), len(qq)), 'shape')
        for k, s in enumerate(qq):
            j = k - 2 * N
            want = [row[j] for row in v] if j >= 0 else interp(p, v, 0, exact(S, [s])[0], interval(tf, s, 'right'), order, opt)
            for r in range(len(v)):
                S.eq(at(y, r, k), want[r], '%s %s %d: %s at %g' % (bname, kind, order, what, s), 1e-6)


def typed_body(S, M):
    """unpatched code: data of integer type; data enters linearly"""
    bname, t = S.choice('bounds', FB[1:4])
    order = S.choice('order', [1, 2, 3])
    pdq = M.Pdq(t, order)
    p = exact(S, np.asarray(pdq.collocationPoints))
    n = len(p)
    st = M.SystemTrajectory(np.eye(n, dtype=int), np.eye(n - 1, dtype=int), np.eye(n - 1, dtype=int), pdq)
    x = S.reals('x', n)
    tf = [float(v) for v in t]
    # in turns, also the same point again
    for q in (tf[0], .3 * tf[0] + .7 * tf[1], .5 * tf[-2] + .5 * tf[-1], tf[1], tf[0]):
        i = interval(tf, q, 'right')
        for what, f, opt in (('state', st.state, 'both'), ('algebraic state', st.algState, 'right'), ('input', st.input, 'right')):
            y = f(q)
            v = x if opt == 'both' else x[:-1]
            want = interp(p, [v], 0, exact(S, [q])[0], i, order, opt)[0]
            S.true(shape(y) == (len(v), 1), 'shape')
            S.eq(dsum(c * float(at(y, j, 0)) for j, c in enumerate(v)), want, '%s %d: %s at %g' % (bname, order, what, q), 1e-6)


def one_row_body(S, M):
    """one-dimensional data are one row"""
    t = S.reals('t', 3)
    S.ascending(t)
    pdq = M.Pdq(arr(S, t), 1)
    x, z, u = S.reals('x', 3), S.reals('z', 2), S.reals('u', 2)
    st = M.SystemTrajectory(arr(S, x), arr(S, z), arr(S, u), pdq)
    for k in range(3):
        S.eq(at(st.state(t[k]), 0, 0), x[k], 'state')
        if k < 2:
            S.eq(at(st.algState(t[k]), 0, 0), z[k], 'algebraic state')
            S.eq(at(st.input(t[k]), 0, 0), u[k], 'input')


def refuse_body(S, M):
    N, order = S.choice('size', [(1, 1), (2, 1), (2, 2)])
    t = S.reals('t', N + 1)
    S.ascending(t)
    pdq = M.Pdq(arr(S, t), order)
    n = N * order + 1
    off = [-1, 0, 1]
    d = [S.choice(k, off) for k in 'xzu']
    v = S.real('v')
    m = [np.full((2, max(c + e, 0)), v, dtype=object if S.symbolic else float) for c, e in zip((n, n - 1, n - 1), d)]
    if any(d):
        S.raises(lambda: M.SystemTrajectory(*m, pdq), 'wrong number of columns accepted %s' % d)
    else:
        S.eq(at(M.SystemTrajectory(*m, pdq).state(t[0]), 1, 0), v, 'state')


def obligations(tier):
    th = tier == 'thorough'
    o = [Ob('N=%d order %d' % (n, k), body, bounds='%d intervals, order %d, data and query symbolic' % (n, k), functions=F, params=dict(N=n, order=k, dims=d), seconds=90)
         for n, k, d in [(1, 1, [(1, 2, 1)]), (2, 1, [(2, 1, 1), (1, 1, 2)]), (3, 1, [(1, 1, 1)]), (2, 2, [(1, 1, 1)])] + ([(3, 2, [(1, 1, 1)]), (1, 3, [(1, 1, 1)])] if th else [])]
    o += [Ob('unpatched order %d' % k, grid_body, 'real', bounds='6 bound vectors, order %d' % k, functions=F, params=dict(orders=[k]), validate=6) for k in ([1, 2, 4] if not th else [1, 2, 3, 4, 5])]
    o += [Ob('integer data', typed_body, 'real', bounds='3 bound vectors, orders 1 to 3, integer data', functions=F)]
    o += [Ob('one row', one_row_body, bounds='one-dimensional data', functions=F), Ob('refused', refuse_body, bounds='column counts off by one in each argument', functions=F, validate=10)]
    return o
