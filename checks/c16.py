from daecommon import *

F = ['collocation.CollocationScheme.__init__', 'collocation.Pdq.expandInput', 'dae_model.Dae.createFunction']
DIMS = [dict(nx=1, nu=2), dict(nx=1, np=2), dict(nx=2, nz=1, nu=1, np=2, nq=1), dict(nx=1, nu=1, np=1, ntdp=1, nq=1), dict(nx=1, ntdp=2), dict(nx=2, nz=1, nu=1, np=2, ntdp=2)]


def body(S, M, d, orders=None, implicit=False, grids=None, N=0, cases=None):
    if cases:
        t, order = S.choice('case', cases)
        tv, ts = t, []
    else:
        t, tv, ts = grid_of(S, grids, N)
        order = S.choice('order', orders)
    method = S.choice('method', ['legendre', 'radau'])
    repeat = S.choice('repeat_param', [False, True])
    m = make_model(M, d, implicit)
    if cases:
        earlier(M, m, d, t, order)
    w = cs.MX.sym('w', 2)
    # time-dependent parameter: an arbitrary function of time (and of the unknowns w)
    tdp = lambda time: cs.vertcat(*[cs.atan2(w[i], time) for i in range(m.ntdp)])
    kw = dict(tdp_fun=tdp) if m.ntdp else {}
    s = M.CollocationScheme(m.dae, t=t, order=order, method=method, repeat_param=repeat, expand=S.choice('expand', [True, False]), **kw)
    g = Grid(S, tv, order, method, symbolic=bool(N))
    N, P = g.N, g.N * g.M
    tvs = [[v] for v in tv[:len(ts)]]
    S.true(s.p.shape == ((m.np, P) if repeat else (m.np, 1)), 'dimensions of the parameter')
    S.true(s.U.shape == (m.nu, P) and len(s.tc) == P and len(s.t) == N + 1, 'dimensions')
    if ts:
        stc, st = S.call(cs.Function('g', ts, [cs.horzcat(*list(s.tc)), cs.horzcat(*list(s.t))]), tvs)
    else:
        stc, st = [float(v) for v in np.asarray(s.tc, dtype=float).reshape(-1)], [float(v) for v in s.t]
    S.eq_all(stc, g.tc, 'time of the collocation points', 1e-9)
    S.eq_all(st, g.t, 'time grid', 1e-9)
    vs = [s.x, s.K, s.Z, s.u, s.p, w] + ts
    f = cs.Function('f', vs, [s.eq['collocation'], s.eq['param'], s.U, s.quad])
    x, K, Z, u = cols(S, 'x', m.nx, N + 1), cols(S, 'K', m.nx, P), cols(S, 'Z', m.nz, P), cols(S, 'u', m.nu, N)
    p = cols(S, 'p', m.np, P if repeat else 1)
    wv = S.reals('w', 2)
    col, par, U, quad = S.call(f, [flat(x), flat(K), flat(Z), flat(u), flat(p), wv] + tvs)
    X = g.state(x, K, m.nx)
    want, wq = [], []
    tf = cs.Function('tdp', [w, m.sym['t']], [tdp(m.sym['t']) if m.ntdp else cs.MX(0, 1)]).expand()
    for k in range(P):
        v = dict(xdot=K[k], x=X[k], z=Z[k], u=u[k // g.M], p=p[k] if repeat else p[0], t=[g.tc[k]], tdp=S.call(tf, [wv, [g.tc[k]]])[0])
        want += m.residual(S, **v)
        wq += m.quad(S, **v)
    same_equations(S, col, want, 'equation')
    S.eq_all(quad, wq, 'integrand', TOL)
    S.eq_all(U, flat([u[k // g.M] for k in range(P)]), 'input at the collocation points', TOL)
    if repeat and m.np:
        # the equations hold iff all columns agree
        S.true(len(par) >= m.np * (P - 1), 'number of parameter equations')
        c = S.reals('c', m.np)
        equal = S.call(f, [flat(x), flat(K), flat(Z), flat(u), flat([c] * P), wv] + tvs)[1]
        S.eq_all(equal, [0] * len(equal), 'parameter equations for equal columns', TOL)
        for v in par:
            S.assume(v == 0)
        for k in range(1, P):
            S.eq_all(p[k], p[0], 'column %d' % k)
    else:
        S.true(len(par) == 0, 'parameter equations without repeated parameters')


def expand_body(S, M):
    t = S.choice('grid', GRIDS)
    order = S.choice('order', [1, 2, 4])
    nu = S.choice('nu', [1, 3])
    pdq = M.Pdq(t, order, S.choice('kind', ['chebyshev', 'radau']))
    N = len(t) - 1
    typ = S.choice('type', [cs.MX, cs.SX])
    s = typ.sym('u', nu, N)
    f = cs.Function('f', [s], [pdq.expandInput(s)])
    S.true(f.size_out(0) == (nu, N * order), 'shape')
    u = cols(S, 'u', nu, N)
    [U] = S.call(f, [flat(u)])
    S.eq_all(U, flat([u[k // order] for k in range(N * order)]), 'expanded input')
    for n in (N - 1, N + 1):
        S.raises(lambda: pdq.expandInput(typ.sym('u', nu, n)), 'wrong number of columns accepted')


def refuse_body(S, M):
    """a time-dependent parameter needs its function"""
    m = Model(M, nx=1, ntdp=S.choice('n', [1, 2]))
    S.raises(lambda: M.CollocationScheme(m.dae, t=[0, 1], order=2), 'missing function of the time-dependent parameter accepted')


def obligations(tier):
    th = tier == 'thorough'
    o = []
    for k, d in enumerate(DIMS):
        for imp in ([False, True] if th or k in (2, 3) else [k % 2 == 1]):
            o.append(Ob('dims %d%s' % (k, ' implicit' if imp else ''), body, 'real', bounds='dims %s, up to 3 intervals, order up to %d, with and without repeated parameters' % (d, 4 if th else 3), functions=F,
                        params=dict(d=d, grids=GRIDS if th else GRIDS[1:3] + GRIDS[3:] if k < 2 else GRIDS[1:2], orders=[1, 2, 3] if th else [1, 2] if k < 2 else [2], implicit=imp), validate=8, seconds=120))
    for k in range(len(DIMS)):
        for N in ((1, 2, 3, 4) if th else (2, 3) if k == 4 else (2,)):
            o.append(Ob('all grids, dims %d, N=%d' % (k, N), body, 'grids', bounds='dims %s, all ascending grids of %d intervals, order up to %d, with and without repeated parameters' % (DIMS[k], N, 5 if th else 3), functions=F,
                        params=dict(d=DIMS[k], N=N, orders=[1, 2, 3, 4, 5] if th else [1, 2, 3], implicit=k % 2 == 1), validate=8, seconds=600 if th else 120))
    o += large(tier, body, F, dict(nx=1, nu=1, np=1, ntdp=1, nq=1), tdp=True)
    return o + [Ob('expandInput', expand_body, 'real', bounds='4 grids, orders 1, 2, 4, 1 and 3 inputs', functions=F[1:2], validate=8), Ob('refused', refuse_body, 'real', bounds='1, 2 time-dependent parameters', functions=F[:1])]
