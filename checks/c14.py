from daecommon import *

F = ['collocation.CollocationScheme.__init__', 'collocation.CollocationScheme.combine', 'dae_model.SemiExplicitDae.makeImplicit', 'dae_model.Dae.createFunction', 'structure3.struct_MX']
DIMS = [dict(nx=1), dict(nx=2, nz=1), dict(nx=2, nz=2, nu=2, np=1, nq=1), dict(nx=3, nu=1, np=2), dict(nx=1, nz=1, nu=1, nq=2)]


def body(S, M, d, implicit=False, grids=None, orders=None, cases=None):
    t, order = case_of(S, cases, grids, orders)
    method = S.choice('method', ['legendre', 'radau'])
    m = make_model(M, d, implicit, omit=S.choice('omit', [True, False]) if not cases and d.get('nz') else True)
    if cases:
        earlier(M, m, d, t, order)
    kw = {}
    if not cases and S.choice('expand', [True, False]) is False:
        kw['expand'] = False
    s = M.CollocationScheme(m.dae, t=t, order=order, method=method, **kw) if method == 'radau' else M.CollocationScheme(m.dae, t, order, **kw)
    g = Grid(S, t, order, method)
    N, P = g.N, g.N * g.M
    S.true(s.x.shape == (m.nx, N + 1) and s.K.shape == (m.nx, P) and s.Z.shape == (m.nz, P) and s.u.shape == (m.nu, N) and s.p.numel() == m.np, 'dimensions of the variables')
    S.true(s.numTotalCollocationPoints == P, 'number of collocation points')
    f = cs.Function('f', [s.x, s.K, s.Z, s.u, s.p], [cs.vertcat(s.eq), s.X])
    x, K, Z, u, p = cols(S, 'x', m.nx, N + 1), cols(S, 'K', m.nx, P), cols(S, 'Z', m.nz, P), cols(S, 'u', m.nu, N), S.reals('p', m.np)
    eq, X = S.call(f, [flat(x), flat(K), flat(Z), flat(u), p])
    Xs = g.state(x, K, m.nx)
    want = []
    for k in range(P):
        want += m.residual(S, xdot=K[k], x=Xs[k], z=Z[k], u=u[k // g.M], p=p, t=[g.tc[k]], tdp=[])
    e = g.end(x, K, m.nx)
    want += [e[n][r] - x[n + 1][r] for n in range(N) for r in range(m.nx)]
    same_equations(S, eq, want, 'equation')
    S.eq_all(X, flat(Xs), 'state at the collocation points', TOL)


def all_grids(S, M, d, N, orders, implicit):
    """arbitrary time grid"""
    t, tv, ts = any_grid(S, N)
    order = S.choice('order', orders)
    method = S.choice('method', ['legendre', 'radau'])
    m = Model(M, implicit=implicit, **d)
    s = M.CollocationScheme(m.dae, t, order, method, expand=S.choice('expand', [True, False]))
    g = Grid(S, tv, order, method, symbolic=True)
    P = g.N * g.M
    f = cs.Function('f', [s.x, s.K, s.Z, s.u, s.p] + ts, [cs.vertcat(s.eq), s.X])
    x, K, Z, u, p = cols(S, 'x', m.nx, N + 1), cols(S, 'K', m.nx, P), cols(S, 'Z', m.nz, P), cols(S, 'u', m.nu, N), S.reals('p', m.np)
    eq, X = S.call(f, [flat(x), flat(K), flat(Z), flat(u), p] + [[v] for v in tv[:len(ts)]])
    Xs = g.state(x, K, m.nx)
    want = []
    for k in range(P):
        want += m.residual(S, xdot=K[k], x=Xs[k], z=Z[k], u=u[k // g.M], p=p, t=[g.tc[k]], tdp=[])
    e = g.end(x, K, m.nx)
    want += [e[n][r] - x[n + 1][r] for n in range(N) for r in range(m.nx)]
    same_equations(S, eq, want, 'equation')
    S.eq_all(X, flat(Xs), 'state at the collocation points', TOL)


def combine_body(S, M):
    """combined vectors hold the parts under their names"""
    m = Model(M, nx=2, nz=1, nu=1, np=2, nq=1)
    t = S.choice('grid', GRIDS[:2])
    s = M.CollocationScheme(m.dae, t, 2)
    parts = S.choice('parts', [['x', 'K', 'Z'], ['Z', 'p', 'u'], ['q', 'eq'], ['U', 'x'], ['K']])
    w = s.combine(parts)
    S.true(list(w.keys()) == parts, 'names of the parts')
    vs = [s.x, s.K, s.Z, s.u, s.p]
    f = cs.Function('f', vs, [cs.vertcat(w)] + [w[k] for k in parts])
    f2 = cs.Function('f', vs, [cs.vertcat(s.eq) if k == 'eq' else getattr(s, k) for k in parts])
    a = [S.reals('v%d_' % k, v.numel()) for k, v in enumerate(vs)]
    r = S.call(f, a)
    r2 = S.call(f2, a)
    S.eq_all(r[0], flat(r2), 'flat vector')
    for k, n in enumerate(parts):
        S.eq_all(r[k + 1], r2[k], 'part ' + n)
    S.raises(lambda: s.combine(['x', 'nonsense']), 'unknown part accepted')


def obligations(tier):
    th = tier == 'thorough'
    o = []
    for imp in (False, True):
        nm = 'implicit' if imp else 'semi-explicit'
        for k, d in enumerate(DIMS if th else DIMS[:4] if imp else DIMS):
            o.append(Ob('%s dims %d' % (nm, k), body, 'real', bounds='dims %s, 4 grids (1 to 3 intervals), order 1..%d' % (d, 4 if th else 3), functions=F,
                        params=dict(d=d, grids=GRIDS if th or k in (0, 1) else GRIDS[1:3], orders=[1, 2, 3, 4] if th else [1, 2, 3] if k < 2 else [2], implicit=imp), validate=8, seconds=100))
    for k, d in enumerate(DIMS):
        for N in (1, 2, 3, 4) if th else (2, 3) if k else (1, 2, 3):
            o.append(Ob('all grids, dims %d, N=%d' % (k, N), all_grids, 'grids', bounds='dims %s, all ascending grids of %d intervals, order up to %d' % (d, N, 5 if th else 3), functions=F, params=dict(d=d, N=N, orders=[1, 2, 3, 4, 5] if th else [1, 2, 3], implicit=k % 2 == 1), validate=8, seconds=400 if th else 100))
    o += large(tier, body, F, dict(nx=2, nz=1, nu=1, np=1))
    return o + [Ob('combine', combine_body, 'real', bounds='5 lists of parts, 2 grids', functions=F, validate=10)]
