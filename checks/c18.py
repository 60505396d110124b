import loader
from daecommon import *

F = ['collocation.CollocationIntegrator.__init__', 'collocation.collocationIntegrator', 'collocation.CollocationIntegrator.integrate', 'collocation.CollocationScheme.__init__', 'collocation.CollocationScheme.combine']
DIMS = [dict(nx=1), dict(nx=2, nz=1), dict(nx=1, nu=1, np=2, nq=1), dict(nx=2, nz=2, nu=1, np=1, nq=2), dict(nx=1, nz=1, ntdp=1, nq=1)]
OUT = ['xf', 'qf', 'X', 'Z', 'Q', 'x', 'K', 'tc']
ASSUMPTIONS = ['The root finder is replaced by an arbitrary vector W that satisfies the residual it was given (stub); that a root is found is outside.',
               'Replays use a linear DAE of the same dimensions with the real Newton root finder, and the values of the counterexample.']


def _make(S, M, mode, m, t, order, method, tdp):
    if S.symbolic:
        loader.RF_MODE = mode
    kw = dict(tdp_fun=tdp) if m.ntdp else {}
    if method == 'radau':
        return M.collocationIntegrator('integrator', m.dae, t, order, method, **kw)
    return S.choice('name', [M.CollocationIntegrator, M.collocationIntegrator])('integrator', m.dae, t, order, **kw)


def body(S, M, d, grids=None, orders=None, implicit=False, cases=None):
    t, order = case_of(S, cases, grids, orders)
    method = S.choice('method', ['legendre', 'radau'])
    m = make_model(M, d, implicit, linear=not S.symbolic)
    tdp = lambda time: cs.vertcat(*[cs.sin(time + i) for i in range(m.ntdp)])
    g = Grid(S, t, order, method)
    N, P = g.N, g.N * g.M
    f = _make(S, M, 'unknown', m, t, order, method, tdp)
    idx = {k: i for i, k in enumerate(f.name_out())}
    S.true(set(f.name_in()) == {'x0', 'z0', 'u', 'p'} and set(OUT) <= set(idx), 'names of inputs and outputs')
    sh = lambda k: f.size_out(idx[k])
    S.true(sh('xf') == (m.nx, N) and sh('X') == (m.nx, P) and sh('Z') == (m.nz, P) and sh('Q') == (m.nq, P) and sh('x') == (m.nx, N + 1) and sh('K') == (m.nx, P) and f.numel_out(idx['qf']) == m.nq and f.numel_out(idx['tc']) == P, 'dimensions')
    x0, z0, u, p = S.reals('x', m.nx), S.reals('z', m.nz), cols(S, 'u', m.nu, N), S.reals('p', m.np)
    args = dict(x0=x0, z0=z0, u=flat(u), p=p)
    a = [args[k] for k in f.name_in()]
    if not S.symbolic:
        f2 = lambda: None
    r = S.call(f, a)
    v = {k: r[idx[k]] for k in OUT}
    x, K, Z, X, Q = unflat(v['x'], m.nx), unflat(v['K'], m.nx), unflat(v['Z'], m.nz) or [[]] * P, unflat(v['X'], m.nx), unflat(v['Q'], m.nq)
    if S.symbolic:
        # the assumption: W satisfies the residual. The residual takes the place of the solution vector
        fr = _make(S, M, 'residual', m, t, order, method, tdp)
        rr = S.call(fr, a)
        res = rr[idx['x']] + rr[idx['K']] + rr[idx['Z']]
        S.true(len(res) == len(v['x']) + len(v['K']) + len(v['Z']), 'number of equations')
        for e in res:
            S.assume(e == 0, check=False)
        # reachability: the assumptions can hold
        import z3
        S.true(S._check() != z3.unsat, 'assumptions are contradictory')
    S.eq_all(x[0], x0, 'initial state', TOL)
    Xs, e = g.state(x, K, m.nx), g.end(x, K, m.nx)
    tf = cs.Function('tdp', [m.sym['t']], [tdp(m.sym['t']) if m.ntdp else cs.MX(0, 1)]).expand()
    G = []
    for k in range(P):
        w = dict(xdot=K[k], x=Xs[k], z=Z[k], u=u[k // g.M], p=p, t=[g.tc[k]], tdp=S.call(tf, [[g.tc[k]]])[0])
        res = m.residual(S, **w)
        S.eq_all(res, [0] * len(res), 'equations at point %d' % k, TOL)
        G.append(m.quad(S, **w))
    for n in range(N):
        S.eq_all(e[n], x[n + 1], 'continuity', TOL)
    S.eq_all(v['X'], flat(Xs), 'collocation states', TOL)
    S.eq_all(v['xf'], flat(x[1:]), 'final states', TOL)
    S.eq_all(v['tc'], g.tc, 'times', TOL)
    q, Qs = g.quads(G, m.nq)
    S.eq_all(v['qf'], q[-1], 'final quadrature', TOL)
    S.eq_all(v['Q'], flat(Qs), 'quadrature', TOL)
    if not S.symbolic:
        _trajectory(S, f, m, g, a, t)


def _trajectory(S, f, m, g, a, t):
    """replays also go through integrate()"""
    out = f.integrate(**{k: (cs.DM([float(x) for x in v]).reshape((-1, 1)) if k != 'u' else cs.DM([float(x) for x in v]).reshape((m.nu, g.N)) if m.nu else cs.DM(0, g.N)) for k, v in zip(f.name_in(), a)})
    y = np.asarray(out['x_traj']([float(v) for v in t]), dtype=float)
    S.eq_all(list(y.T.reshape(-1)), S.elems(out['x']), 'trajectory at the grid points', TOL)


def guess_body(S, M, dims, implicit):
    """the starting point of the search; it can be observed by a root finder that returns it"""
    d = S.choice('dims', dims)
    t = S.choice('grid', GRIDS[:3])
    order = S.choice('order', [1, 2, 3])
    method = S.choice('method', ['legendre', 'radau'])
    m = Model(M, implicit=implicit, **d)
    tdp = lambda time: cs.vertcat(*[cs.sin(time + i) for i in range(m.ntdp)])
    g = Grid(S, t, order, method)
    P = g.N * g.M
    x0, z0, u, p = S.reals('x', m.nx), S.reals('z', m.nz), cols(S, 'u', m.nu, g.N), S.reals('p', m.np)
    args = dict(x0=x0, z0=z0, u=flat(u), p=p)
    if S.symbolic:
        f = _make(S, M, 'guess', m, t, order, method, tdp)
    else:
        # the real code with the recording root finder
        loader.RF_MODE = 'guess'
        f = (lambda R: R.collocationIntegrator('integrator', m.dae, t, order, method, **(dict(tdp_fun=tdp) if m.ntdp else {})))(loader.rootfinders())
    idx = {k: i for i, k in enumerate(f.name_out())}
    Z = S.call(f, [args[k] for k in f.name_in()])[idx['Z']]
    S.eq_all(Z, z0 * P, 'guess of the algebraic state')


def obligations(tier):
    th = tier == 'thorough'
    o = []
    for k, d in enumerate(DIMS):
        for imp in ([False, True] if th or k in (1, 3) else [False]):
            o.append(Ob('dims %d%s' % (k, ' implicit' if imp else ''), body, 'rf', bounds='dims %s, up to 3 intervals, order up to %d' % (d, 3 if k == 0 or th else 2), functions=F,
                        params=dict(d=d, grids=GRIDS if k == 0 or th else GRIDS[1:2] + GRIDS[3:], orders=[1, 2, 3] if k == 0 or th else [1, 2], implicit=imp), validate=8, seconds=120))
    o += [Ob('guess%s' % (' implicit' if imp else ''), guess_body, 'rf', bounds='3 grids, order up to 3', functions=F, params=dict(dims=[DIMS[1], DIMS[3], DIMS[4]], implicit=imp), validate=8) for imp in (False, True)]
    o += large(tier, body, F, dict(nx=1, nz=1, nu=1, np=1, nq=1), kind='rf', tdp=True)
    return o
