from daecommon import *

F = ['collocation.CollocationScheme.__init__', 'dae_model.Dae.createFunction', 'dae_model.SemiExplicitDae.makeImplicit']
DIMS = [dict(nx=1, nq=1), dict(nx=2, nz=1, nq=2), dict(nx=1, nu=2, np=1, nq=3), dict(nx=2, nz=1, nu=1, np=1, nq=1), dict(nx=1, nq=0)]


def body(S, M, d, orders=None, grids=None, N=0, cases=None):
    if cases:
        t, order = S.choice('case', cases)
        tv, ts = t, []
    else:
        t, tv, ts = grid_of(S, grids, N)
        order = S.choice('order', orders)
    method = S.choice('method', ['legendre', 'radau'])
    implicit = isinstance(d, dict) and S.choice('implicit', [False, True])
    m = make_model(M, d, implicit)
    if cases:
        earlier(M, m, d, t, order)
    s = M.CollocationScheme(m.dae, t=t, order=order, method=method, expand=S.choice('expand', [True, False]))
    g = Grid(S, tv, order, method, symbolic=bool(N))
    N, P = g.N, g.N * g.M
    tvs = [[v] for v in tv[:len(ts)]]
    S.true(s.q.shape == (m.nq, N + 1) and s.Q.shape == (m.nq, P) and s.quad.shape == (m.nq, P), 'dimensions')
    f = cs.Function('f', [s.x, s.K, s.Z, s.u, s.p] + ts, [s.q, s.Q, s.quad])
    x, K, Z, u, p = cols(S, 'x', m.nx, N + 1), cols(S, 'K', m.nx, P), cols(S, 'Z', m.nz, P), cols(S, 'u', m.nu, N), S.reals('p', m.np)
    q, Q, quad = S.call(f, [flat(x), flat(K), flat(Z), flat(u), p] + tvs)
    X = g.state(x, K, m.nx)
    G = [m.quad(S, xdot=K[k], x=X[k], z=Z[k], u=u[k // g.M], p=p, t=[g.tc[k]], tdp=[]) for k in range(P)]
    qs, Qs = g.quads(G, m.nq)
    S.eq_all(quad, flat(G), 'integrand', TOL)
    S.eq_all(q, flat(qs), 'quadrature at the interval ends', TOL)
    S.eq_all(Q, flat(Qs), 'quadrature at the collocation points', TOL)


def obligations(tier):
    th = tier == 'thorough'
    o = [Ob('all grids, dims %d, N=%d' % (k, N), body, 'grids', bounds='dims %s, all ascending grids of %d intervals, order up to %d, both methods' % (DIMS[k], N, 5 if th else 3), functions=F,
            params=dict(d=DIMS[k], N=N, orders=[1, 2, 3, 4, 5] if th else [1, 2, 3]), validate=8, seconds=600 if th else 120) for k in range(5) for N in ((1, 2, 3, 4) if th else (1, 2, 3) if k == 0 else (2,))]
    o += large(tier, body, F, dict(nx=1, nz=1, nu=1, np=1, nq=2))
    return o + [Ob('dims %d' % k, body, 'real', bounds='dims %s, up to 3 intervals, order up to %d, both methods' % (d, 4 if th else 3), functions=F,
               params=dict(d=d, grids=GRIDS if th or k == 0 else GRIDS[1:], orders=[1, 2, 3, 4] if th else [1, 2, 3] if k < 2 else [2]), validate=8, seconds=120) for k, d in enumerate(DIMS)]
