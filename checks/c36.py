from daecommon import *

F = ['collocation.CollocationScheme.__init__', 'collocation.CollocationScheme.eq', 'collocation.CollocationScheme.X', 'collocation.CollocationScheme.q', 'collocation.CollocationScheme.Q', 'collocation.CollocationScheme.quad']
ASSUMPTIONS = ['Right-hand sides are uninterpreted functions of all their arguments.', 'Threads of the parallel modes are CasADi; the graph they evaluate is what is checked.']
DIMS = [dict(nx=1), dict(nx=2, nz=1, nq=1), dict(nx=1, nu=2, np=2, nq=2), dict(nx=2, nz=1, nu=1, np=1, ntdp=1, nq=1)]
MODES = ['serial', 'thread', 'unroll', 'inline']
OUT = ('parameter equations', 'all equations', 'equations', 'continuity', 'state', 'quadrature at the ends', 'quadrature', 'integrand', 'input')


def scheme(M, m, t, order, method, w, **kw):
    if m.ntdp:
        kw['tdp_fun'] = lambda time: cs.vertcat(*[cs.atan2(w[i], time) for i in range(m.ntdp)])
    return M.CollocationScheme(m.dae, t, order, method, **kw)


def values(S, s, m, w, N, P, repeat, label):
    vs = [s.x, s.K, s.Z, s.u, s.p, w]
    f = cs.Function('f', vs, [s.eq['param'], cs.vertcat(s.eq), s.eq['collocation'], s.eq['continuity'], s.X, s.q, s.Q, s.quad, s.U])
    p = S.reals('p', m.np)
    a = [flat(cols(S, 'x', m.nx, N + 1)), flat(cols(S, 'K', m.nx, P)), flat(cols(S, 'Z', m.nz, P)), flat(cols(S, 'u', m.nu, N)), p * P if repeat else p, S.reals('w', 2)]
    S.true([v.numel() for v in vs] == [len(v) for v in a], label + ': sizes of the variables')
    return S.call(f, a)


def body(S, M, d, implicit=False, grids=None, orders=None, cases=None):
    """the same equations for every way of evaluating them"""
    t, order = case_of(S, cases, grids, orders)
    method = S.choice('method', ['legendre', 'radau'])
    kw = {}
    mode = S.choice('parallelization', MODES)
    if mode != 'serial':
        kw['parallelization'] = mode
    if not S.choice('expand', [True, False]):
        kw['expand'] = False
    if S.choice('options', [False, True]):
        kw['options'] = dict(verbose=False)
    m = make_model(M, d, implicit)
    w = cs.MX.sym('w', 2)
    N, P = len(t) - 1, (len(t) - 1) * order
    a = values(S, scheme(M, m, t, order, method, w), m, w, N, P, False, 'default')
    b = values(S, scheme(M, m, t, order, method, w, **kw), m, w, N, P, False, str(kw))
    for k, x, y in zip(OUT, a, b):
        S.eq_all(y, x, '%s with %s' % (k, kw), TOL)


def repeated(S, M, d, grids, orders, implicit):
    """repeating the parameter adds equations between the copies and changes nothing else"""
    t = S.choice('grid', grids)
    order = S.choice('order', orders)
    method = S.choice('method', ['legendre', 'radau'])
    mode = S.choice('parallelization', MODES)
    m = Model(M, implicit=implicit, **d)
    w = cs.MX.sym('w', 2)
    N, P = len(t) - 1, (len(t) - 1) * order
    a = values(S, scheme(M, m, t, order, method, w), m, w, N, P, False, 'default')
    b = values(S, scheme(M, m, t, order, method, w, repeat_param=True, parallelization=mode), m, w, N, P, True, 'repeated')
    n = m.np * (P - 1)
    S.true(len(a[0]) == 0 and len(b[0]) >= n and len(b[1]) == len(a[1]) + len(b[0]), 'number of equations')
    S.eq_all(b[0], [0] * len(b[0]), 'equations between equal copies', TOL)
    for k, x, y in zip(OUT[2:], a[2:], b[2:]):
        S.eq_all(y, x, k + ' with copies', TOL)


def obligations(tier):
    th = tier == 'thorough'
    o = []
    for k, d in enumerate(DIMS):
        for imp in (False, True) if th or k == 1 else (k % 2 == 1,):
            nm = 'dims %d%s' % (k, ' implicit' if imp else '')
            g = GRIDS if th else GRIDS[1:2] if k else GRIDS[2:]
            o.append(Ob('options, ' + nm, body, 'real', bounds='dims %s, %d grids, orders up to %d, 4 parallelizations, expand and options on and off' % (d, len(g), 4 if th else 2), functions=F,
                        params=dict(d=d, grids=g, orders=[1, 2, 3, 4] if th else [1, 2] if k < 2 else [2], implicit=imp), validate=8, seconds=200 if not th else 1500))
            if d.get('np'):
                o.append(Ob('copies, ' + nm, repeated, 'real', bounds='dims %s, %d grids, 4 parallelizations' % (d, len(g)), functions=F,
                            params=dict(d=d, grids=g, orders=[1, 2, 3] if th else [2], implicit=imp), validate=8, seconds=200))
    return o + large(tier, body, F, dict(nx=1, nu=1, np=1, ntdp=1, nq=1), tdp=True)
