from daecommon import *

F = ['dae_model.SemiExplicitDae.makeImplicit', 'dae_model.ImplicitDae.makeImplicit', 'dae_model.Dae.createFunction', 'dae_model.Dae.__init__', 'dae_model.SemiExplicitDae.__init__', 'dae_model.ImplicitDae.__init__']
DIMS = [dict(nx=1), dict(nx=2, nz=1), dict(nx=2, nz=2, nu=2, np=3, ntdp=1, nq=2), dict(nx=3, nu=1), dict(nx=1, nz=2, nq=1), dict(nx=1, np=1, ntdp=2)]


def _sizes(S, m, d, label):
    S.true((d.nx, d.nz, d.nu, d.np, d.ntdp, d.nq) == (m.nx, m.nz, m.nu, m.np, m.ntdp, m.nq), label + ': dimensions')


def body(S, M, dims):
    m = Model(M, omit=S.choice('omit', [True, False]), t=S.choice('time', [True, False]), **S.choice('dims', dims))
    d = m.dae
    # conversions made before
    Model(M, linear=True, **dims[0]).dae.makeImplicit()
    d.makeImplicit()
    i = d.makeImplicit()
    _sizes(S, m, d, 'semi-explicit')
    _sizes(S, m, i, 'implicit')
    S.true(isinstance(i, M.ImplicitDae), 'class of the implicit form')
    ins = dict(xdot=i.xdot, x=i.x, z=i.z, u=i.u, p=i.p, t=i.t, tdp=i.tdp)
    S.true(i.xdot.shape == (m.nx, 1) and i.dae.numel() == m.nx + m.nz, 'sizes of the implicit form')
    f = cs.Function('f', [ins[k] for k in NAMES], [i.dae, i.quad])
    v = {k: S.reals(k, n) for k, n in m.dims.items()}
    r, q = S.call(f, [v[k] for k in NAMES])
    same_equations(S, r, m.residual(S, **v), 'implicit equation')
    S.eq_all(q, m.quad(S, **v), 'quadrature', TOL)
    # the variables are those of the semi-explicit form
    g = cs.Function('g', [i.x, i.z, i.u, i.p, i.t, i.tdp], [d.x, d.z, d.u, d.p, d.t, d.tdp, d.quad])
    w = [v[k] for k in ('x', 'z', 'u', 'p', 't', 'tdp')]
    out = S.call(g, w)
    for k, (a, b) in enumerate(zip(w, out)):
        S.eq_all(b, a, 'variable %d' % k)
    # the semi-explicit form itself is unchanged
    h = cs.Function('h', [m.sym[k] for k in NAMES if k in ('x', 'z', 'u', 'p', 't', 'tdp')], [d.ode, d.alg])
    ode, alg = S.call(h, [v[k] for k in NAMES if k != 'xdot'])
    o2, a2 = S.call(m.rhs_f, [v[k] for k in NAMES])
    S.eq_all(ode, o2, 'ode', TOL)
    S.eq_all(alg, a2, 'alg', TOL)


def implicit_body(S, M, dims):
    m = Model(M, implicit=True, omit=S.choice('omit', [True, False]), **S.choice('dims', dims))
    d = m.dae
    n = S.choice('times', [1, 2])
    i = d.makeImplicit() if n == 1 else d.makeImplicit().makeImplicit()
    _sizes(S, m, i, 'implicit')
    f = cs.Function('f', [getattr(i, k) for k in NAMES], [i.dae, i.quad] + [m.sym[k] for k in NAMES if m.dims[k]])
    v = {k: S.reals(k, n) for k, n in m.dims.items()}
    r = S.call(f, [v[k] for k in NAMES])
    S.eq_all(r[0], m.residual(S, **v), 'equation', TOL)
    S.eq_all(r[1], m.quad(S, **v), 'quadrature', TOL)
    for a, k in zip(r[2:], [k for k in NAMES if m.dims[k]]):
        S.eq_all(a, v[k], 'variable ' + k)


def function_body(S, M, implicit):
    """createFunction for argument lists in several orders"""
    m = Model(M, implicit=implicit, **S.choice('dims', [DIMS[2], DIMS[1]]))
    names = [k for k in NAMES if implicit or k != 'xdot']
    orders = [names, names[::-1], names[2:] + names[:2], sorted(names)]
    ins = S.choice('in', orders)
    outs = S.choice('out', [['dae', 'quad'], ['quad', 'dae'], ['dae']] if implicit else [['ode', 'alg', 'quad'], ['quad', 'alg', 'ode'], ['alg'], ['ode'], ['quad', 'ode']])
    f = m.dae.createFunction(S.choice('name', ['f', 'other']), ins, outs)
    S.true(f.name_in() == ins and f.name_out() == outs, 'names of arguments and results')
    v = {k: S.reals(k, n) for k, n in m.dims.items()}
    r = S.call(f, [v[k] for k in ins])
    o2, a2 = S.call(m.rhs_f, [v[k] for k in NAMES]) if not implicit else (None, None)
    for k, a in zip(outs, r):
        want = v[k] if k in v else m.quad(S, **v) if k == 'quad' else m.residual(S, **v) if k == 'dae' else o2 if k == 'ode' else a2
        S.eq_all(a, want, 'result ' + k, TOL)


def sx_body(S, M):
    """models formulated with the scalar symbolic type or with structures"""
    kind = S.choice('kind', ['SX', 'struct'])
    v = {k: S.reals(k, n) for k, n in dict(x=2, z=1, u=2).items()}
    if kind == 'SX':
        x, z, u, p, t, tdp = cs.SX.sym('x', 2), cs.SX.sym('z'), cs.SX.sym('u', 2), cs.SX.sym('p', 0), cs.SX.sym('t'), cs.SX.sym('tdp', 0)
        q = cs.SX(0, 1)
        d = M.SemiExplicitDae(x=x, z=z, u=u, p=p, t=t, tdp=tdp, quad=q, ode=cs.vertcat(cs.atan2(x[0], u[1]), cs.sin(x[1])), alg=cs.cos(z - u[0]))
        f = d.createFunction('f', ['x', 'z', 'u'], ['ode', 'alg'])
        r = S.call(f, [v[k] for k in ('x', 'z', 'u')])
        g = cs.Function('g', [x, z, u], [cs.vertcat(cs.atan2(x[0], u[1]), cs.sin(x[1])), cs.cos(z - u[0])])
    else:
        x = M.struct_symMX([M.entry('a'), M.entry('b')])
        u = M.struct_symMX([M.entry('c', shape=2)])
        z = cs.MX.sym('z')
        ode = M.struct_MX(x)
        ode['a'] = cs.atan2(x['a'], u['c'][1])
        ode['b'] = cs.sin(x['b'])
        d = M.SemiExplicitDae(x=x, z=z, u=u, ode=ode, alg=cs.cos(z - u['c'][0]))
        S.true((d.nx, d.nz, d.nu) == (2, 1, 2), 'dimensions')
        i = d.makeImplicit()
        xd = S.reals('xdot', 2)
        f = i.createFunction('f', ['xdot', 'x', 'z', 'u'], ['dae'])
        [r] = S.call(f, [xd, v['x'], v['z'], v['u']])
        X, U = cs.MX.sym('x', 2), cs.MX.sym('u', 2)
        g = cs.Function('g', [X, z, U], [cs.vertcat(cs.atan2(X[0], U[1]), cs.sin(X[1])), cs.cos(z - U[0])])
        o, a = S.call(g, [v['x'], v['z'], v['u']])
        same_equations(S, r, [xd[k] - o[k] for k in range(2)] + a, 'implicit equation')
        return
    o, a = S.call(g, [v['x'], v['z'], v['u']])
    S.eq_all(r[0], o, 'ode', TOL)
    S.eq_all(r[1], a, 'alg', TOL)


def obligations(tier):
    return [Ob('to implicit', body, 'real', bounds='6 tuples of dimensions up to 3, all combinations of absent and present parts, one with 9 states', functions=F, params=dict(dims=DIMS + PARTS + [dict(BIG, ntdp=2)]), validate=24),
            Ob('implicit stays', implicit_body, 'real', bounds='6 tuples of dimensions up to 3, all combinations of absent and present parts, one with 9 states', functions=F, params=dict(dims=DIMS + PARTS + [dict(BIG, ntdp=2)]), validate=24),
            Ob('functions semi-explicit', function_body, 'real', bounds='4 argument orders x 5 result lists', functions=F, params=dict(implicit=False), validate=20),
            Ob('functions implicit', function_body, 'real', bounds='4 argument orders x 3 result lists', functions=F, params=dict(implicit=True), validate=20),
            Ob('SX and structures', sx_body, 'real', bounds='one model each', functions=F)]
