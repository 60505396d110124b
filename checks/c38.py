from daecommon import *

F = ['dae_model.Dae.createFunction', 'dae_model.Dae.__init__', 'dae_model.SemiExplicitDae.__init__', 'dae_model.ImplicitDae.__init__', 'dae_model.Dae.nx', 'dae_model.Dae.nz', 'dae_model.Dae.nu', 'dae_model.Dae.np', 'dae_model.Dae.ntdp', 'dae_model.Dae.nq']
ASSUMPTIONS = ['Right-hand sides are uninterpreted functions of all their arguments.']
DIMS = [dict(nx=2, nz=1, nu=2, np=3, ntdp=1, nq=2), dict(nx=1, nz=2, nu=1, np=1, ntdp=2, nq=1), dict(nx=2), dict(nx=1, nu=2, np=1)]


def arranged(S, names, tag, k):
    """names with any k of them in front, in any order"""
    left, out = list(names), []
    for i in range(k):
        n = S.choice('%s%d' % (tag, i), left)
        out.append(n)
        left.remove(n)
    return out + (left[::-1] if S.choice(tag + 'rest', [0, 1]) else left)


def some(S, names, tag, k):
    out, left = [], list(names)
    for i in range(k):
        n = S.choice('%s%d' % (tag, i), left + ([] if i == 0 else [None]))
        if n is None:
            break
        out.append(n)
        left.remove(n)
    return out


def expected(S, m, v, k, implicit):
    if k in v:
        return v[k]
    if k == 'quad':
        return m.quad(S, **v)
    if k == 'dae':
        return m.residual(S, **v)
    return S.call(m.rhs_f, [v[n] for n in NAMES])['ode alg'.split().index(k)]


def sizes(S, m, d, v):
    S.true((d.nx, d.nz, d.nu, d.np, d.ntdp, d.nq) == (m.nx, m.nz, m.nu, m.np, m.ntdp, m.nq), 'dimensions')


def body(S, M, d, implicit, kin, kout):
    """arguments and results by name, in any order"""
    m = Model(M, implicit=implicit, omit=S.choice('omit', [True, False]), **d)
    dae = m.dae
    v = {k: S.reals(k, n) for k, n in m.dims.items()}
    sizes(S, m, dae, v)
    names = [k for k in NAMES if implicit or k != 'xdot']
    ins = arranged(S, names, 'in', kin)
    outs = some(S, (['dae', 'quad'] if implicit else ['ode', 'alg', 'quad']), 'out', kout)
    # functions made before, with the same name
    other = Model(M, implicit=implicit, linear=True, **d).dae
    for a in (dae, other):
        a.createFunction('f', names, ['quad'])
        a.createFunction('f', ins, outs[::-1])
    other.createFunction('f', ins, outs)
    f = dae.createFunction('f', ins, outs)
    S.true(f.name() == 'f', 'name')
    S.true(list(f.name_in()) == ins and list(f.name_out()) == outs, 'names of arguments and results')
    S.true([f.numel_in(i) for i in range(f.n_in())] == [m.dims[k] for k in ins], 'sizes of the arguments')
    r = S.call(f, [v[k] for k in ins])
    for k, a in zip(outs, r):
        S.eq_all(a, expected(S, m, v, k, implicit), 'result ' + k, TOL)


def partial(S, M, implicit):
    """only the arguments a result depends on are needed"""
    x, z, u, p = cs.MX.sym('x', 2), cs.MX.sym('z'), cs.MX.sym('u', 2), cs.MX.sym('p', 2)
    t, xd = cs.MX.sym('t'), cs.MX.sym('xdot', 2)
    a = cs.vertcat(cs.atan2(x[1], u[0]), cs.atan2(x[0], u[1]))
    b = cs.atan2(z, p[1])
    kw = dict(x=x, z=z, u=u, p=p, t=t, quad=cs.sin(cs.atan2(t, x[1])))
    dae = M.ImplicitDae(xdot=xd, dae=cs.vertcat(xd - a, b), **kw) if implicit else M.SemiExplicitDae(ode=a, alg=b, **kw)
    v = {k: S.reals(k, n) for k, n in dict(x=2, z=1, u=2, p=2, t=1, xdot=2).items()}
    case = S.choice('case', [('quad', ['x', 't']), ('quad', ['t', 'x'])] + ([] if implicit else [('ode', ['u', 'x']), ('ode', ['x', 'u', 'p']), ('alg', ['p', 'z']), ('alg', ['z', 'p'])]))
    out, ins = case
    f = dae.createFunction('g', ins, [out])
    own = dict(x=x, z=z, u=u, p=p, t=t)
    g = cs.Function('g', [own[k] for k in ins], [dict(ode=a, alg=b, quad=kw['quad'])[out]])
    S.eq_all(S.call(f, [v[k] for k in ins])[0], S.call(g, [v[k] for k in ins])[0], 'result')
    miss = S.choice('missing', ins)
    if {'ode': ['x', 'u'], 'alg': ['z', 'p'], 'quad': ['t', 'x']}[out].count(miss):
        S.raises(lambda: dae.createFunction('g', [k for k in ins if k != miss], [out]), 'missing argument accepted')


def left_out(S, M, d, implicit):
    """any argument the result depends on"""
    m = Model(M, implicit=implicit, **d)
    out = S.choice('result', ['dae', 'quad'] if implicit else ['ode', 'alg', 'quad'])
    need = [k for k in NAMES if m.dims[k] and (k != 'xdot' or implicit and out == 'dae')]
    miss = S.choice('missing', need)
    S.raises(lambda: m.dae.createFunction('f', [k for k in need if k != miss], [out]), 'argument left out')
    m.dae.createFunction('f', need, [out])


def unknown(S, M):
    m = Model(M, nx=1, nz=1)
    n = S.choice('name', ['w', 'X', 'alg2', 'xx'])
    if S.choice('side', ['in', 'out']) == 'in':
        S.raises(lambda: m.dae.createFunction('f', ['x', 'z', 't', n], ['ode']), 'unknown argument accepted')
    else:
        S.raises(lambda: m.dae.createFunction('f', ['x', 'z', 't'], ['ode', n]), 'unknown result accepted')


def matrices(S, M):
    """parameters may be matrices; sizes count elements"""
    r, c = S.choice('shape', [(1, 1), (2, 2), (3, 1), (1, 3), (2, 3)])
    p = cs.MX.sym('p', r, c)
    which = S.choice('which', ['p', 'tdp'])
    x = cs.MX.sym('x')
    t = cs.MX.sym('t')
    d = M.SemiExplicitDae(x=x, t=t, ode=x * cs.sum1(cs.vec(p)) + t, **{which: p})
    S.true((d.np, d.ntdp) == ((r * c, 0) if which == 'p' else (0, r * c)), 'number of parameters')
    f = d.createFunction('f', ['x', which, 't'], ['ode'])
    X, P, T = S.reals('x', 1), S.reals('p', r * c), S.reals('t', 1)
    [o] = S.call(f, [X, P, T])
    S.eq_all(o, [X[0] * dsum(P) + T[0]], 'ode')


def obligations(tier):
    th = tier == 'thorough'
    o = []
    for k, d in enumerate(DIMS):
        for imp in (False, True):
            if th or k < 2 or imp == (k % 2 == 1):
                o.append(Ob('%s, dims %d' % ('implicit' if imp else 'semi-explicit', k), body, 'real', bounds='dims %s, arguments with any %d in front, any list of up to %d results' % (d, 2 if k == 0 or th else 1, 3 if th else 2), functions=F,
                            params=dict(d=d, implicit=imp, kin=2 if k == 0 or th else 1, kout=3 if th else 2), validate=10, seconds=200 if not th else 3000))
    for imp in (False, True):
        o.append(Ob('dependencies, %s' % ('implicit' if imp else 'semi-explicit'), partial, 'real', bounds='one model, %d functions' % (2 if imp else 6), functions=F, params=dict(implicit=imp)))
    for k in (0, 1):
        for imp in (False, True):
            o.append(Ob('left out, %s, dims %d' % ('implicit' if imp else 'semi-explicit', k), left_out, 'real', bounds='dims %s' % DIMS[k], functions=F, params=dict(d=DIMS[k], implicit=imp)))
    for imp in (False, True):
        o.append(Ob('many variables, %s' % ('implicit' if imp else 'semi-explicit'), body, 'real', bounds='dims %s' % BIG, functions=F, params=dict(d=BIG, implicit=imp, kin=1, kout=1), validate=4))
        o += [Ob('absent parts, %s, %s algebraic state' % ('implicit' if imp else 'semi-explicit', 'with' if part else 'without'), absent, 'real', bounds='all combinations of absent and present parts', functions=F, params=dict(body=body, part=part, implicit=imp, kin=0, kout=3), validate=10) for part in (False, True)]
    o.append(Ob('unknown names', unknown, 'real', bounds='4 names', functions=F))
    o.append(Ob('matrix parameters', matrices, 'real', bounds='5 shapes', functions=F))
    return o
