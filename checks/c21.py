from daecommon import *

F = ['dae_model.parallel', 'structure3.struct_MX', 'dae_model.SemiExplicitDae.__init__']
DIMS = [dict(nx=1), dict(nx=2, nz=1, nu=1, np=2, nq=1), dict(nx=1, nu=2), dict(nx=3, nz=2, nq=2), dict(nx=1, np=1, nq=1, nz=1, nu=1)]
A = ['x', 'z', 'u', 'p']


def body(S, M, count, part=None, dims=DIMS):
    k = [S.choice('model%d' % i, range(len(dims)) if part is None or i else part) for i in range(count)]
    ms = [Model(M, t=False, tag='_%d' % i, omit=bool((i + k[i]) % 2), **dims[j]) for i, j in enumerate(k)]
    cont = S.choice('container', [list, tuple])
    M.parallel([m.dae for m in ms[::-1]])
    M.parallel([m.dae for m in ms])
    d = M.parallel(cont(m.dae for m in ms))
    S.true(isinstance(d, M.SemiExplicitDae), 'class')
    tot = lambda a: sum(getattr(m, a) for m in ms)
    S.true((d.nx, d.nz, d.nu, d.np, d.nq) == tuple(tot(a) for a in ('nx', 'nz', 'nu', 'np', 'nq')), 'dimensions')
    if (d.nx, d.nz, d.nu, d.np, d.nq) != tuple(tot(a) for a in ('nx', 'nz', 'nu', 'np', 'nq')):
        return
    S.true(cs.vertcat(d.ode).numel() == tot('nx') and cs.vertcat(d.alg).numel() == tot('nz'), 'number of equations')
    if cs.vertcat(d.ode).numel() != tot('nx') or cs.vertcat(d.alg).numel() != tot('nz'):
        return
    f = cs.Function('f', [cs.vertcat(getattr(d, a)) if False else getattr(d, a) for a in A], [cs.vertcat(d.ode), cs.vertcat(d.alg), cs.vertcat(d.quad)])
    v = [{a: S.reals('%s%d_' % (a, i), m.dims[a]) for a in A} for i, m in enumerate(ms)]
    ode, alg, quad = S.call(f, [flat([w[a] for w in v]) for a in A])
    io = ia = iq = 0
    for i, (m, w) in enumerate(zip(ms, v)):
        w = dict(w, xdot=[0] * m.nx, t=[0], tdp=[])
        o2, a2 = S.call(m.rhs_f, [w[n] for n in NAMES])
        S.eq_all(ode[io:io + m.nx], o2, 'ode of model %d' % i, TOL)
        S.eq_all(alg[ia:ia + m.nz], a2, 'alg of model %d' % i, TOL)
        S.eq_all(quad[iq:iq + m.nq], m.quad(S, **w), 'quad of model %d' % i, TOL)
        io, ia, iq = io + m.nx, ia + m.nz, iq + m.nq


def many_body(S, M, count):
    """many small models"""
    shift = S.choice('shift', range(3))
    d = [[dict(nx=1, nu=1), dict(nx=1, np=1), dict(nx=1, nz=1, nq=1)][(i + shift) % 3] for i in range(count)]
    ms = [Model(M, t=False, tag='_%d' % i, **e) for i, e in enumerate(d)]
    p = M.parallel([m.dae for m in ms])
    S.true((p.nx, p.nz, p.nu, p.np, p.nq) == tuple(sum(getattr(m, a) for m in ms) for a in ('nx', 'nz', 'nu', 'np', 'nq')), 'dimensions')
    f = p.createFunction('f', A, ['ode', 'alg', 'quad'])
    v = [{a: S.reals('%s%d_' % (a, i), m.dims[a]) for a in A} for i, m in enumerate(ms)]
    got = S.call(f, [flat([w[a] for w in v]) for a in A])
    full = [dict(w, xdot=[0], t=[0], tdp=[]) for w in v]
    rhs = [S.call(m.rhs_f, [w[n] for n in NAMES]) for m, w in zip(ms, full)]
    S.eq_all(got[0], flat([r[0] for r in rhs]), 'ode', TOL)
    S.eq_all(got[1], flat([r[1] for r in rhs]), 'alg', TOL)
    S.eq_all(got[2], flat([m.quad(S, **w) for m, w in zip(ms, full)]), 'quad', TOL)


def implicit_body(S, M):
    """the connection can be converted to implicit form"""
    i, j = S.choice('first', range(len(DIMS))), S.choice('second', range(len(DIMS)))
    ms = [Model(M, t=False, tag='_%d' % n, **DIMS[q]) for n, q in enumerate((i, j))]
    d = M.parallel([m.dae for m in ms]).makeImplicit()
    f = d.createFunction('f', ['xdot'] + A, ['dae', 'quad'])
    v = [{a: S.reals('%s%d_' % (a, n), m.dims[a]) for a in ['xdot'] + A} for n, m in enumerate(ms)]
    r, q = S.call(f, [flat([w[a] for w in v]) for a in ['xdot'] + A])
    want = []
    full = [dict(w, t=[0], tdp=[]) for w in v]
    res = [m.residual(S, **w) for m, w in zip(ms, full)]
    want = [e for m, e_ in zip(ms, res) for e in e_[:m.nx]] + [e for m, e_ in zip(ms, res) for e in e_[m.nx:]]
    same_equations(S, r, want, 'equation')
    S.eq_all(q, flat([m.quad(S, **w) for m, w in zip(ms, full)]), 'quadrature', TOL)


def obligations(tier):
    th = tier == 'thorough'
    o = [Ob('%d models' % n, body, 'real', bounds='%d models, 5 tuples of dimensions' % n, functions=F, params=dict(count=n), validate=15, seconds=120) for n in (1, 2)]
    o += [Ob('3 models %d' % k, body, 'real', bounds='3 models, 5 tuples of dimensions', functions=F, params=dict(count=3, part=[k]), validate=6, seconds=120) for k in (range(5) if th else (0, 1, 3))]
    if th:
        o += [Ob('4 models', body, 'real', bounds='4 models, first one fixed', functions=F, params=dict(count=4, part=[1]), validate=6, seconds=600)]
    o += [Ob('%d models' % n, many_body, 'real', bounds='%d models with 1 state each' % n, functions=F, params=dict(count=n), validate=3, seconds=120) for n in ((5, 12, 30) if th else (5, 12))]
    o += [Ob('large models', body, 'real', bounds='2 models, one with 9 states', functions=F, params=dict(count=2, dims=[BIG, DIMS[1]]), validate=6),
          Ob('absent parts', body, 'real', bounds='2 models, all combinations of absent and present parts', functions=F, params=dict(count=2, dims=[d for d in PARTS if not d['ntdp']]), validate=10)]
    return o + [Ob('implicit form', implicit_body, 'real', bounds='2 models', functions=F, validate=10)]
