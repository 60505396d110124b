from daecommon import *

F = ['collocation.CollocationScheme.combine', 'collocation.CollocationScheme.__init__', 'structure3.MXVeccatStruct', 'structure3.CasadiStructureDerivable.__call__']
ASSUMPTIONS = ['Right-hand sides are uninterpreted functions of all their arguments.']
PARTS = ['K', 'x', 'Z', 'U', 'u', 'p', 'eq', 'q']
FREE = ['K', 'x', 'Z', 'u', 'p']


def some(S, names, k):
    """any list of up to k different names"""
    out, left = [], list(names)
    for i in range(k):
        n = S.choice('part%d' % i, left + ([] if i == 0 else [None]))
        if n is None:
            break
        out.append(n)
        left.remove(n)
    return out


def make(S, M, d, grids, order):
    m = Model(M, **d)
    t = S.choice('grid', grids)
    kw = dict(repeat_param=True) if d.get('np') and S.choice('repeat', [False, True]) else {}
    s = M.CollocationScheme(m.dae, t, order, **kw)
    return m, s


def body(S, M, d, grids, order, k):
    """the combination is the stack of the parts, each readable under its name with its shape"""
    m, s = make(S, M, d, grids, order)
    parts = some(S, PARTS, k)
    # other combinations made before do not matter
    for before in (parts[::-1], parts[1:], parts + [n for n in PARTS if n not in parts][:1]) if len(parts) > 1 else ():
        s.combine(before)
    w = s.combine(parts)
    S.true(list(w.keys()) == parts, 'names of the parts')
    vs = [getattr(s, n) for n in FREE]
    a = [S.reals('v_%s_' % n, v.numel()) for n, v in zip(FREE, vs)]
    own = [cs.vertcat(s.eq) if n == 'eq' else getattr(s, n) for n in parts]
    f = cs.Function('f', vs, [cs.vertcat(w)] + [w[n] for n in parts])
    r, r2 = S.call(f, a), S.call(cs.Function('f', vs, own), a)
    S.eq_all(r[0], flat(r2), 'flat vector')
    for i, n in enumerate(parts):
        S.true(tuple(w[n].shape) == tuple(own[i].shape), 'part %s: shape' % n)
        S.eq_all(r[i + 1], r2[i], 'part ' + n)
    # a vector of that length can be split in the same way
    n = sum(v.numel() for v in own)
    S.true(tuple(w.shape) == (n, 1), 'size')
    y = S.mx('y', n)
    Y = S.elems(y)
    z = w(y)
    at = 0
    for i, nm in enumerate(parts):
        S.true(tuple(z[nm].shape) == tuple(own[i].shape), 'part %s of a vector: shape' % nm)
        S.eq_all(S.elems(z[nm]), Y[at:at + own[i].numel()], 'part %s of a vector' % nm)
        at += own[i].numel()


def unknowns(S, M, d, grids, order):
    """combinations of variables can be inputs of a function"""
    m, s = make(S, M, d, grids, order)
    parts = some(S, FREE, 5)
    w = s.combine(parts)
    rest = [n for n in FREE if n not in parts]
    f = cs.Function('f', [cs.vertcat(w)] + [getattr(s, n) for n in rest], [getattr(s, n) for n in FREE] + [cs.vertcat(s.eq)])
    v = {n: S.reals('v_%s_' % n, getattr(s, n).numel()) for n in FREE}
    r = S.call(f, [flat([v[n] for n in parts])] + [v[n] for n in rest])
    for n, x in zip(FREE, r):
        S.eq_all(x, v[n], 'variable ' + n)
    g = cs.Function('g', [getattr(s, n) for n in FREE], [cs.vertcat(s.eq)])
    S.eq_all(r[-1], S.call(g, [v[n] for n in FREE])[0], 'equations', TOL)


def refused(S, M):
    m = Model(M, nx=1, np=1)
    s = M.CollocationScheme(m.dae, [0., 1.], 1)
    good = S.choice('good', [[], ['x'], ['x', 'K']])
    bad = S.choice('bad', ['nonsense', 'k', '_x', 'x ', 'xK'])
    i = S.choice('position', list(range(len(good) + 1)))
    S.raises(lambda: s.combine(good[:i] + [bad] + good[i:]), 'part %s accepted' % bad)


def obligations(tier):
    th = tier == 'thorough'
    ds = [dict(nx=2, nz=1, nu=1, np=2, nq=1), dict(nx=1, nz=2, nu=2, np=1, nq=2)] + ([dict(nx=3, nz=1, nu=1, np=1, ntdp=0, nq=1)] if th else [])
    o = []
    for k, d in enumerate(ds):
        o.append(Ob('combined, dims %d' % k, body, 'real', bounds='dims %s, any list of up to %d of 8 parts' % (d, 3 if th or k == 0 else 2), functions=F, params=dict(d=d, grids=GRIDS[k + 1:k + 2] if not th else GRIDS[:3], order=2 if k else 1, k=3 if th or k == 0 else 2), validate=20, seconds=300 if not th else 2000))
        o.append(Ob('unknowns, dims %d' % k, unknowns, 'real', bounds='dims %s, any order of any of the 5 variables' % d, functions=F, params=dict(d=d, grids=GRIDS[1:2], order=2 if k else 1), validate=20, seconds=200))
    o.append(Ob('part missing from the model', body, 'real', bounds='model without algebraic states, inputs and parameters, any list of up to 2 parts', functions=F, params=dict(d=dict(nx=2), grids=GRIDS[:2], order=2, k=2), validate=20))
    o.append(Ob('refused', refused, 'real', bounds='5 names', functions=F[:1]))
    return o
