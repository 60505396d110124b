import casadi as cs
from common import *

F = ['dae_model.Dae.__init__', 'dae_model.SemiExplicitDae.__init__', 'dae_model.ImplicitDae.__init__', 'dae_model.Dae.nx', 'dae_model.Dae.nz', 'dae_model.Dae.nu', 'dae_model.Dae.np', 'dae_model.Dae.ntdp', 'dae_model.Dae.nq']
ASSUMPTIONS = ['Quantities are stand-ins with symbolic numbers of rows and columns and a symbolic "purely symbolic" attribute; replays use real CasADi matrices with these sizes.']


class Quantity:
    """r x c quantity, purely symbolic or not"""

    def __init__(self, r, c, valid):
        self.r, self.c, self.valid = r, c, valid

    def is_column(self): return self.c == 1
    def is_row(self): return self.r == 1
    def is_scalar(self, *a): return (self.r == 1) & (self.c == 1) if not isinstance(self.r == 1, bool) else self.r == 1 and self.c == 1
    def is_valid_input(self): return self.valid
    def is_symbolic(self): return self.valid
    def is_vector(self): return (self.r == 1) | (self.c == 1)
    def numel(self): return self.r * self.c
    def nnz(self): return self.r * self.c
    def size1(self): return self.r
    def size2(self): return self.c
    def rows(self): return self.r
    def columns(self): return self.c
    def size(self, k=None): return (self.r, self.c) if k is None else (self.r, self.c)[k - 1]

    @property
    def shape(self): return (self.r, self.c)


def quantity(S, name, check_valid=True, big=4):
    r, c = S.int(name + '_rows', 0), S.int(name + '_cols', 0)
    if S.symbolic:
        S.nice_c += [r.e <= big, c.e <= big]
    v = S.bool(name + '_symbolic') if check_valid else True
    if check_valid:
        # an empty matrix has no non-symbolic element
        if S.symbolic:
            import z3
            S.assume_z(z3.Or(v.e, z3.And(r.e > 0, c.e > 0)))
        else:
            S.assume(v or r * c > 0)
    if S.symbolic:
        return Quantity(r, c, v), r, c, v
    q = cs.MX.sym(name, r, c)
    return (q if v else 2 * q), r, c, v


def body(S, M, implicit, present):
    kw, ok, num = {}, [], {}
    for k in ['x'] + list(present):
        q, r, c, v = quantity(S, k, k != 'quad')
        kw[k] = q
        num[k] = r * c
        if k in ('x', 'z', 'u'):
            ok += [c == 1, v]
        elif k in ('p', 'tdp'):
            ok += [v]
        elif k == 't':
            ok += [r == 1, c == 1, v]
    n = lambda k: num.get(k, 0)
    eqs = ['xdot', 'dae'] if implicit else ['ode'] + (['alg'] if S.choice('with_alg', [True, False]) else [])
    for k in eqs:
        q, r, c, v = quantity(S, k, False)
        kw[k] = q
        num[k] = r * c
        ok.append(c == 1)
    if implicit:
        ok += [num['x'] == num['xdot'], num['dae'] == n('z') + num['xdot']]
    else:
        ok += [num['x'] == num['ode'], n('alg') == n('z')]
    cls = M.ImplicitDae if implicit else M.SemiExplicitDae
    good = all(bool(c) for c in ok)
    if not good:
        S.cover('refused')
        S.raises(lambda: cls(**kw), 'inconsistent definition accepted')
        return
    S.cover('accepted')
    d = cls(**kw)
    for a, k in (('nx', 'x'), ('nz', 'z'), ('nu', 'u'), ('np', 'p'), ('ntdp', 'tdp'), ('nq', 'quad')):
        S.true(getattr(d, a) == n(k), 'reported dimension ' + a)
    for k in kw:
        a, b = getattr(d, k).shape, kw[k].shape
        S.true(a[0] == b[0], 'quantity ' + k)
        S.true(a[1] == b[1], 'quantity ' + k)


def real_body(S, M, implicit):
    """real CasADi quantities: sizes forked, kinds MX, SX and structures"""
    typ = S.choice('type', ['MX', 'SX', 'struct'])
    bad = S.choice('bad', ['none', 'x', 'z', 'u', 'p', 't', 'tdp', 'eq', 'eqcol', 'alg', 't2', 'xcol', 'ucol', 'zcol'])
    nx, nz = S.choice('sizes', [(1, 1), (2, 1), (3, 2)])
    T = cs.SX if typ == 'SX' else cs.MX
    s = dict(x=(nx, 1), z=(nz, 1), u=(2, 1), p=(2, 2), t=(1, 1), tdp=(1, 3))
    if bad == 't2':
        s['t'] = (2, 1)
    for k in 'xuz':
        if bad == k + 'col':
            s[k] = (1, 2) if k != 'z' else (1, 3)
    q = {k: T.sym(k, *v) for k, v in s.items()}
    if typ == 'struct':
        if bad != 'xcol':
            q['x'] = M.struct_symMX([M.entry('a'), M.entry('b', shape=nx - 1)]) if nx > 1 else M.struct_symMX(['a'])
        if bad != 'ucol':
            q['u'] = M.struct_symMX(['a', 'b'])
    if bad in q:
        q[bad] = 2 * (q[bad] if isinstance(q[bad], (cs.MX, cs.SX)) else q[bad].cat)
    n = s['x'][0] * s['x'][1] + (1 if bad == 'eq' else 0)
    nza = s['z'][0] * s['z'][1] + (1 if bad == 'alg' else 0)
    if implicit:
        q['xdot'] = T.sym('xdot', s['x'][0] * s['x'][1])
        q['dae'] = T.ones(n + nza) if bad != 'eqcol' else T.ones(1, n + nza)
        cls = M.ImplicitDae
    else:
        q['ode'] = T.ones(n) if bad != 'eqcol' else T.ones(1, n + (0 if n > 1 else 1))
        q['alg'] = T.ones(nza)
        cls = M.SemiExplicitDae
    q['quad'] = T.ones(3)
    if bad == 'none' and typ != 'struct':
        # structural zeros count as elements
        for k in ('z', 'p', 'u', 'tdp'):
            if S.choice('sparse ' + k, [False, True]):
                r, c = q[k].shape
                q[k] = T.sym(k, cs.Sparsity(r, c, [0] + [1] * c, [0]))
        if S.choice('sparse quad', [False, True]):
            q['quad'] = T(cs.Sparsity(3, 1, [0, 1], [1]), 1)
    S.cover(bad)
    if bad == 'none':
        d = cls(**q)
        S.true((d.nx, d.nz, d.nu, d.np, d.ntdp, d.nq) == (nx, nz, 2, 4, 3, 3), 'dimensions')
        e = cls(**{k: v for k, v in q.items() if k not in ('u', 'p', 'tdp', 'quad')})
        S.true((e.nu, e.np, e.ntdp, e.nq) == (0, 0, 0, 0), 'dimensions of omitted quantities')
    else:
        S.raises(lambda: cls(**q), 'inconsistent definition accepted: ' + bad)


def parts_body(S, M, implicit):
    """quantities put together from symbols or expressions with struct_MX"""
    which = S.choice('quantity', ['x', 'z', 'u', 'p', 'tdp'])
    n = S.choice('parts', [1, 2, 3])
    bad = S.choice('expression', [None] + list(range(n)))
    ex = [cs.MX.sym('s%d' % k, 1 + k % 2) for k in range(n)]
    if bad is not None:
        ex[bad] = 2 * ex[bad]
    s = dict(x=2, z=1, u=2, p=3, tdp=1)
    q = {k: cs.MX.sym(k, m) for k, m in s.items()}
    q['t'] = cs.MX.sym('t')
    q[which] = M.struct_MX([M.entry('s%d' % k, expr=e) for k, e in enumerate(ex)])
    s[which] = sum(e.numel() for e in ex)
    if implicit:
        q.update(xdot=cs.MX.sym('xdot', s['x']), dae=cs.MX.ones(s['x'] + s['z']))
    else:
        q.update(ode=cs.MX.ones(s['x']), alg=cs.MX.ones(s['z']))
    cls = M.ImplicitDae if implicit else M.SemiExplicitDae
    if bad is None:
        d = cls(**q)
        S.true((d.nx, d.nz, d.nu, d.np, d.ntdp) == (s['x'], s['z'], s['u'], s['p'], s['tdp']), 'dimensions')
    else:
        S.raises(lambda: cls(**q), '%s with an expression accepted' % which)


def obligations(tier):
    th = tier == 'thorough'
    opt = ['z', 'u', 'p', 't', 'quad', 'tdp']
    sets = [[], ['z'], ['u'], ['p'], ['t'], ['tdp'], ['z', 'u'], ['z', 'quad'], ['p', 't', 'tdp'], opt]
    if th:
        sets = [[o for k, o in enumerate(opt) if m >> k & 1] for m in range(64)]
    o = []
    for imp in (False, True):
        nm = 'implicit' if imp else 'semi-explicit'
        o += [Ob('%s with %s' % (nm, ' '.join(s) or 'x only'), body, 'ints', bounds='all sizes (unbounded integers)', functions=F, params=dict(implicit=imp, present=s), validate=10) for s in sets]
        o.append(Ob('%s real quantities' % nm, real_body, 'real', bounds='3 size pairs, 13 kinds of inconsistency, MX, SX, structures', functions=F, params=dict(implicit=imp), validate=20))
        o.append(Ob('%s quantities in parts' % nm, parts_body, 'real', bounds='up to 3 parts, any of them an expression', functions=F + ['structure3.MXVeccatStruct.is_valid_input'], params=dict(implicit=imp), validate=20))
    return o
