from structcommon import *

F = ['structure3.delegation', 'structure3.performExtraIndex', 'structure3.IndexDelegater.__call__', 'structure3.FlatIndexDelegater.__call__', 'structure3.DelegaterConstructor.__getitem__', 'structure3.CasadiStructEntry.__init__', 'structure3.GetterDispatcher.__call__', 'structure3.SetterDispatcher.__call__',
     'structure3.CasadiStructure.FlatIndexDispatcher', 'structure3.CasadiStructure.IMDispatcher']
ASSUMPTIONS = ['Contents and assigned values are arbitrary real numbers (symbols).',
               'In encoding dms the class DM holds symbols instead of floats; replays use real DM matrices.',
               'A single index is used only for entries with one column (otherwise it is a position in the column-major matrix).']
K = {'DM': 'dms', 'SX': 'ints', 'MX': 'ints', 'symSX': 'ints', 'symMX': 'ints'}

R3 = Def('x2 y1', [E('x', 2), E('y')])
C4 = Def('a1 p3', [E('a'), E('p', sub=PT)])
G5 = Def('grouped', [(E('x', repeat=2), E('u', 2, repeat=1)), E('z')])
O6 = Def('ordered', [E('x', (2, 2)), E('y', repeat=2)], order=['y', 'x'])
SP = cs.Sparsity(3, 4, [0, 2, 3, 3, 6], [0, 2, 1, 0, 1, 2])


def layouts(th):
    d = [('both', E('m', ss=(R3, C4))), ('repeated', E('m', ss=(R3, R3), repeat=2)), ('rows only', E('m', ss=(O6, 2))), ('columns only', E('m', ss=(2, G5))), ('sparse', E('m', SP, ss=(R3, C4)))]
    if th:
        d += [('square', E('m', ss=(G5, G5))), ('repeated grouped', E('m', ss=(G5, R3), repeat=2)), ('ordered', E('m', ss=(O6, O6))), ('two repetitions', E('m', ss=(R3, R3), repeat=[2, 2])), ('deep', E('m', ss=(DEEP, R3)))]
    return d


def parts(e):
    return [d if isinstance(d, Def) else None for d in e.ss]


def index(S, M, e, tag, more=True):
    """rows and columns of the entry, and the index of the repetition"""
    pre = [S.int('%sk%d' % (tag, q), -n, n - 1) for q, n in enumerate(e.dims)]
    r, c = axes(S, M, parts(e)[0], e.rc[0], parts(e)[1], e.rc[1], tag, more)
    return pre, r, c


def target(D, e, pre, r, c):
    a = D.flat[('m',) + tuple(int(k) % n for k, n in zip(pre, e.dims))]
    return a[np.ix_(r.pos, c.pos)]


def read(S, M, e, kind):
    D = Def('described', [E('v', 2), e, E('w')])
    s, V = make(S, M, D, kind)
    pre, r, c = index(S, M, e, '')
    got = s[tuple(['m'] + pre + [r.value, c.value])]
    same(S, got, target(D, e, pre, r, c), V, 'read %s, %s' % (r, c))
    if e.dims and len(e.dims) == 1:
        same(S, s['m', :, r.value, c.value], [target(D, e, [k], r, c) for k in range(e.dims[0])], V, 'all of %s, %s' % (r, c))


def write(S, M, e, kind):
    D = Def('described', [E('v', 2), e, E('w')])
    s, V = make(S, M, D, kind)
    pre, r, c = index(S, M, e, '', more=False)
    t = target(D, e, pre, r, c)
    S.assume(t.size > 0 and len(set(r.pos)) == len(r.pos))
    sparse = (t < 0).any()
    full = not sparse and S.choice('full', [True, False])
    w = content(S, kind, 'w', *(t.shape if full else (1, 1)))
    W = S.elems(w)
    V = list(V)
    for q, k in enumerate(t.reshape(-1, order='F')):
        if k >= 0:
            V[k] = W[q if full else 0]
    s[tuple(['m'] + pre + [r.value, c.value])] = w
    S.eq_all(S.elems(s.cat), V, 'contents after writing %s, %s' % (r, c))
    same(S, s[tuple(['m'] + pre + [r.value, c.value])], t, V, 'read back %s, %s' % (r, c))
    for k in D.keys:
        same(S, s[k], Ref(D).get([k]), V, 'entry %s after writing %s, %s' % (k, r, c))


def vector(S, M, Q, kind, single):
    """one column described by a structure"""
    e = E('m', ss=(Q,) if single else (Q, 1))
    D = Def('described', [E('v', 2), e])
    s, V = make(S, M, D, kind)
    r = axis(S, M, Q, Q.n, 'row')
    two = S.choice('two indices', [False, True])
    idx = ('m', r.value) + ((ALL,) if two else ())
    t = D.flat[('m',)][r.pos]
    got = s[idx]
    S.true(tuple(got.shape) == t.shape or got.numel() == t.size and not two, 'shape')
    S.eq_all(S.elems(got), [V[k] for k in t.reshape(-1)], 'read %s' % r)
    if kind in ('DM', 'SX', 'MX'):
        w = content(S, kind, 'w', 1)
        s[idx] = w
        V = list(V)
        for k in t.reshape(-1):
            V[k] = S.elems(w)[0]
        S.eq_all(S.elems(s.cat), V, 'contents after writing %s' % r)


def shape(S, M):
    """the entry has the dimensions of the describing structures"""
    q = [R3, C4, G5, O6, 1, 3]
    a, b = S.choice('rows', q), S.choice('columns', q + [None])
    single = b is None
    st = [x if x is None or isinstance(x, int) else x.build(M) for x in (a, b)]
    if single:
        S.assume(not isinstance(a, int))
        arg = S.choice('form', [st[0], (st[0],)])
    else:
        arg = tuple(st)
    s = M.struct([M.entry('m', shapestruct=arg)])
    n = [x if isinstance(x, int) else 1 if x is None else x.n for x in (a, b)]
    S.true(s.size == n[0] * n[1], 'size')
    S.true(tuple(s(0)['m'].shape) == tuple(n), 'shape')


def described(S, M):
    """any structured object describes rows and columns, with every combination of the other options"""
    def some(D, kind):
        if kind.startswith('sym'):
            return D.build(M, 'struct_' + kind)
        q = D.build(M)
        return q if kind == 'struct' else q.struct if kind == 'its structure' else q(cs.DM.zeros(D.n))
    kinds = ['struct', 'its structure', 'symSX', 'symMX', 'DM']
    a, b = some(R3, S.choice('rows', kinds)), some(C4, S.choice('columns', kinds))
    shape = S.choice('shape', [None, SP, (3, 4), cs.Sparsity.dense(3, 4)])
    rep = S.choice('repeat', [None, 1, 2, [2, 2]])
    e = E('m', shape, ss=(R3, C4), repeat=rep)
    D = Def('described', [E('v', 2), e, E('w')])
    kw = {} if shape is None else {'shape': shape}
    if rep is not None:
        kw['repeat'] = rep
    s = M.struct([M.entry('v', shape=2), M.entry('m', shapestruct=(a, b), **kw), M.entry('w')])
    S.true(s.size == D.n, 'size')
    d = s(S.sxvec('v', D.n))
    V = S.elems(d.cat)
    for k in D.keys:
        same(S, d[k], Ref(D).get([k]), V, k)
    for c in D.flat:
        if c[0] == 'm':
            same(S, d[c + ('x', 'p')], D.flat[c][0:2, 1:4], V, 'part of %s' % (c,))
            same(S, d[c + ('y', 'a')], D.flat[c][2:3, 0:1], V, 'part of %s' % (c,))


def refused(S, M, kind):
    """names and delayed indices without a describing structure"""
    D = Def('mixed', [E('n', (3, 4)), E('r', ss=(R3, 4)), E('c', ss=(3, C4)), E('m', ss=(R3, C4)), E('s', (3, 3), symm=True), E('o', ss=(R3,))])
    s, V = make(S, M, D, kind)
    i, x = M.index, M.indexf
    tok = S.choice('token', ['name', 'names', 'index', 'flat', 'unknown', 'unknown list', 'unknown delayed'])
    row = {'name': 'x', 'names': ['x', 'y'], 'index': i['x'], 'flat': x['x'], 'unknown': 'q', 'unknown list': ['x', 'q'], 'unknown delayed': x['q']}[tok]
    col = {'name': 'p', 'names': ['a', 'p'], 'index': i['p'], 'flat': x['p'], 'unknown': 'q', 'unknown list': ['a', 'q'], 'unknown delayed': i['q']}[tok]
    cases = [('n', row, 0), ('n', 0, col), ('n', row), ('n', row, col), ('r', 0, col), ('r', row, col), ('c', row, 0), ('c', row, ALL), ('c', row), ('s', row, 0), ('s', 0, row), ('o', 0, row)]
    if 'unknown' in tok:
        cases += [('m', row, 0), ('m', 0, col), ('m', row, col), ('r', row, 0), ('c', 0, col), ('o', row)]
    else:
        # names of the other axis
        cases += [('m', col, 0), ('m', 0, row), ('m', col, row), ('o', col)] if 'name' in tok else []
    idx = S.choice('index', cases)
    S.raises(lambda: s[idx], 'read of %s accepted' % (idx,))
    if kind in ('DM', 'SX', 'MX'):
        w = content(S, kind, 'w', 1)
        S.raises(lambda: s.__setitem__(idx, w), 'write to %s accepted' % (idx,))
    S.eq_all(S.elems(s.cat), V, 'contents')


def obligations(tier):
    th = tier == 'thorough'
    o = []
    sec = 300 if th else 60
    L = layouts(th)
    for q, kind in enumerate(K):
        for k, (n, e) in enumerate(L):
            if th or kind == 'DM' or (k + q) % 2 == 0:
                o.append(Ob('read %s, %s' % (n, kind), read, K[kind], bounds='all contents, listed rows and columns', functions=F, params=dict(e=e, kind=kind), validate=4, window=20, seconds=sec))
                if not kind.startswith('sym'):
                    o.append(Ob('write %s, %s' % (n, kind), write, K[kind], bounds='all contents and values, listed rows and columns', functions=F, params=dict(e=e, kind=kind), validate=4, window=20, seconds=sec))
        for Q in (R3, G5) + ((C4, O6) if th else ()):
            for single in (True, False):
                o.append(Ob('column %s %s, %s' % (Q.name, single, kind), vector, K[kind], bounds='all contents and values', functions=F, params=dict(Q=Q, kind=kind, single=single), validate=4, window=20))
        o.append(Ob('refused, %s' % kind, refused, K[kind], bounds='7 forms of index, 16 places', functions=F, params=dict(kind=kind), validate=6))
    o.append(Ob('described', described, 'ints', bounds='5 kinds of describing objects on each axis, 4 shapes, 4 repetitions', functions=F, validate=10))
    o.append(Ob('dimensions', shape, 'ints', bounds='6 describing structures or numbers on each axis', functions=F, validate=10))
    return o
