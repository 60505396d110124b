from structcommon import *

F = ['structure3.CasadiStructureDerivable.__call__', 'structure3.CasadiStructureDerivable.argtype', 'structure3.CasadiStructureDerivable.parseMatrix', 'structure3.MatrixStruct.__init__', 'structure3.DMStruct.__init__', 'structure3.SXStruct.__init__', 'structure3.MXStruct.__init__']
ASSUMPTIONS = ['Values are arbitrary real numbers (symbols); CasADi\'s own conversions of lists and arrays are trusted.',
               'In encoding dms the class DM holds symbols instead of floats; replays use real DM matrices and floats.']


def numbers(S, v):
    """elements of a numeric matrix as a list of Python numbers (symbols standing for them)"""
    return [v[k] if S.symbolic else float(v[k]) for k in range(v.numel())]


def entries(S, M, D, s, V, label):
    S.eq_all(S.elems(s.cat), V, label + ': contents')
    for k in D.keys:
        same(S, s[k], Ref(D).get([k]), V, '%s: %s' % (label, k))


def vector(S, M, D, kind):
    st = D.build(M)
    v = content(S, kind, 'v', D.n)
    V = S.elems(v)
    form = S.choice('form', ['matrix', 'struct'] + (['list', 'array', 'column array', 'nested list'] if kind == 'DM' and D.n > 1 else []))
    if form == 'struct':
        # data of another structure of the same length
        v = M.struct([M.entry('q', shape=D.n)])(v)
        if kind == 'DM':
            s = st(v)
        else:
            s = st(v.cat)
    elif form == 'matrix':
        s = st(v)
    else:
        l = numbers(S, v)
        s = st({'list': lambda: l, 'array': lambda: np.array(l, dtype=object if S.symbolic else float), 'nested list': lambda: [[x] for x in l],
                'column array': lambda: np.array(l, dtype=object if S.symbolic else float).reshape(-1, 1)}[form]())
    S.true(s.size == D.n and tuple(s.cat.shape) == (D.n, 1), 'dimensions')
    entries(S, M, D, s, V, 'cast of %s' % form)


def scalar(S, M, D):
    form = S.choice('form', ['matrix', 'number', 'nothing'])
    st = D.build(M)
    a = S.dm('a', 1)
    if form == 'nothing':
        s, V = st(), [0] * D.n
    else:
        s = st(a if form == 'matrix' else numbers(S, a)[0])
        V = S.elems(a) * D.n
    S.true(tuple(s.cat.shape) == (D.n, 1), 'dimensions')
    entries(S, M, D, s, V, 'cast of a scalar')


def tree(S, t, name, V, sc, deep):
    """a value for the reference tree t; records the expected contents"""
    if sc:
        m = S.dm(name, 1)
        for a in leaves(t):
            for k in a.reshape(-1):
                if k >= 0:
                    V[k] = S.elems(m)[0]
        return m
    if isinstance(t, list):
        return [tree(S, x, '%s_%d' % (name, k), V, deep, False) for k, x in enumerate(t)]
    m = S.dm(name, *t.shape)
    f = t.reshape(-1, order='F')
    for k, w in zip(f, S.elems(m)):
        if k >= 0:
            V[k] = w
    if (f < 0).any():
        cells = [(q % t.shape[0], q // t.shape[0]) for q in range(t.size) if f[q] >= 0]
        m = cs.project(m, cs.Sparsity.triplet(t.shape[0], t.shape[1], [c[0] for c in cells], [c[1] for c in cells]))
    return m


def leaves(t):
    return [t] if not isinstance(t, list) else [x for v in t for x in leaves(v)]


def dictionary(S, M, D):
    st = D.build(M)
    V = [None] * D.n
    d = {}
    keys = D.keys if S.choice('sorted', [True, False]) else D.keys[::-1]
    for k in keys:
        t = Ref(D).get([k])
        sc = S.choice('scalar ' + k, [True, False])
        d[k] = tree(S, t, k, V, sc, isinstance(t, list) and not sc and S.choice('scalars in list ' + k, [False, True]))
    e = dict(d)
    s = st(d)
    entries(S, M, D, s, V, 'cast of a dictionary')
    # the dictionary can be used again
    S.true(list(d) == list(e) and all(d[k] is e[k] for k in e), 'dictionary left as it was')
    entries(S, M, D, st(d), V, 'second cast of a dictionary')


def wrong_keys(S, M, D):
    st = D.build(M)
    has = {k: S.choice('has ' + k, [True, False]) for k in D.keys}
    more = S.choice('additional', [None, 'other', 'X', 0, D.keys[0] + ' '])
    S.assume(more is not None or not all(has.values()))
    d = {k: S.dm(k, 1) for k in D.keys if has[k]}
    if more is not None:
        d[more] = S.dm('more', 1)
    S.raises(lambda: st(d), 'keys %s accepted' % list(d))


def wrong_shape(S, M):
    D = Def('plain', [E('x', 3), E('y', (2, 3)), E('z'), E('p', sub=PT), E('r', 2, repeat=2)])
    st = D.build(M)
    d = {k: S.dm(k, 1) for k in D.keys}
    k = S.choice('key', D.keys)
    sh = {'x': (3, 1), 'y': (2, 3), 'z': (1, 1), 'p': (3, 1), 'r': (2, 1)}[k]
    n = sh[0] * sh[1]
    bad = S.choice('shape', [(n + 1, 1), (n - 1 if n > 2 else n + 3, 1), (n, 2), (sh[0] + 1, sh[1]), (sh[0], sh[1] + 1), (1, n + 1)])
    S.assume(bad != (1, 1) and bad not in (sh, sh[::-1]) and bad[0] * bad[1] != n)
    w = S.dm('w', *bad)
    d[k] = w if k != 'r' else [S.dm('r1', 2), w] if S.choice('second', [True, False]) else [w, w]
    S.raises(lambda: st(d), 'shape %s accepted for %s' % (bad, k))


def parse(S, M, D, N):
    st = D.build(M)
    data = S.dm('m', D.n, N)
    V = np.array(S.elems(data), dtype=object).reshape((D.n, N), order='F')
    obj = np.empty((D.n, N), dtype=object if S.symbolic else float)
    for i in range(D.n):
        for j in range(N):
            obj[i, j] = data[i, j] if S.symbolic else float(data[i, j])
    form = S.choice('form', ['array'] + (['row'] if D.n == 1 else []))
    # an object array stands for the numeric matrix; replays use both
    for a in [obj if form == 'array' else obj[0]] + ([] if S.symbolic else [data]):
        parsed(S, D, N, V, st.parseMatrix(a))


def parsed(S, D, N, V, r):
    S.true(set(r) == set(D.keys), 'keys')
    for k in D.keys:
        if k not in r or D.entries[k].dims:
            continue
        a = Ref(D).get([k])
        S.true(tuple(r[k].shape) == (a.shape[0], a.shape[1] * N), 'shape of %s' % k)
        if tuple(r[k].shape) == (a.shape[0], a.shape[1] * N):
            S.eq_all(S.elems(r[k]), [V[q, j] if q >= 0 else 0 for j in range(N) for q in a.reshape(-1, order='F')], 'columns of %s' % k)


def mixed(S, M, r, c, q):
    """arbitrary shapes of two entries"""
    D = Def('shapes', [E('x', (r, c)), E('y', q)])
    parse(S, M, D, 2)


def obligations(tier):
    th = tier == 'thorough'
    o = []
    ds = definitions(tier)
    K = {'DM': 'dms', 'SX': 'ints', 'MX': 'ints'}
    for D in ds:
        for kind in K:
            o.append(Ob('vector %s, %s' % (D.name, kind), vector, K[kind], bounds='all values', functions=F, params=dict(D=D, kind=kind), validate=6))
        o.append(Ob('scalar %s' % D.name, scalar, 'dms', bounds='all values', functions=F, params=dict(D=D), validate=6))
        if D.name != 'empty parts':
            o.append(Ob('dictionary %s' % D.name, dictionary, 'dms', bounds='all values, scalar or full value for every entry', functions=F, params=dict(D=D), validate=6, seconds=120))
        if D.name in ('scalars', 'ordered', 'nested', 'grouped') or th and len(D.keys) < 5:
            o.append(Ob('keys %s' % D.name, wrong_keys, 'dms', bounds='every subset of the keys, 4 additional keys', functions=F, params=dict(D=D), validate=6))
    o.append(Ob('shapes', wrong_shape, 'dms', bounds='6 wrong shapes', functions=F, validate=10))
    plain = [Def(d.name, d.items, d.order) for d in ds if not any(e.dims for e in d.entries.values()) and d.name not in ('empty parts', 'sparse')]
    plain.append(Def('one scalar', [E('x')]))
    plain.append(Def('nested deep', [E('d', sub=DEEP), E('x', 2)]))
    plain.append(Def('one nested', [E('d', sub=PT)]))
    for D in plain:
        for N in (1, 2, 3) + ((5,) if th else ()):
            o.append(Ob('parse %s, %d' % (D.name, N), parse, 'dms', bounds='all %d x %d matrices' % (D.n, N), functions=F, params=dict(D=D, N=N), validate=6))
    for r in (1, 2, 3):
        for c in (1, 2):
            for q in (1, 3):
                o.append(Ob('parse %dx%d and %d' % (r, c, q), mixed, 'dms', bounds='two columns', functions=F, params=dict(r=r, c=c, q=q), validate=4))
    return o
