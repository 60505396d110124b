from structcommon import *

F = ['structure3.GetterDispatcher.__call__', 'structure3.SetterDispatcher.__call__', 'structure3.performExtraIndex', 'structure3.CasadiStructEntry.__init__']
ASSUMPTIONS = ['Contents and assigned values are arbitrary real numbers (symbols).',
               'Assigned whole matrices and submatrices are symmetric where both triangles are selected (the property says nothing about others).']


def defn(n, rep, sparse=None):
    return Def('symm', [E('y', 2), E('s', sparse if sparse is not None else (n, n), symm=True, repeat=rep), E('z')])


def full(D, canon):
    a = D.flat[canon]
    return np.where(a < 0, a.T, a)


def read(S, M, n, rep, kind, sparse=None):
    D = defn(n, rep, sparse)
    s, V = make(S, M, D, kind)
    S.true(D.n == s.size, 'only one triangle is stored')
    idx = ['s']
    if rep is not None:
        r = S.int('r', -rep, rep - 1)
        idx.append(r)
    form = S.choice('form', ['whole', 'element', 'transposed', 'linear', 'row', 'column', 'sub', 'listed', 'fn', 'all'])
    if form == 'element':
        i, j = int(S.int('i', -n, n - 1)), int(S.int('j', -n, n - 1))
        idx += [i, j]
        a, b = s[native(idx, M)], s[native(idx[:-2] + [j, i], M)]
        S.eq_all(S.elems(a), S.elems(b), 'elements (i,j) and (j,i)')
    elif form == 'transposed':
        m = s[native(idx, M)]
        S.eq_all(S.elems(m), S.elems(m.T), 'matrix and its transpose')
    elif form == 'linear':
        idx += [int(S.int('k', -n * n, n * n - 1))]
    elif form == 'row':
        idx += [int(S.int('i', -n, n - 1)), ALL]
    elif form == 'column':
        idx += [ALL, int(S.int('j', -n, n - 1))]
    elif form == 'sub':
        idx += S.choice('sub', [[slice(0, n - 1), slice(1, n)], [slice(1, n), ALL], [slice(None, None, -1), slice(0, 1)]] if n > 1 else [[ALL, ALL]])
    elif form == 'listed':
        idx += [[n - 1, 0], [0, n - 1]]
    elif form == 'fn':
        idx += [TR]
    elif form == 'all':
        idx = S.choice('top', [[Ellipsis], [{}], [ND], ['s'], [{'s'}]])
    same(S, s[native(idx, M)], Ref(D).get(idx), V, 'read %s' % (idx,))


def symmetric(S, kind, n, tag, pattern=None):
    """arbitrary symmetric matrix; with its elements"""
    W = content(S, kind, tag, n, n)
    m = cs.triu2symm(cs.triu(W))
    if pattern is not None:
        m = cs.project(m, pattern)
    el = S.elems(m)
    return m, np.array(el, dtype=object).reshape((n, n), order='F')


def one_write(S, M, D, s, V, n, rep, kind, tag, forms, sparse=None):
    idx = ['s']
    c = ('s',)
    if rep is not None:
        r = S.int(tag + 'r', -rep, rep - 1)
        idx.append(r)
        c = ('s', int(r) % rep)
    form = S.choice(tag + 'form', forms)
    m, W = symmetric(S, kind, n, tag + 'w', sparse)
    b = content(S, kind, tag + 'b', 1)
    B = S.elems(b)[0]
    a = full(D, c)
    V = list(V)
    if form == 'whole':
        val, cells = m, [(i, j) for i in range(n) for j in range(n)]
    elif form == 'scalar':
        val, cells = b, [(i, j) for i in range(n) for j in range(n)]
    elif form == 'element':
        i, j = int(S.int(tag + 'i', -n, n - 1)), int(S.int(tag + 'j', -n, n - 1))
        idx += [i, j]
        val, cells = b, [(i % n, j % n)]
    elif form == 'linear':
        k = int(S.int(tag + 'k', -n * n, n * n - 1))
        idx += [k]
        val, cells = b, [(k % n, k % (n * n) // n)]
    elif form == 'linear range':
        sl = S.choice(tag + 'range', [slice(1, n + 1), slice(0, n * n), slice(n - 1, None)])
        cells = [(k % n, k // n) for k in range(n * n)[sl]]
        idx += [sl]
        val = m[sl]
        form = 'whole'
    elif form == 'transposed':
        # the index transposes: the value belongs to the transposed matrix
        idx += [TR]
        val, cells = m.T, [(i, j) for i in range(n) for j in range(n)]
        form = 'whole'
    elif form == 'listed':
        idx += [[n - 1, 0], [0, n - 1]]
        cells = [(i, j) for i in (n - 1, 0) for j in (0, n - 1)]
        val = m[[n - 1, 0], [0, n - 1]]
        form = 'whole'
    else:
        rows, cols = {'row': ([n - 1], range(n)), 'column': (range(n), [0]), 'block': (range(n - 1), range(1, n)), 'lower block': (range(1, n), range(0, n - 1)), 'principal': (range(1, n), range(1, n)), 'wide': (range(0, 2), range(n))}[form]
        sl = lambda r: slice(r[0], r[-1] + 1)
        if form in ('row', 'column') and S.choice(tag + 'int', [True, False]):
            idx += [rows[0] if len(rows) == 1 else sl(rows), cols[0] if len(cols) == 1 else sl(cols)]
        else:
            idx += [sl(rows), sl(cols)]
        cells = [(i, j) for i in rows for j in cols]
        if S.choice(tag + 'scalar', [True, False]):
            val = b
        else:
            val = m[sl(rows), sl(cols)]
            form = 'whole'
    for i, j in cells:
        if a[i, j] >= 0:
            V[a[i, j]] = W[i, j] if form == 'whole' else B
    s[native(idx, M)] = val
    return idx, V


FORMS = ['whole', 'scalar', 'element', 'row', 'column', 'block', 'lower block', 'principal', 'wide', 'linear', 'linear range', 'transposed', 'listed']


def write(S, M, n, rep, kind, steps=1, forms=FORMS, sparse=None):
    D = defn(n, rep, sparse)
    s, V = make(S, M, D, kind)
    for k in range(steps):
        idx, V = one_write(S, M, D, s, V, n, rep, kind, 'abc'[k], forms if n > 1 else ['whole', 'scalar', 'element', 'linear', 'transposed'], sparse)
        S.eq_all(S.elems(s.cat), V, 'contents after writing %s' % (idx,))
        for key in D.keys:
            same(S, s[key], Ref(D).get([key]), V, 'entry %s after writing %s' % (key, idx))
        same(S, s[native(idx, M)], Ref(D).get(idx), V, 'read back %s' % (idx,))


def refused(S, M, kind):
    D = defn(3, None)
    s, V = make(S, M, D, kind)
    shp = S.choice('shape', [(2, 2), (3, 2), (4, 4), (6, 1), (9, 1), (1, 3), (3, 1), (2, 3)])
    w = content(S, kind, 'w', *shp)
    S.raises(lambda: s.__setitem__('s', w), 'wrong shape accepted')
    S.eq_all(S.elems(s.cat), V, 'contents after a refused assignment')


def square(S, M):
    r, c = S.choice('rows', range(4)), S.choice('columns', range(4))
    if r == c:
        st = M.struct([M.entry('s', shape=(r, c), type='symm')])
        S.true(st.size == r * (r + 1) // 2, 'size')
    else:
        S.raises(lambda: M.entry('s', shape=(r, c), type='symm'), 'matrix that is not square accepted')


def cast(S, M, n):
    """dictionary with a full symmetric matrix"""
    D = defn(n, None)
    st = D.build(M)
    m, W = symmetric(S, 'DM', n, 'w')
    y, z = S.dm('y', 2), S.dm('z', 1)
    d = st({'y': y, 's': m, 'z': z})
    V = [None] * D.n
    a = full(D, ('s',))
    for i in range(n):
        for j in range(n):
            V[a[i, j]] = W[i, j]
    V[:2] = S.elems(y)
    V[-1] = S.elems(z)[0]
    S.eq_all(S.elems(d.cat), V, 'contents')
    same(S, d['s'], a, V, 's')


def obligations(tier):
    th = tier == 'thorough'
    o = []
    K = {'DM': 'dms', 'SX': 'ints', 'MX': 'ints', 'symSX': 'ints', 'symMX': 'ints'}
    band = cs.Sparsity.banded(3, 1)
    for kind in K:
        for n in (1, 2, 3) + ((4,) if th else ()):
            for rep in (None, 2):
                o.append(Ob('read %d %s %s' % (n, rep, kind), read, K[kind], bounds='%dx%d, all integer indices, listed forms' % (n, n), functions=F, params=dict(n=n, rep=rep, kind=kind), validate=6, window=20))
        o.append(Ob('read sparse %s' % kind, read, K[kind], bounds='banded 3x3', functions=F, params=dict(n=3, rep=None, kind=kind, sparse=band), validate=6, window=20))
    for kind in ('DM', 'SX', 'MX'):
        for n in (1, 2, 3) + ((4,) if th else ()):
            for rep in (None, 2):
                o.append(Ob('write %d %s %s' % (n, rep, kind), write, K[kind], bounds='%dx%d, all values and integer indices, listed forms' % (n, n), functions=F, params=dict(n=n, rep=rep, kind=kind), validate=6, window=20))
        o.append(Ob('write sparse %s' % kind, write, K[kind], bounds='banded 3x3', functions=F, params=dict(n=3, rep=None, kind=kind, sparse=band, forms=['whole', 'scalar']), validate=6))
        o.append(Ob('write twice %s' % kind, write, K[kind], bounds='3x3, two assignments', functions=F, params=dict(n=3 if th else 2, rep=None, kind=kind, steps=2, forms=['whole', 'element', 'row', 'block', 'lower block']), validate=6, window=20, seconds=200))
        o.append(Ob('refused %s' % kind, refused, K[kind], bounds='8 shapes', functions=F, params=dict(kind=kind)))
    o.append(Ob('square', square, 'ints', bounds='shapes up to 3x3', functions=F))
    for n in (1, 2, 3):
        o.append(Ob('cast %d' % n, cast, 'dms', bounds='all values', functions=F, params=dict(n=n)))
    return o
