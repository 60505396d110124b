from structcommon import *

F = ['structure3.CasadiStructureDerivable.repeated', 'structure3.CasadiStructureDerivable.squared', 'structure3.CasadiStructureDerivable.product', 'structure3.CasadiStructureDerivable.squared_repeated', 'structure3.CasadiStructureDerivable.argtype',
     'structure3.DataReferenceRepeated', 'structure3.DataReferenceSquared', 'structure3.DataReferenceProduct', 'structure3.DataReferenceSquaredRepeated', 'structure3.Prefixer', 'structure3.performExtraIndex', 'structure3.delegation']
ASSUMPTIONS = ['Contents of the viewed matrix and assigned blocks are arbitrary real numbers (symbols).',
               'In encoding dms the class DM holds symbols instead of floats; replays use real DM matrices.']
K = {'DM': 'dms', 'SX': 'ints', 'MX': 'ints'}


def whole(S, v, A, V, shape, kind, label):
    """the matrix behind the view"""
    m = getattr(v, '__%s__' % kind)()
    S.true(tuple(m.shape) == shape, label + ': dimensions')
    S.eq_all(S.elems(m), V, label + ': matrix of the view')
    S.eq_all(S.elems(A), V, label + ': underlying matrix')


def columns(S, M, D, N, kind):
    """every column is one structure"""
    A = content(S, kind, 'a', D.n, N)
    V = S.elems(A)
    v = D.build(M).repeated(A)
    T = Def('view', [E('t', sub=D, repeat=N)])
    P = Pick(S, T, tag='r', fns=False, lean=len(D.keys) > 2, few_from=1 if len(D.keys) > 2 else 2)
    idx = ['t'] + P.entry(T.entries['t'], [N])
    whole(S, v, A, V, (D.n, N), kind, 'view')
    same(S, v[native(idx[1:], M)] if len(idx) > 1 else v(), Ref(T).get(idx), V, 'read %s' % idx[1:])


def columns_write(S, M, D, N, kind, steps=1):
    A = content(S, kind, 'a', D.n, N)
    V = S.elems(A)
    v = D.build(M).repeated(A)
    T = Def('view', [E('t', sub=D, repeat=N)])
    for step in range(steps):
        tag = 'vw'[step]
        P = Pick(S, T, tag=tag, fns=False, lean=True, few=True, extras=steps == 1)
        idx = ['t'] + P.entry(T.entries['t'], [N])
        S.assume(len(idx) > 1)
        t = Ref(T).get(idx)
        V = list(V)
        if isinstance(t, np.ndarray) and t.size and (t >= 0).all() and S.choice(tag + 'full', [True, False]):
            w = content(S, kind, tag, *t.shape)
            for k, x in zip(t.reshape(-1, order='F'), S.elems(w)):
                V[k] = x
        else:
            w = content(S, kind, tag, 1)
            for a in leaves(t):
                for k in a.reshape(-1):
                    if k >= 0:
                        V[k] = S.elems(w)[0]
        v[native(idx[1:], M)] = w
        whole(S, v, A, V, (D.n, N), kind, 'after writing %s' % idx[1:])
        same(S, v[native(idx[1:], M)], t, V, 'read back %s' % idx[1:])
        if step == steps - 1:
            for k in range(N):
                for key in D.keys:
                    same(S, v[k, key], Ref(T).get(['t', k, key]), V, 'entry %s of column %d after writing %s' % (key, k, idx[1:]))


def leaves(t):
    return [t] if isinstance(t, np.ndarray) else [x for v in (t.values() if isinstance(t, dict) else t) for x in leaves(v)]


def view_of(S, M, D1, D2, N, kind, view):
    A = content(S, kind, 'a', D1.n, D2.n * (N or 1))
    s = D1.build(M)
    return A, s.squared(A) if view == 'squared' else s.product(D2.build(M), A) if view == 'product' else s.squared_repeated(A)


def pos(D1, D2, k, r, c):
    """positions of the block of rows r and columns c of matrix k"""
    return np.array([[(k * D2.n + j) * D1.n + i for j in c] for i in r], dtype=int).reshape(len(r), len(c))


def block(S, M, D1, D2, N, kind, view, few=False):
    """rows by one structure, columns by another"""
    A, v = view_of(S, M, D1, D2, N, kind, view)
    V = S.elems(A)
    r, c = axes(S, M, D1, D1.n, D2, D2.n) if not few else (axis(S, M, D1, D1.n, 'row', few=True), axis(S, M, D2, D2.n, 'col', few=True))
    label = 'read %s, %s' % (r, c)
    whole(S, v, A, V, (D1.n, D2.n * (N or 1)), kind, label)
    if N is None:
        same(S, v[r.value, c.value], pos(D1, D2, 0, r.pos, c.pos), V, label)
    else:
        k = S.int('k', -N, N - 1)
        got = v[k, r.value, c.value]
        same(S, got, pos(D1, D2, int(k) % N, r.pos, c.pos), V, label)
        same(S, v[:, r.value, c.value], [pos(D1, D2, k, r.pos, c.pos) for k in range(N)], V, label + ' of all')


def block_write(S, M, D1, D2, N, kind, view, few=False):
    A, v = view_of(S, M, D1, D2, N, kind, view)
    V = S.elems(A)
    r, c = axes(S, M, D1, D1.n, D2, D2.n, more=False) if not few else (axis(S, M, D1, D1.n, 'row', few=True), axis(S, M, D2, D2.n, 'col', few=True))
    pre, k = (), 0
    if N is not None:
        pre = (S.int('k', -N, N - 1),)
    w = None
    full = S.choice('full', [True, False])
    w = content(S, kind, 'w', *((len(r.pos), len(c.pos)) if full else (1, 1)))
    v[pre + (r.value, c.value)] = w
    if N is not None:
        k = int(pre[0]) % N
    t = pos(D1, D2, k, r.pos, c.pos)
    W = S.elems(w)
    label = 'after writing %s, %s' % (r, c)
    V = list(V)
    for q, k in enumerate(t.reshape(-1, order='F')):
        V[k] = W[q if full else 0]
    whole(S, v, A, V, (D1.n, D2.n * (N or 1)), kind, label)
    same(S, v[pre + (r.value, c.value)], t, V, 'read back ' + label)
    for k in range(N or 1):
        for a in D1.keys:
            got = v[((k,) if N is not None else ()) + (a, ALL)]
            same(S, got, pos(D1, D2, k, flat(Ref(D1).get([a])), range(D2.n)), V, 'rows of %s %s' % (a, label))


def scalar(S, M, D1, D2):
    """a number stands for a matrix of equal elements"""
    s1 = D1.build(M)
    a = S.dm('a', 1)
    form = S.choice('form', ['squared', 'product', 'squared 0', 'product 0'])
    q = D1 if 'squared' in form else D2
    if form.endswith('0'):
        v = s1.squared() if q is D1 else s1.product(q.build(M))
        x = 0
    else:
        v = s1.squared(a) if q is D1 else s1.product(q.build(M), a)
        x = S.elems(a)[0]
    m = v.__DM__()
    S.true(tuple(m.shape) == (D1.n, q.n), 'dimensions')
    S.eq_all(S.elems(m), [x] * (D1.n * q.n), 'elements')
    if form.endswith('0'):
        return      # nothing symbolic
    w = S.dm('w', 1)
    r, c = S.choice('row', D1.keys), S.choice('column', q.keys)
    v[r, c] = w
    R, C = flat(Ref(D1).get([r])), flat(Ref(q).get([c]))
    S.eq_all(S.elems(v.__DM__()), [S.elems(w)[0] if i in R and j in C else x for j in range(q.n) for i in range(D1.n)], 'elements after writing')


def dims(S, M, kind, D1, D2):
    """matrices of other dimensions are refused"""
    n, m = D1.n, D2.n
    s1 = D1.build(M)
    r, c = S.choice('rows', range(n + 3)), S.choice('columns', range(2 * n + m + 2))
    A = content(S, kind, 'a', r, c)
    view = S.choice('view', ['repeated', 'squared', 'product', 'squared_repeated'])
    one = kind == 'DM' and r == c == 1
    ok = {'repeated': r == n, 'squared': r == c == n or one, 'product': (r, c) == (n, m) or one, 'squared_repeated': r == n and c % n == 0}[view]
    f = lambda: s1.product(D2.build(M), A) if view == 'product' else getattr(s1, view)(A)
    # symbolic scalars are neither promised to be refused nor to be expanded
    S.assume(not (kind != 'DM' and r == c == 1 and view in ('squared', 'product')) and r * c > 0)
    if ok:
        S.cover('fits')
        v = f()
        S.true(tuple(getattr(v, '__%s__' % kind)().shape) == ((n, n) if one and view == 'squared' else (n, m) if one and view == 'product' else (r, c)), 'dimensions')
    else:
        S.cover('refused')
        S.raises(f, '%d x %d accepted by %s' % (r, c, view))
        S.eq_all(S.elems(A), S.elems(A), 'matrix')


def expression(S, M, D, kind):
    """a view can be used as the matrix itself"""
    A = content(S, kind, 'a', D.n, D.n)
    V = np.array(S.elems(A), dtype=object).reshape((D.n, D.n), order='F')
    v = S.choice('view', [0, 1])
    v = D.build(M).squared(A) if v else D.build(M).repeated(A)
    S.true(tuple(v.shape) == (D.n, D.n), 'shape')
    S.eq_all(S.elems(v.T), list(V.reshape(-1)), 'transpose')
    S.eq_all(S.elems(v.T.T), list(V.reshape(-1, order='F')), 'twice')


A3 = Def('x2 y1', [E('x', 2), E('y')])
A4 = Def('x1 p3', [E('x'), E('p', sub=PT)])
A5 = Def('grouped', [(E('x', repeat=2), E('u', 2, repeat=1)), E('z')])
A6 = Def('ordered', [E('x', (2, 2)), E('y', repeat=2)], order=['y', 'x'])
A1 = Def('one', [E('x')])
A2 = Def('pair', [E('x'), E('y')])


def obligations(tier):
    th = tier == 'thorough'
    o = []
    sec = 300 if th else 60
    for kind in K:
        use = lambda *l: l if th or kind == 'DM' else l[kind == 'MX'::2]      # quick: every other definition for the symbolic kinds
        for D in use(A3, A4, A5) + ((A6, A1, DEEP) if th else ()):
            for N in (1, 3) if th else (3 if D is A3 else 2,):
                o.append(Ob('repeated %s x %d, %s' % (D.name, N, kind), columns, K[kind], bounds='all matrices and values, listed index forms', functions=F, params=dict(D=D, N=N, kind=kind), validate=4, seconds=sec, window=20))
                o.append(Ob('repeated %s x %d, %s, write' % (D.name, N, kind), columns_write, K[kind], bounds='all matrices and values, listed index forms', functions=F, params=dict(D=D, N=N, kind=kind), validate=4, seconds=sec, window=20))
        o.append(Ob('repeated twice, %s' % kind, columns_write, K[kind], bounds='all matrices and values, two assignments', functions=F, params=dict(D=A3, N=2, kind=kind, steps=2), validate=4, seconds=sec, window=20))
        for D in use(A3, A4, A6) + ((A5, A1, DEEP) if th else ()):
            o.append(Ob('squared %s, %s' % (D.name, kind), block, K[kind], bounds='all matrices, listed rows and columns', functions=F, params=dict(D1=D, D2=D, N=None, kind=kind, view='squared'), validate=4, seconds=sec, window=20))
            o.append(Ob('squared %s, %s, write' % (D.name, kind), block_write, K[kind], bounds='all matrices and values, listed rows and columns', functions=F, params=dict(D1=D, D2=D, N=None, kind=kind, view='squared'), validate=4, seconds=sec, window=20))
        for D, Q in use((A3, A4), (A5, A3), (A4, A1)) + (((A1, A3), (A6, A5)) if th else ()):
            o.append(Ob('product %s %s, %s' % (D.name, Q.name, kind), block, K[kind], bounds='all matrices, listed rows and columns', functions=F, params=dict(D1=D, D2=Q, N=None, kind=kind, view='product'), validate=4, seconds=sec, window=20))
            o.append(Ob('product %s %s, %s, write' % (D.name, Q.name, kind), block_write, K[kind], bounds='all matrices and values, listed rows and columns', functions=F, params=dict(D1=D, D2=Q, N=None, kind=kind, view='product'), validate=4, seconds=sec, window=20))
        for D, N in use((A3, 2), (A4, 1)) + (((A3, 3), (A5, 2)) if th else ()):
            o.append(Ob('squared repeated %s x %d, %s' % (D.name, N, kind), block, K[kind], bounds='all matrices, listed rows and columns', functions=F, params=dict(D1=D, D2=D, N=N, kind=kind, view='squared_repeated'), validate=4, seconds=sec, window=20))
            o.append(Ob('squared repeated %s x %d, %s, write' % (D.name, N, kind), block_write, K[kind], bounds='all matrices and values, listed rows and columns', functions=F, params=dict(D1=D, D2=D, N=N, kind=kind, view='squared_repeated'), validate=4, seconds=sec, window=20))
        for D, Q in ((A3, A5), (Def('two', [E('x', 2)]), A3)):
            o.append(Ob('dimensions %s %s, %s' % (D.name, Q.name, kind), dims, K[kind], bounds='up to %d x %d' % (D.n + 2, 2 * D.n + Q.n + 1), functions=F, params=dict(kind=kind, D1=D, D2=Q), validate=6))
        o.append(Ob('used as a matrix, %s' % kind, expression, K[kind], bounds='all matrices', functions=F, params=dict(kind=kind, D=A3)))
    for kind in K:      # one and many columns, one element
        for D, N in ((A2, 1), (A2, 5), (A1, 1), (A1, 4)):
            o.append(Ob('few elements: repeated %s x %d, %s' % (D.name, N, kind), columns, K[kind], bounds='all matrices and values, listed index forms', functions=F, params=dict(D=D, N=N, kind=kind), validate=4, seconds=sec, window=20))
            o.append(Ob('few elements: repeated %s x %d, %s, write' % (D.name, N, kind), columns_write, K[kind], bounds='all matrices and values, listed index forms', functions=F, params=dict(D=D, N=N, kind=kind), validate=4, seconds=sec, window=20))
        for D, Q, N, view in ((A2, A2, 4, 'squared_repeated'), (A1, A1, 5, 'squared_repeated'), (A1, A2, None, 'product'), (A2, A1, None, 'product')):
            for f in (block, block_write):
                o.append(Ob('few elements: %s %s %s%s, %s%s' % (view, D.name, Q.name, '' if N is None else ' x %d' % N, kind, ', write' if f is block_write else ''), f, K[kind], bounds='all matrices and values, listed rows and columns', functions=F,
                            params=dict(D1=D, D2=Q, N=N, kind=kind, view=view, few=True), validate=4, seconds=sec, window=20))
    for D, Q in ((A3, A4), (A5, A3), (A3, A1), (A1, A1)):
        o.append(Ob('scalar %s %s' % (D.name, Q.name), scalar, 'dms', bounds='all values', functions=F, params=dict(D1=D, D2=Q), validate=6))
    return o
