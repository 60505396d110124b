from structcommon import *

F = ['structure3.CasadiStructure.__init__', 'structure3.Structure.traverseCanonicalIndex', 'structure3.StructEntry.traverseCanonicalIndex', 'structure3.intersperse', 'structure3.listindices', 'structure3.canonicalIndexAncestors',
     'structure3.CasadiStructure.getCanonicalIndex', 'structure3.CasadiStructure.getLabel', 'structure3.CasadiStructure.FlatIndexDispatcher', 'structure3.CasadiStructure.IMDispatcher', 'structure3.EntryList.__init__', 'structure3.CasadiStructEntry.__init__']
ASSUMPTIONS = ['The reference layout is an independent model written from the property statement (checks/structcommon.py).']


def ints(S, m):
    return [int(v) for v in S.elems(m)] if not S.symbolic else [int(v.c) for v in S.elems(m)]


def lookup(S, M, D, cls):
    """an arbitrary flat index"""
    s = D.build(M, cls)
    S.true(s.size == D.n, 'size')
    k = S.int('k')
    if not (k >= 0) or not (k < D.n):
        S.cover('out of range')
        for m in (0, 1, 2):
            S.raises(lambda: s.getCanonicalIndex(k, m), 'index out of range accepted')
            S.raises(lambda: s.getLabel(k, m), 'index out of range accepted')
        return
    S.cover('in range')
    got = [s.getCanonicalIndex(k, m) for m in (0, 1, 2)]
    lab = [s.getLabel(k, m) for m in (0, 1, 2)]
    k = int(k)
    c, e, i, j = D.cells[k]
    want = [c, c + (e.cells.index((i, j)),), c + (i, j)]
    for m in (0, 1, 2):
        S.true(tuple(got[m]) == want[m], 'canonical index of %d, mode %d: %s, expected %s' % (k, m, got[m], want[m]))
        S.true(lab[m] == '[' + ','.join(map(str, want[m])) + ']', 'label of %d, mode %d' % (k, m))
    # back to the flat index
    S.eq_all(S.elems(s.i[want[2]]), [k], 'index matrix at the canonical index')
    if not e.symm:
        S.true(list(s.f[want[2]]) == [k], 'flat index at the canonical index')
    for m in (0, 1, 2):
        l = [tuple(x) for x in s.canonicalIndices(extraMode=m)]
        S.true(len(l) == D.n and l[k] == want[m], 'list of canonical indices, mode %d' % m)
        S.true(len(s.labels(extraMode=m)) == D.n and s.labels(extraMode=m)[k] == lab[m], 'list of labels, mode %d' % m)
    S.true(len(s.labels()) == D.n and len(s.canonicalIndices()) == D.n, 'number of labels')


def blocks(S, M, D, cls):
    """an arbitrary entry, whole or nested; contents in flat order"""
    s = D.build(M, cls)
    S.true(list(s.keys()) == D.keys, 'entry names in order')
    seen = {}
    for c in D.flat:
        for n in range(len(c) + 1):
            if n and (n == len(c) or isinstance(c[n], str)):
                seen[c[:n]] = None
    c = S.choice('entry', list(seen))
    a = D.flat[c] if c in D.flat else D.below(c)
    im = s.i[c]
    S.true(tuple(im.shape) == a.shape, 'shape of index matrix %s' % (c,))
    S.eq_all(S.elems(im), [max(v, 0) for v in a.reshape(-1, order='F')], 'index matrix %s' % (c,))
    e = D.leaf.get(c)
    if e is None or len(e.cells) == a.size:
        S.true([int(v) for v in s.f[c]] == [int(v) for v in a.reshape(-1, order='F')], 'flat indices %s' % (c,))
        # whole entries, all repetitions
        name = c[0]
        if all(len(x.cells) == x.rc[0] * x.rc[1] for q, x in D.leaf.items() if q[0] == name):
            w = Ref(D).get([name])
            fl = lambda t: [v for x in t for v in fl(x)] if isinstance(t, list) else [int(v) for v in t.reshape(-1, order='F')]
            S.true([int(v) for v in s.f[name]] == fl(w), 'flat indices of all of %s' % name)
    # contents: the flat vector and the entries agree
    d = M.struct(s)(content(S, 'SX' if M.kind != 'dms' else 'DM', 'v', D.n))
    V = S.elems(d.cat)
    S.eq_all(S.elems(d[c]), [V[v] if v >= 0 else 0 for v in a.reshape(-1, order='F')], 'contents of %s' % (c,))


def parts(S, M, D, cls):
    """the nested structure of an entry"""
    s = D.build(M, cls)
    k = S.choice('entry', D.keys)
    sub = D.entries[k].sub
    if sub is None:
        S.raises(lambda: s.getStruct(k), 'entry without structure has one')
        S.raises(lambda: s.getStruct(k + '_'), 'unknown entry has a structure')
        return
    q = s.getStruct(k)
    S.true(list(q.keys()) == sub.keys, 'names of the part')
    d = M.struct(q)(content(S, 'SX', 'v', sub.n))
    V = S.elems(d.cat)
    for c in sub.flat:
        S.eq_all(S.elems(d[c]), [V[v] if v >= 0 else 0 for v in sub.flat[c].reshape(-1, order='F')], 'contents of %s' % (c,))


def numpy_sizes(S, M):
    """dimensions and repetitions as numpy integers"""
    t = S.choice('type', NPINTS)
    r, n = S.int('r', 1, 3), S.int('n', 1, 3)
    r, n = int(r), int(n)
    D = Def('sizes', [E('x', (r, 2), repeat=n), E('y', r), E('z', repeat=[n, 2])])
    s = M.struct([M.entry('x', shape=(t(r), t(2)) if S.choice('pair', [True, False]) else [t(r), 2], repeat=t(n)), M.entry('y', shape=t(r)), M.entry('z', repeat=[t(n), 2])])
    S.true(s.size == D.n, 'size')
    d = s(S.sxvec('v', D.n))
    V = S.elems(d.cat)
    for k in D.keys:
        same(S, d[k], Ref(D).get([k]), V, k)


def plain(S, M):
    """names instead of entries"""
    form = S.choice('form', ['names', 'group', 'mixed', 'entry objects'])
    d = {'names': [E('b'), E('a'), E('ab')], 'group': [(E('b'), E('a')), E('c')], 'mixed': [E('b'), E('x', 2, repeat=2), (E('a'), E('u', repeat=2))], 'entry objects': [E('b'), E('a')]}[form]
    D = Def(form, d)
    one = lambda e: e.name if form != 'entry objects' and not e.dims else e.real(M)
    cls = S.choice('class', ['struct', 'struct_symSX', 'struct_symMX'])
    s = getattr(M, cls)([tuple(one(e) for e in i) if isinstance(i, tuple) else one(i) for i in d])
    S.true(s.size == D.n and list(s.keys()) == D.keys, 'size and names')
    d = s(S.sxvec('v', D.n))
    V = S.elems(d.cat)
    for k in D.keys:
        same(S, d[k], Ref(D).get([k]), V, k)


def given(S, M, Q):
    """the part is described by any structured object"""
    kind = S.choice('kind', ['struct', 'its structure', 'symSX', 'symMX', 'DM', 'SX', 'MX', 'part of another'])
    q = Q.build(M)
    if kind in ('symSX', 'symMX'):
        q = Q.build(M, 'struct_' + kind)
    elif kind in ('DM', 'SX', 'MX'):
        q = q(getattr(cs, kind)(cs.DM(range(Q.n))))
    elif kind == 'its structure':
        q = q.struct
    elif kind == 'part of another':
        q = M.struct([M.entry('o', struct=q, repeat=2)]).getStruct('o')
    rep = S.choice('repeat', [None, 2, [2, 2]])
    D = Def('with part', [E('z'), E('p', sub=Q, repeat=rep), E('y', 2)])
    cls = S.choice('class', ['struct', 'struct_symSX', 'struct_symMX'])
    s = getattr(M, cls)([M.entry('z'), M.entry('p', struct=q, **{} if rep is None else {'repeat': rep}), M.entry('y', shape=2)])
    S.true(s.size == D.n and list(s.keys()) == D.keys, 'size and names')
    d = s(S.sxvec('v', D.n))
    V = S.elems(d.cat)
    for k in D.keys:
        same(S, d[k], Ref(D).get([k]), V, k)
    for c in D.flat:
        same(S, d[c], D.flat[c], V, str(c))
    S.true(list(s.getStruct('p').keys()) == Q.keys, 'names of the part')


def sizes(S, M):
    """two entries of arbitrary small dimensions"""
    r, c, n = S.choice('rows', range(4)), S.choice('columns', range(3)), S.choice('repeat', [None, 0, 1, 2, [2, 2]])
    g = S.choice('grouped', [False, True])
    m = S.choice('repeat2', [None, 0, 1, 3])
    D = Def('sizes', [(E('x', (r, c), repeat=n), E('y', 2, repeat=m))] if g else [E('x', (r, c), repeat=n), E('y', 2, repeat=m)])
    s = D.build(M)
    S.true(s.size == D.n, 'size')
    d = s(S.sxvec('v', D.n))
    V = S.elems(d.cat)
    same(S, d['x'], Ref(D).get(['x']), V, 'x')
    same(S, d['y'], Ref(D).get(['y']), V, 'y')


def obligations(tier):
    o = []
    ds = definitions(tier) + [MANY, MANY2, Def('symmetric', [E('y'), E('s', (3, 3), symm=True, repeat=2), E('t', (2, 2), symm=True)])]
    for D in ds:
        for cls in ('struct', 'struct_symSX', 'struct_symMX') if tier == 'thorough' else ('struct', 'struct_symMX'):
            o.append(Ob('%s, %s: flat index' % (D.name, cls), lookup, 'ints', bounds='all integers', functions=F, params=dict(D=D, cls=cls), validate=4, window=max(D.n, 6) + 1))
        if D.name != 'symmetric':
            o.append(Ob('%s: entries' % D.name, blocks, 'ints', bounds='all entries and nested parts', functions=F, params=dict(D=D, cls='struct'), validate=4))
    for D in ds:
        if any(e.sub is not None for e in D.entries.values()):
            for cls in ('struct', 'struct_symSX', 'struct_symMX'):
                o.append(Ob('%s, %s: parts' % (D.name, cls), parts, 'ints', bounds='all entries', functions=F + ['structure3.Structure.getStruct'], params=dict(D=D, cls=cls), validate=4))
    o.append(Ob('numpy sizes', numpy_sizes, 'ints', bounds='up to 3 rows and repetitions', functions=F, validate=10))
    o.append(Ob('names as entries', plain, 'ints', bounds='listed forms', functions=F, validate=10))
    for Q in (PT, DEEP, GRP):
        o.append(Ob('given %s' % Q.name, given, 'ints', bounds='8 kinds of objects that describe the part', functions=F, params=dict(Q=Q), validate=10))
    o.append(Ob('arbitrary sizes', sizes, 'ints', bounds='up to 3x2 entries, 0 to 3 repetitions, one- and two-dimensional, grouped or not', functions=F, validate=10))
    return o
