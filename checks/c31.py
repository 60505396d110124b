import contextlib
import copy
import copyreg
import os
import pickle
import sys
import tempfile

from structcommon import *

F = ['structure3.CasadiStructure.__getstate__', 'structure3.CasadiStructure.__setstate__', 'structure3.CasadiStructured.__getstate__', 'structure3.CasadiStructured.__setstate__', 'structure3.DMStruct.__getstate__', 'structure3.DMStruct.__setstate__', 'structure3.CasadiStructEntry.__getstate__',
     'structure3.CasadiStructure.save', 'structure3.DMStruct.save', 'structure3.struct_load']
ASSUMPTIONS = ['Contents are arbitrary real numbers (symbols); pickling of a CasADi matrix itself is trusted to keep its values (symbols are kept by a stand-in during the symbolic run).',
               'Files are written to a temporary directory that is removed again.',
               'Symbolic structures keep their layout; their symbols are new ones after loading. Storing SX or MX data is not supported by CasADi.']

_kept = {}


def _restore(k):
    return cs.SX(_kept[k])


def _reduce(x):
    k = len(_kept)
    _kept[k] = cs.SX(x)
    return _restore, (k,)


@contextlib.contextmanager
def storable(S, M):
    """classes are found by name in the modules under test; symbolic contents can be pickled"""
    saved = {k: sys.modules.get(k) for k in M.mods}
    sys.modules.update(M.mods)
    if S.symbolic:
        copyreg.pickle(cs.SX, _reduce)
    try:
        yield
    finally:
        copyreg.dispatch_table.pop(cs.SX, None)
        _kept.clear()
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def store(S, M, x, form):
    if form == 'deepcopy':
        return copy.deepcopy(x)
    if form == 'file':
        with tempfile.TemporaryDirectory(prefix='c31-') as d:
            p = os.path.join(d, 'x')
            x.save(p)
            return M.struct_load(p)
    if form == 'twice':
        return pickle.loads(pickle.dumps(copy.deepcopy(pickle.loads(pickle.dumps(x)))))
    return pickle.loads(pickle.dumps(x, int(form)))


FORMS = ['2', '4', '5', 'deepcopy', 'file', 'twice']


def layout(S, M, s, D, label):
    S.true(s.size == D.n, label + ': size')
    S.true(list(s.keys()) == D.keys, label + ': keys')
    S.true([tuple(c) for c in s.canonicalIndices(extraMode=2)] == [c + (i, j) for c, e, i, j in D.cells], label + ': canonical indices')
    for c, a in D.flat.items():
        S.true(tuple(s.i[c].shape) == a.shape, label + ': shape of %s' % (c,))


def contents(S, s, D, V, label):
    S.eq_all(S.elems(s.cat), V, label + ': contents')
    for k in D.keys:
        same(S, s[k], Ref(D).get([k]), V, '%s: %s' % (label, k))


def change(S, M, D, s, V, tag):
    """assign to one entry; expected contents"""
    k = S.choice(tag + 'entry', D.keys)
    w = S.dm(tag, 1)
    s[k] = w
    V = list(V)
    for q, (c, e, i, j) in enumerate(D.cells):
        if c[0] == k:
            V[q] = S.elems(w)[0]
    return V


def structure(S, M, D, cls):
    s = D.build(M, cls)
    form = S.choice('form', [f for f in FORMS if f != 'file'] + (['inner file'] if cls == 'struct' else []))
    with storable(S, M):
        r = store(S, M, s.struct, 'file') if form == 'inner file' else store(S, M, s, form)
    layout(S, M, r, D, 'loaded')
    layout(S, M, s, D, 'original')
    if cls == 'struct':
        d = r(S.dm('v', D.n))
        V = S.elems(d.cat)
        contents(S, d, D, V, 'data in the loaded structure')
        V = change(S, M, D, d, V, 'w')
        contents(S, d, D, V, 'data in the loaded structure after writing')
    else:
        V = S.bind(r.cat, 'v')
        contents(S, r, D, V, 'loaded')


def data(S, M, D):
    s = D.build(M)(S.dm('v', D.n))
    V = S.elems(s.cat)
    form = S.choice('form', FORMS)
    with storable(S, M):
        r = store(S, M, s, form)
    layout(S, M, r, D, 'loaded')
    contents(S, r, D, V, 'loaded')
    contents(S, s, D, V, 'original')
    # independent of each other
    W = change(S, M, D, r, V, 'w')
    contents(S, r, D, W, 'loaded, after writing to it')
    contents(S, s, D, V, 'original, after writing to the loaded one')
    U = change(S, M, D, s, V, 'u')
    contents(S, s, D, U, 'original, after writing to it')
    contents(S, r, D, W, 'loaded, after writing to the original')


def elements(S, M, n):
    """writes by element after loading, also in symmetric entries"""
    D = Def('symm', [E('y', 2), E('s', (n, n), symm=True, repeat=2)])
    s = D.build(M)(S.dm('v', D.n))
    V = S.elems(s.cat)
    form = S.choice('form', FORMS)
    with storable(S, M):
        r = store(S, M, s, form)
    k, i, j = S.int('k', -2, 1), int(S.int('i', 0, n - 1)), int(S.int('j', 0, n - 1))
    w = S.dm('w', 1)
    r['s', k, i, j] = w
    a = D.flat[('s', int(k) % 2)]
    V2 = list(V)
    V2[max(a[i, j], a[j, i])] = S.elems(w)[0]
    contents(S, r, D, V2, 'loaded')
    contents(S, s, D, V, 'original')
    m = cs.triu2symm(cs.triu(S.dm('m', n, n)))
    r['s', 0] = m
    W = np.array(S.elems(m), dtype=object).reshape((n, n), order='F')
    a = D.flat[('s', 0)]
    for p in range(n):
        for q in range(p, n):
            V2[a[p, q]] = W[p, q]
    contents(S, r, D, V2, 'loaded, after writing a matrix')


def described(S, M):
    """describing structures are kept"""
    A, B = Def('rows', [E('a', 2), E('b')]), Def('columns', [E('c'), E('d', 2)])
    D = Def('described', [E('m', ss=(A, B)), E('z')])
    s = D.build(M)(S.dm('v', D.n))
    V = S.elems(s.cat)
    with storable(S, M):
        r = store(S, M, s, S.choice('form', FORMS))
    x, y = S.choice('row', ['a', 'b']), S.choice('column', ['c', 'd'])
    t = D.flat[('m',)][np.ix_(flat(Ref(A).get([x])), flat(Ref(B).get([y])))]
    same(S, r['m', x, y], t, V, 'block of the loaded data')
    w = S.dm('w', *t.shape)
    r['m', x, y] = w
    V2 = list(V)
    for k, q in zip(t.reshape(-1, order='F'), S.elems(w)):
        V2[k] = q
    contents(S, r, D, V2, 'loaded')
    contents(S, s, D, V, 'original')


def together(S, M, D, n):
    """several objects of one structure in one file"""
    st = D.build(M)
    if S.choice('inner structure', [False, True]):
        st = st.struct
    obj = [st(S.dm('v%d' % k, D.n)) for k in range(n)]
    V = [S.elems(o.cat) for o in obj]
    form = S.choice('form', [f for f in FORMS if f != 'file'])
    box = S.choice('container', ['list', 'dict', 'with structure', 'structure last', 'same twice'])
    with storable(S, M):
        if box == 'dict':
            r = store(S, M, {'k%d' % k: o for k, o in enumerate(obj)}, form)
            r = [r['k%d' % k] for k in range(n)]
        elif box == 'with structure':
            r = store(S, M, [st] + obj, form)
            layout(S, M, r[0], D, 'loaded structure')
            r = r[1:]
        elif box == 'structure last':
            r = store(S, M, (obj, st), form)
            layout(S, M, r[1], D, 'loaded structure')
            r = r[0]
        elif box == 'same twice':
            r = store(S, M, obj + [obj[0]], form)
            contents(S, r.pop(), D, V[0], 'second reference')
        else:
            r = store(S, M, obj, form)
    for k in range(n):
        contents(S, r[k], D, V[k], 'loaded %d' % k)
        contents(S, obj[k], D, V[k], 'original %d' % k)
    W = change(S, M, D, r[0], V[0], 'w')
    contents(S, r[0], D, W, 'loaded 0 after writing to it')
    for k in range(n):
        if k:
            contents(S, r[k], D, V[k], 'loaded %d after writing to another' % k)
        contents(S, obj[k], D, V[k], 'original %d after writing to a loaded one' % k)


def nested_sharing(S, M):
    """structures that contain one another and share parts"""
    inner = PT.build(M)
    a = M.struct([M.entry('p', struct=inner), M.entry('q', struct=inner, repeat=2)])
    b = M.struct([M.entry('r', struct=inner), M.entry('z')])
    x, y, z = inner(S.dm('x', 3)), a(S.dm('y', 9)), b(S.dm('z', 4))
    X, Y, Z = S.elems(x.cat), S.elems(y.cat), S.elems(z.cat)
    form = S.choice('form', [f for f in FORMS if f != 'file'])
    order = S.choice('order', [[0, 1, 2], [2, 1, 0], [1, 0, 2]])
    with storable(S, M):
        r = store(S, M, [[x, y, z][k] for k in order], form)
    x, y, z = [r[order.index(k)] for k in range(3)]
    contents(S, x, PT, X, 'inner')
    contents(S, y, Def('a', [E('p', sub=PT), E('q', sub=PT, repeat=2)]), Y, 'first')
    contents(S, z, Def('b', [E('r', sub=PT), E('z')]), Z, 'second')


def obligations(tier):
    th = tier == 'thorough'
    o = []
    ds = definitions(tier) + [Def('symmetric', [E('y'), E('s', (2, 2), symm=True, repeat=2), E('t', (3, 3), symm=True)])]
    for D in ds:
        o.append(Ob('data, %s' % D.name, data, 'dms', bounds='all contents, 6 ways of storing', functions=F, params=dict(D=D), validate=6, seconds=120))
        for cls in ('struct', 'struct_symSX', 'struct_symMX') if th or D.name in ('nested', 'grouped', 'ordered', 'symmetric') else ('struct',):
            o.append(Ob('%s, %s' % (cls, D.name), structure, 'dms' if cls == 'struct' else 'ints', bounds='all contents, 6 ways of storing', functions=F, params=dict(D=D, cls=cls), validate=6))
        if th or D.name in ('repeated', 'nested twice', 'grouped', 'sparse'):
            for n in (2, 3):
                o.append(Ob('%d together, %s' % (n, D.name), together, 'dms', bounds='all contents, 6 ways of storing, 5 containers', functions=F, params=dict(D=D, n=n), validate=6, seconds=120))
    for n in (2, 3):
        o.append(Ob('elements %d' % n, elements, 'dms', bounds='all contents and element indices', functions=F, params=dict(n=n), validate=6, window=8))
    o.append(Ob('describing structures', described, 'dms', bounds='all contents', functions=F, validate=6))
    o.append(Ob('shared parts', nested_sharing, 'dms', bounds='all contents, 3 orders', functions=F, validate=6))
    return o
