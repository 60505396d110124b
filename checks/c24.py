from structcommon import *

F = ['structure3.SetterDispatcher.__call__', 'structure3.SetterDispatcher.callableOuter', 'structure3.MasterSettable.__setitem__', 'structure3.MXStruct.__setitem__', 'structure3.payloadUnpack', 'structure3.Repeater', 'structure3.performExtraIndex',
     'structure3.StructEntry.traverseByPowerIndex', 'structure3.Structure.traverseByPowerIndex', 'structure3.Prefixer.__setitem__']
ASSUMPTIONS = ['Contents and assigned values are arbitrary real numbers (symbols); CasADi\'s own element assignment is trusted.',
               'In encoding dms the class DM holds symbols instead of floats; replays use real DM matrices.',
               'A list assigned to part of the repetitions of an entry is the known finding partial-list.']
WKINDS = {'DM': 'dms', 'SX': 'ints', 'MX': 'ints'}


class Payload:
    """fresh values in the form of a tree; records what is expected in which flat position"""

    def __init__(self, S, kind, tag):
        self.S, self.kind, self.tag, self.k, self.set = S, kind, tag, 0, []

    def matrix(self, a):
        """matrix for the reference block a, with structural zeros where a has them"""
        S = self.S
        self.k += 1
        m = content(S, self.kind, '%s%d' % (self.tag, self.k), *a.shape)
        W = S.elems(m)
        f = a.reshape(-1, order='F')
        if (f < 0).any():
            cells = [(q % a.shape[0], q // a.shape[0]) for q in range(a.size) if f[q] >= 0]
            sp = cs.Sparsity.triplet(a.shape[0], a.shape[1], [c[0] for c in cells], [c[1] for c in cells])
            m = cs.project(m, sp)
        self.set += [(int(k), w) for k, w in zip(f, W) if k >= 0]
        return m

    def tree(self, t):
        if isinstance(t, list):
            return [self.tree(x) for x in t]
        if isinstance(t, dict):
            return {k: self.tree(x) for k, x in t.items()}
        return self.matrix(t)

    def scalar(self, t):
        self.k += 1
        m = content(self.S, self.kind, '%s%d' % (self.tag, self.k), 1)
        w = self.S.elems(m)[0]
        for a in leaves(t):
            self.set += [(int(k), w) for k in a.reshape(-1) if k >= 0]
        return m


def leaves(t):
    return [t] if not isinstance(t, (list, dict)) else [x for v in (t.values() if isinstance(t, dict) else t) for x in leaves(v)]


def expect(V, sets):
    V = list(V)
    for k, w in sets:
        V[k] = w
    return V


def assign(S, M, D, s, V, kind, tag, prefix=False, **kw):
    """one assignment through an arbitrary index; returns the index and the expected contents"""
    P = Pick(S, D, tag=tag, **kw)
    idx = P.struct(D)
    t = Ref(D).get(idx)
    p = Payload(S, kind, tag + 'w')
    fn = any(isinstance(x, Fn) for x in idx)
    S.assume(not any(x is LAST for x in idx) or isinstance(t, np.ndarray))      # a callable must give one matrix of indices
    hasdict = any(x is ND or isinstance(x, (dict, set)) for x in idx)
    forms = []
    if not fn or idx[-1] is TR:
        forms.append('scalar')
        if not hasdict and isinstance(t, list) and not any(x is Ellipsis for x in idx):
            forms.append('repeated')
    # partial lists of repetitions are the known finding
    if whole_repeats(idx, D):
        forms.append('tree')
    S.assume(len(forms) > 0)
    form = S.choice(tag + 'form', forms)
    if form == 'scalar':
        v = p.scalar(t)
    elif form == 'repeated':
        if all(isinstance(x, np.ndarray) and x.shape == t[0].shape and (x >= 0).all() for x in t) and t and S.choice(tag + 'full', [True, False]):
            # one matrix for every repetition
            m = content(S, kind, tag + 'r', *t[0].shape)
            W = S.elems(m)
            for a in t:
                p.set += [(int(k), w) for k, w in zip(a.reshape(-1, order='F'), W)]
            v = M.repeated(m)
        else:
            v = M.repeated(p.scalar(t))
    else:
        v = p.tree(t)
    if prefix:
        # the first indices are given as a prefix
        k = next((k for k, x in enumerate(idx) if not isinstance(x, str) and type(x) is not int), len(idx))
        S.assume(k > 0 and len(idx) > 1)
        k = S.choice(tag + 'prefix', range(1, min(k, len(idx) - 1) + 1))
        pre = s.prefix[native(idx[:k], M)]
        pre[native(idx[k:], M)] = v
    else:
        s[native(idx, M)] = v
    return idx, t, expect(V, p.set)


def whole_repeats(idx, D):
    """no partial selection of repetitions by slice or list (element indices do not count)"""
    R, dims = D, None
    for t in idx:
        if isinstance(t, str):
            e = R.entries[t]
            dims = list(e.dims)
            R = e.sub
        elif dims:
            if isinstance(t, list) or isinstance(t, slice) and t != ALL:
                return False
            if not isinstance(t, Fn):
                dims.pop(0)
        elif not dims and R is None:
            break
    return True


def check(S, M, D, s, idx, t, V, label):
    S.eq_all(S.elems(s.cat), V, label + ': contents')
    same(S, s[native(idx, M)], t, V, label + ': read back')
    for k in D.keys:
        same(S, s[k], Ref(D).get([k]), V, label + ': entry ' + k)


def write(S, M, D, kind, lean):
    s, V = make(S, M, D, kind)
    idx, t, V = assign(S, M, D, s, V, kind, 'a', lean=lean, few_from=1 if lean else 2)
    check(S, M, D, s, idx, t, V, 'after %s' % (idx,))


def twice(S, M, D, kind):
    """two assignments, possibly overlapping"""
    s, V = make(S, M, D, kind)
    i1, t, V = assign(S, M, D, s, V, kind, 'a', lean=True, fns=False, extras=False, few=True)
    S.eq_all(S.elems(s.cat), V, 'after %s' % (i1,))
    i2, t, V = assign(S, M, D, s, V, kind, 'b', lean=True, fns=False, extras=False, few=True)
    check(S, M, D, s, i2, t, V, 'after %s, %s' % (i1, i2))


def symbolic_index(S, M, kind, n, m):
    """two assignments at arbitrary integers"""
    D = Def('repeated', [E('y'), E('x', 2, repeat=[n, m]), E('z', repeat=n)])
    s, V = make(S, M, D, kind)
    i, j, k, l = S.int('i', -n, n - 1), S.int('j', -m, m - 1), S.int('k', -n, n - 1), S.int('l', -n, n - 1)
    p = Payload(S, kind, 'w')
    a, b = np.zeros((2, 1)), np.zeros((1, 1))
    u, v, w = content(S, kind, 'u', 2), content(S, kind, 'w', 1), content(S, kind, 'q', 1)
    s['x', i, j] = u
    s['z', k] = v
    s['z', l] = w
    i, j, k, l = int(i) % n, int(j) % m, int(k) % n, int(l) % n
    U, v, w = S.elems(u), S.elems(v)[0], S.elems(w)[0]
    f = D.flat
    sets = list(zip(f[('x', i, j)].reshape(-1), U)) + [(f[('z', k)][0, 0], v), (f[('z', l)][0, 0], w)]
    V = expect(V, sets)
    S.eq_all(S.elems(s.cat), V, 'contents')
    same(S, s['x', i], Ref(D).get(['x', i]), V, 'read')


def prefixed(S, M, D, kind):
    s, V = make(S, M, D, kind)
    e = S.choice('entry', [k for k in D.keys if D.entries[k].dims])
    n = D.entries[e].dims[0]
    i = S.int('i', -n, n - 1)
    t = Ref(D).get([e, int(i)])
    p = Payload(S, kind, 'w')
    if S.choice('scalar', [True, False]) or isinstance(t, list):
        v = p.scalar(t)
    else:
        v = p.tree(t)
    pre = s.prefix[e]
    pre[i] = v
    V = expect(V, p.set)
    check(S, M, D, s, [e, int(i)], t, V, 'prefix')
    # the prefix can be used again
    same(S, pre[i], t, V, 'read with prefix')
    j = S.choice('j', [0, n - 1])
    t = Ref(D).get([e, j])
    p = Payload(S, kind, 'w2')
    pre[j] = p.scalar(t)
    check(S, M, D, s, [e, j], t, expect(V, p.set), 'second assignment with prefix')


def through_prefix(S, M, D, kind):
    s, V = make(S, M, D, kind)
    idx, t, V = assign(S, M, D, s, V, kind, 'a', prefix=True, lean=True, few=True)
    check(S, M, D, s, idx, t, V, 'prefix and %s' % (idx,))


def partial_dict(S, M, kind):
    """dictionaries with some of the keys"""
    D = Def('plain', [E('x', 2), E('y', repeat=2), E('p', sub=PT), E('z', (2, 2))])
    s, V = make(S, M, D, kind)
    keys = S.choice('keys', [['x'], ['z', 'y'], ['p', 'x'], []])
    form = S.choice('form', ['dict', 'nested', 'set', 'set subset'])
    p = Payload(S, kind, 'w')
    R = Ref(D)
    if form == 'set subset':
        # only keys that are in both
        v = {k: p.tree(R.get([k])) for k in keys}
        p.set = []
        sel = set(keys[:1])
        q = Payload(S, kind, 'x')
        v.update({k: q.tree(R.get([k])) for k in sel})
        p.set = q.set
        idx = sel
    elif form == 'nested':
        v = {k: p.tree(R.get([k, ND])) if k != 'p' else {'b': p.tree(R.get(['p', 'b']))} for k in keys}
        idx = M.nesteddict
    else:
        v = {k: p.tree(R.get([k])) for k in keys}
        idx = {} if form == 'dict' else set(D.keys)
    s[idx] = v
    check(S, M, D, s, ['x'], R.get(['x']), expect(V, p.set), 'dictionary')


def refused(S, M, kind):
    """a matrix of a wrong shape"""
    D = Def('plain', [E('x', 3), E('y', 2, repeat=2), E('z', (2, 3)), E('p', sub=PT)])
    s, V = make(S, M, D, kind)
    idx = S.choice('index', [['x'], ['y', 1], ['y', -1], ['z'], ['p'], ['p', 'b'], ['x', slice(0, 2)], ['z', ALL, 0], ['z', 0, ALL]])
    a = Ref(D).get(idx)
    n = a.size
    shp = S.choice('shape', [(n + 1, 1), (max(n - 1, 0) if n != 2 else 0, 1), (n, 2), (n + 2, n + 2), (1, n + 1)])
    S.assume(shp != a.shape)
    w = content(S, kind, 'w', *shp)
    S.raises(lambda: s.__setitem__(native(idx, M), w), 'wrong shape %s accepted at %s' % (shp, idx))
    S.eq_all(S.elems(s.cat), V, 'contents after a refused assignment')
    for k in D.keys:
        same(S, s[k], Ref(D).get([k]), V, 'entry %s after a refused assignment' % k)


def partial_list(S, M, kind):
    """a list assigned to some of the repetitions is distributed over them"""
    D = Def('repeated', [E('y'), E('x', 2, repeat=3)])
    s, V = make(S, M, D, kind)
    idx = S.choice('index', [['x', slice(1, None)], ['x', slice(0, None, 2)], ['x', [2, 0]]])
    t = Ref(D).get(idx)
    p = Payload(S, kind, 'w')
    s[native(idx, M)] = p.tree(t)
    check(S, M, D, s, idx, t, expect(V, p.set), 'list')


def originals(S, M, kind):
    """copies of the assigned values are stored: later changes of either side do not show in the other"""
    D = Def('plain', [E('x', 2), E('y')])
    st = D.build(M)
    a, b = st(content(S, kind, 'v', D.n)), st(content(S, kind, 'w', D.n))
    A, B = S.elems(a.cat), S.elems(b.cat)
    a['x'] = b['x']
    v = content(S, kind, 'u', 2)
    W = S.elems(v)
    b['x'] = v
    S.eq_all(S.elems(a.cat), B[:2] + A[2:], 'first structure')
    S.eq_all(S.elems(b.cat), W + B[2:], 'second structure')
    b['x', 0] = a['y']
    S.eq_all(S.elems(v), W, 'assigned value')
    S.eq_all(S.elems(b.cat), [A[2], W[1], B[2]], 'second structure')
    S.eq_all(S.elems(a.cat), B[:2] + A[2:], 'first structure')


def lists(S, M, kind):
    """lists and tuples, and repeated() of them, for several levels of repetition"""
    D = Def('repeated', [E('y'), E('x', (1, 2), repeat=[2, 3]), E('p', sub=PT, repeat=2), E('z', 2, repeat=2)])
    s, V = make(S, M, D, kind)
    R = Ref(D)
    p = Payload(S, kind, 'w')
    seq = S.choice('type', [list, tuple])
    case = S.choice('case', ['nested', 'repeated list', 'list of repeated', 'repeated twice', 'one row', 'in repeated structure', 'plain', 'all'])

    def rep(ts):
        """one value for several blocks of the same shape"""
        m = content(S, kind, 'r%d' % p.k, *ts[0].shape)
        p.k += 1
        W = S.elems(m)
        for a in ts:
            p.set += [(int(k), w) for k, w in zip(a.reshape(-1, order='F'), W)]
        return m
    x = R.get(['x'])
    if case == 'nested':
        idx, v = S.choice('index', [['x'], ['x', ALL], ['x', ALL, ALL]]), seq(seq(p.tree(b) for b in a) for a in x)
    elif case == 'repeated list':
        idx, v = ['x'], M.repeated(seq(rep([x[0][j], x[1][j]]) for j in range(3)))
    elif case == 'list of repeated':
        idx, v = ['x'], seq(M.repeated(rep(a)) for a in x)
    elif case == 'repeated twice':
        idx, v = ['x'], M.repeated(M.repeated(rep(x[0] + x[1])))
    elif case == 'one row':
        i = S.int('i', -2, 1)
        idx, v = ['x', int(i)], S.choice('how', [lambda: seq(p.tree(b) for b in x[int(i)]), lambda: M.repeated(rep(x[int(i)]))])()
    elif case == 'in repeated structure':
        k = S.choice('entry', ['a', 'b'])
        idx = ['p', ALL, k]
        b = R.get(idx)
        v = S.choice('how', [lambda: seq(p.tree(c) for c in b), lambda: M.repeated(rep(b))])()
    elif case == 'plain':
        idx, v = ['z'], seq(p.tree(b) for b in R.get(['z']))
    else:
        idx = [Ellipsis]
        v = seq(p.tree(R.get([k])) if k == 'y' else seq(p.tree(b) for b in R.get([k])) for k in D.keys)
    s[native(idx, M)] = v
    check(S, M, D, s, idx, R.get(idx), expect(V, p.set), case)


def names(S, M, kind):
    """lists of names: every entry gets its value"""
    D = Def('plain', [E('x', 2), E('y'), E('z', (2, 2)), E('p', sub=PT)])
    s, V = make(S, M, D, kind)
    l = S.choice('names', [['x', 'y'], ['z', 'x'], ['y'], ['p', 'x'], ['p', 'z', 'y', 'x']])
    p = Payload(S, kind, 'w')
    t = [Ref(D).get([k]) for k in l]
    s[l] = S.choice('type', [list, tuple])(p.tree(a) for a in t) if S.choice('each', [True, False]) else p.scalar(t)
    V = expect(V, p.set)
    S.eq_all(S.elems(s.cat), V, 'names %s: contents' % l)
    same(S, s[l], t, V, 'names %s: read back' % l)


def numpy_ints(S, M, kind):
    """numpy integers count as integers"""
    D = Def('repeated', [E('y'), E('x', (2, 2), repeat=[2, 3]), E('z', repeat=2)])
    s, V = make(S, M, D, kind)
    t = S.choice('type', NPINTS[:3])
    i, j = int(S.int('i', -2, 1)), int(S.int('j', -3, 2))
    p = Payload(S, kind, 'w')
    a, b = Ref(D).get(['x', i, j]), Ref(D).get(['z', i])
    s['x', t(i), t(j)] = p.tree(a)
    s['z', t(i)] = p.scalar(b)
    V = expect(V, p.set)
    check(S, M, D, s, ['x', i, j], a, V, 'numpy integers')


def numbers(S, M):
    """Python numbers, lists of them and numpy arrays as values"""
    D = Def('plain', [E('x', 3), E('y'), E('r', 2, repeat=2), E('z', (2, 2)), E('p', sub=PT)])
    s, V = make(S, M, D, 'DM')
    w = S.dm('w', 4)
    W = S.elems(w)
    N = [w[k] if S.symbolic else float(w[k]) for k in range(4)]
    A = lambda *shape: np.array(N[:int(np.prod(shape))], dtype=object if S.symbolic else float).reshape(shape, order='F')
    R = Ref(D)
    cases = {
        'number': lambda: (['y'], N[0], [W[0]]), 'number for a vector': lambda: (['x'], N[0], [W[0]] * 3), 'number for an element': lambda: (['z', 1, 0], N[0], [W[0]]),
        'number for all repetitions': lambda: (['r'], N[0], [W[0]] * 4), 'number for each': lambda: (['r'], N[:2], [W[0]] * 2 + [W[1]] * 2), 'number for a part': lambda: (['p'], N[0], [W[0]] * 3),
        'list': lambda: (['x'], N[:3], W[:3]), 'list for a repetition': lambda: (['r', 1], N[:2], W[:2]), 'lists': lambda: (['r'], [N[:2], N[2:]], W), 'list for a part': lambda: (['p'], N[:3], W[:3]),
        'array': lambda: (['x'], A(3), W[:3]), 'column': lambda: (['x'], A(3, 1), W[:3]), 'matrix': lambda: (['z'], A(2, 2), W), 'rows': lambda: (['z'], [[N[0], N[2]], [N[1], N[3]]], W),
        'repeated': lambda: (['r'], M.repeated(N[:2]), W[:2] * 2), 'array in a dictionary': lambda: ([{}], {'x': A(3), 'y': N[3]}, W)}
    c = S.choice('case', list(cases))
    idx, v, want = cases[c]()
    s[native(idx, M)] = v
    t = R.get(idx) if c != 'array in a dictionary' else [R.get(['x']), R.get(['y'])]
    fl = lambda t: [k for x in t for k in fl(x)] if isinstance(t, list) else [int(k) for k in t.reshape(-1, order='F')]
    S.eq_all(S.elems(s.cat), expect(V, list(zip(fl(t), want))), c)


def short(S, M, kind):
    """lists and tuples with too few elements"""
    D = Def('repeated', [E('y'), E('x', (1, 2), repeat=[2, 3]), E('z', 2, repeat=2)])
    s, V = make(S, M, D, kind)
    seq = S.choice('type', [list, tuple])
    idx = S.choice('index', [['x'], ['x', 0], ['x', ALL, ALL], ['z'], ['z', ALL], [Ellipsis]])
    n = {'x': 2, 'z': 2}.get(idx[0], 3) if idx != ['x', 0] else 3
    c = lambda k: content(S, kind, 'w%d' % k, 1)
    S.raises(lambda: s.__setitem__(native(idx, M), seq(c(k) for k in range(S.choice('length', range(n))))), 'too few values accepted')


def obligations(tier):
    th = tier == 'thorough'
    o = []
    sec = 300 if th else 60
    for k, D in enumerate(definitions(tier)):
        for kind in WKINDS if th else ['DM', ('SX', 'MX')[k % 2]]:
            o.append(Ob('%s, %s' % (D.name, kind), write, WKINDS[kind], bounds='all contents and values, all integer indices in range, listed index forms', functions=F, params=dict(D=D, kind=kind, lean=not th or len(D.keys) > 3), validate=6, window=40, seconds=sec))
    two = [d for d in definitions(tier) if d.name in ('repeated', 'grouped', 'nested', 'ordered')]
    for kind in WKINDS:
        for D in two:
            if th or D.name in ('nested', 'repeated'):
                o.append(Ob('sequence %s, %s' % (D.name, kind), twice, WKINDS[kind], bounds='two assignments, listed index forms', functions=F, params=dict(D=D, kind=kind), validate=4, window=40, seconds=sec))
        o.append(Ob('integers, %s' % kind, symbolic_index, WKINDS[kind], bounds='all integers in range, 2x2 repetitions', functions=F, params=dict(kind=kind, n=2, m=2), validate=4, seconds=sec))
        for D in [d for d in definitions(tier) if d.name in ('repeated', 'nested repeated', 'two-dimensional repeats', 'nested grouped')]:
            o.append(Ob('prefix %s, %s' % (D.name, kind), prefixed, WKINDS[kind], bounds='all integers in range', functions=F, params=dict(D=D, kind=kind), validate=4))
        for D in [d for d in definitions(tier) if th or d.name in ('nested', 'nested repeated', 'two-dimensional repeats', 'same names')]:
            o.append(Ob('through prefix %s, %s' % (D.name, kind), through_prefix, WKINDS[kind], bounds='listed index forms', functions=F, params=dict(D=D, kind=kind), validate=4, window=40, seconds=sec))
        o.append(Ob('dictionaries, %s' % kind, partial_dict, WKINDS[kind], bounds='4 key sets', functions=F, params=dict(kind=kind), validate=6))
        o.append(Ob('lists, %s' % kind, lists, WKINDS[kind], bounds='8 forms of nested lists, tuples and repeated()', functions=F, params=dict(kind=kind), validate=6))
        o.append(Ob('names, %s' % kind, names, WKINDS[kind], bounds='5 lists of names', functions=F, params=dict(kind=kind), validate=6))
        o.append(Ob('numpy integers, %s' % kind, numpy_ints, WKINDS[kind], bounds='all integers in range, 2x3 repetitions, 3 types', functions=F, params=dict(kind=kind), validate=6, seconds=sec))
        o.append(Ob('too few values, %s' % kind, short, WKINDS[kind], bounds='6 indices', functions=F, params=dict(kind=kind), validate=6))
        o.append(Ob('refused, %s' % kind, refused, WKINDS[kind], bounds='9 indices, 5 shapes', functions=F, params=dict(kind=kind), validate=6))
        o.append(Ob('copies, %s' % kind, originals, WKINDS[kind], bounds='all contents', functions=F, params=dict(kind=kind)))
        o.append(Ob('list for part of the repetitions, %s' % kind, partial_list, WKINDS[kind], bounds='3 indices', functions=F, params=dict(kind=kind), known='partial-list'))
    o.append(Ob('numbers', numbers, 'dms', bounds='all values, 16 forms', functions=F, validate=20))
    return o
