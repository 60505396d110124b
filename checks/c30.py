import itertools

from structcommon import *

F = ['structure3.CasadiStructEntry.__init__', 'structure3.EntryList.__init__', 'structure3.Structure.__init__', 'structure3.canonical', 'structure3.SafeDict.__getitem__', 'structure3.StructEntry.traverseByPowerIndex', 'structure3.Structure.traverseByPowerIndex', 'structure3.GetterDispatcher.__call__',
     'structure3.SetterDispatcher.__call__', 'structure3.performExtraIndex', 'structure3.MatrixStruct.__init__', 'structure3.MXVeccatStruct.__init__', 'structure3.ssymStruct.__init__', 'structure3.msymStruct.__init__']
ASSUMPTIONS = ['Contents are arbitrary real numbers (symbols).',
               'Indices handed on to CasADi matrices (element indices) are integers within 3 of the valid range.',
               'An entry that an explicit order leaves out is not part of the structure: it must not be readable.',
               'Writing to a list or set that names valid and invalid parts is not covered (the valid parts may have been written when the exception is raised).',
               'Symbolic 1x1 data for a larger structure is not covered (numeric scalars are expanded).']
K = {'DM': 'dms', 'SX': 'ints', 'MX': 'ints', 'symSX': 'ints', 'symMX': 'ints'}

D1 = Def('mixed', [E('y'), E('x', 2, repeat=3), E('m', (2, 3), repeat=[2, 2]), E('p', sub=PT, repeat=2), E('n', sub=PT), E('v', 3), E('o', 2, repeat=1)])


def untouched(S, s, V, D):
    S.eq_all(S.elems(s.cat), V, 'contents')
    for k in D.keys:
        same(S, s[k], Ref(D).get([k]), V, 'entry ' + k)


def reject(S, M, s, V, D, idx, kind, label, write=True):
    S.raises(lambda: s[idx], 'reading %s' % label)
    if write and not kind.startswith('sym'):
        w = content(S, kind, 'w', 1)
        S.raises(lambda: s.__setitem__(idx, w), 'writing %s' % label)
    untouched(S, s, V, D)


def integers(S, M, kind, name):
    """arbitrary repetition numbers"""
    s, V = make(S, M, D1, kind)
    n = D1.entries[name].dims
    k = [S.int('k%d' % q) for q in range(len(n))]
    form = S.choice('form', ['plain', 'list', 'prefix', 'first', 'element'] if len(n) == 1 else ['plain', 'list', 'prefix', 'first', 'last list'])
    bad = [not (i >= -m and i < m) for i, m in zip(k, n)]
    if form == 'first':
        k, bad = k[:1], bad[:1]
    if form == 'list':
        idx = (name,) + tuple([i] for i in k)
    elif form == 'last list':
        idx = (name,) + tuple(k[:-1]) + ([0, k[-1]],)
    elif form == 'element':
        S.assume(D1.entries[name].sub is None)
        idx = (name,) + tuple(k) + (0,)
    else:
        idx = (name,) + tuple(k)
    if any(bad):
        S.cover('refused')
        if form == 'prefix':
            p = s.prefix[name]
            S.raises(lambda: p[idx[1:]], 'reading through a prefix')
            if not kind.startswith('sym'):
                S.raises(lambda: p.__setitem__(idx[1:], content(S, kind, 'w', 1)), 'writing through a prefix')
            untouched(S, s, V, D1)
        else:
            reject(S, M, s, V, D1, idx, kind, 'repetition out of range', write=form != 'last list')
            S.raises(lambda: s.i[idx], 'index matrix of a repetition out of range')
    else:
        S.cover('accepted')
        s[idx]
        S.true(True, 'in range')


def elements(S, M, kind):
    """element indices around the valid range"""
    s, V = make(S, M, D1, kind)
    e, (r, c) = S.choice('entry', [(('v',), (3, 1)), (('x', 1), (2, 1)), (('m', 0, -1), (2, 3)), (('y',), (1, 1)), (('n', 'b'), (2, 1)), (('p', 1, 'a'), (1, 1))])
    if S.choice('two', [False, True]):
        i, j = int(S.int('i', -r - 3, r + 2)), int(S.int('j', -c - 3, c + 2))
        ok = -r <= i < r and -c <= j < c
        idx = e + (i, j)
    else:
        i = int(S.int('i', -r * c - 3, r * c + 2))
        ok = -r * c <= i < r * c
        idx = e + (i,)
    if ok:
        S.cover('accepted')
        S.true(tuple(s[idx].shape) == (1, 1), 'one element')
    else:
        S.cover('refused')
        reject(S, M, s, V, D1, idx, kind, 'element %s' % (idx,))


def names(S, M, kind):
    """unknown names, surplus and misplaced indices"""
    s, V = make(S, M, D1, kind)
    bad = S.choice('unknown', ['q', 'X', '', 'x ', 't', 'yx'])
    idx = S.choice('index', [(bad,), (bad, 0), ('n', bad), ('p', 0, bad), ('p', slice(None), bad), ({bad},), (['v', bad],), ({'x', bad},), (['n', bad],), ('n', {bad}), (bad, {}), ('p', [0, 1], bad),
                             # surplus
                             ('y', 0, 0, 0), ('v', 0, 0, 0), ('x', 0, 0, 0, 0), ('m', 0, 0, 0, 0, 0), ('n', 'a', 0, 0, 0), ('p', 0, 'b', 0, 0, 0),
                             # misplaced
                             (0,), (-1,), (slice(None),), (None,), (1.0,), ('n', 0), ('n', slice(None)), ('p', 'a'), ('x', 'x'), ('m', 0, 'm'), ('y', 'y'), ('v', 'v'), ('x', {}), ('x', {'x'}), ('m', 0, {}), ('x', None), ('x', 1.0), ('x', Ellipsis), (['x'],), ([0],), ('p', None, 'a')])
    reject(S, M, s, V, D1, idx, kind, str(idx), write=not any(isinstance(t, (list, set)) and len(t) > 1 for t in idx))
    if all(isinstance(t, (str, int, list)) for t in idx) and kind != 'DM':
        S.raises(lambda: s.i[idx], 'index matrix of %s' % (idx,))
        S.raises(lambda: s.f[idx], 'flat index of %s' % (idx,))


def payload(S, M, kind):
    """assigned dictionaries and lists that do not fit"""
    s, V = make(S, M, D1, kind)
    w = lambda k, *n: content(S, kind, 'w%d' % k, *n)
    case = S.choice('case', ['unknown key only', 'nested unknown key', 'all too short', 'list too short', 'matrix list too short'])
    if case == 'unknown key only':
        idx, v = {}, {'q': w(0, 1)}
    elif case == 'nested unknown key':
        idx, v = M.nesteddict, {'n': {'q': w(0, 1)}}
    elif case == 'all too short':
        idx, v = Ellipsis, []
    elif case == 'list too short':
        idx, v = 'x', []
    else:
        idx, v = ('m', 1), []
    S.raises(lambda: s.__setitem__(idx, v), case)
    untouched(S, s, V, D1)


def duplicates(S, M, n):
    """entry names"""
    nm = [S.choice('name%d' % k, ['x', 'y', 'z']) for k in range(n)]
    group = S.choice('grouped', [False, True])
    cls = S.choice('class', ['struct', 'struct_symSX', 'struct_symMX', 'struct_SX', 'struct_MX'])
    kw = lambda k: {'struct_SX': dict(expr=S.sxvec('e%d' % k, 1)), 'struct_MX': dict(expr=S.mx('e%d' % k, 1))}.get(cls, {})
    es = [M.entry(x, **kw(k)) for k, x in enumerate(nm)]
    arg = [tuple(es[:2])] + es[2:] if group else es
    if len(set(nm)) < n:
        S.cover('refused')
        S.raises(lambda: getattr(M, cls)(arg), 'duplicate names %s' % nm)
    else:
        S.cover('accepted')
        S.true(getattr(M, cls)(arg).size == n, 'size')


def orders(S, M, cls):
    ent = [M.entry('x', shape=2), M.entry('y', repeat=2), M.entry('z')]
    names = ['x', 'y', 'z', 'q', None]
    o = [S.choice('o%d' % k, names) for k in range(4)]
    while o and o[-1] is None:
        o.pop()
    S.assume(None not in o)
    group = S.choice('group', [0, 1, 2])
    S.assume(len(o) >= group)
    arg = o if not group else [tuple(o[:2])] + o[2:] if group == 1 else o[:-2] + [tuple(o[-2:])]
    f = lambda: getattr(M, cls)(ent, order=list(arg))
    if 'q' in o or len(set(o)) < len(o):
        S.cover('refused')
        S.raises(f, 'order %s' % arg)
    else:
        S.cover('accepted')
        s = f()
        size = {'x': 2, 'y': 2, 'z': 1}
        S.true(s.size == sum(size[k] for k in o), 'size')
        S.true(list(s.keys()) == o, 'keys')
        d = M.struct(s)(S.dm('v', s.size))
        for k in 'xyz':
            if k in o:
                d[k]
            else:
                S.cover('left out')
                S.raises(lambda: d[k], 'reading an entry that is not in the order')
    S.raises(lambda: getattr(M, cls)([tuple(ent[:2]), ent[2]], order=['x', 'y', 'z']), 'order given twice')


OPTS = ['repeat', 'shape', 'sym', 'expr', 'struct', 'shapestruct', 'type']
CLASH = [{'shape', 'struct'}, {'struct', 'shapestruct'}, {'sym', 'shape'}, {'sym', 'repeat'}, {'sym', 'expr'}, {'expr', 'shape'}, {'expr', 'repeat'}]


def options(S, M):
    """every set of options; contradictory ones are refused, the others give the described entry"""
    use = [k for k in OPTS if S.choice(k, [False, True])]
    st = M.struct([M.entry('a'), M.entry('b')])
    val = dict(repeat=2, shape=(2, 2), sym=cs.SX.sym('s', 2, 2), expr=cs.SX.sym('e', 2, 2), struct=st, shapestruct=(st, st), type='symm')
    extra = S.choice('extra', [None, 'shapes', 'Repeat', 'name', 'data', 'dims'])
    kw = {k: val[k] for k in use}
    if extra is not None:
        kw[extra] = 1
    if extra is not None or any(c <= set(use) for c in CLASH):
        S.cover('refused')
        S.raises(lambda: M.entry('x', **kw), 'options %s' % list(kw))
    else:
        S.assume(not ('type' in use and not set(use) & {'shape', 'shapestruct'}))
        S.cover('accepted')
        e = M.entry('x', **kw)
        n = 2 if 'struct' in use else 4 if set(use) & {'shape', 'shapestruct', 'sym', 'expr'} else 1
        if 'type' in use:
            n = 3
        S.true(M.struct([e]).size == n * (2 if 'repeat' in use else 1), 'size')


def arguments(S, M):
    """malformed arguments of entry and structure"""
    st = M.struct([M.entry('a'), M.entry('b')])
    sx, mx = cs.SX.sym('s', 2), cs.MX.sym('m', 2)
    c = S.choice('case', list(range(30)))
    en = M.entry
    f = [lambda: en(), lambda: en('x', 2), lambda: en('x', repeat=1.5), lambda: en('x', repeat='2'), lambda: en('x', repeat=[2, 1.5]), lambda: en('x', repeat=(2, 2)), lambda: en('x', shape=1.5), lambda: en('x', shape=()), lambda: en('x', shape=(1, 2, 3)),
         lambda: en('x', shape='2'), lambda: en('x', shape=-1), lambda: en('x', type='sym'), lambda: en('x', type='diag', shape=(2, 2)), lambda: en('x', type='symm', shape=(2, 3)), lambda: en('x', shapestruct=3), lambda: en('x', shapestruct=()),
         lambda: en('x', shapestruct=(st, st, st)), lambda: en('x', shapestruct=('a', st)), lambda: en('x', sym=sx + 1), lambda: en('x', sym=mx), lambda: en('x', expr=3), lambda: en('x', expr=[[1]]),
         lambda: M.struct('x'), lambda: M.struct(3), lambda: M.struct((en('x'), en('y'))), lambda: M.struct_symSX([en('x', expr=sx)]), lambda: M.struct_symMX([en('x', expr=mx)]), lambda: M.struct_symMX([en('x', sym=sx)]), lambda: M.struct_SX([en('x')]), lambda: M.struct_MX([en('x')])]
    S.raises(f[c], 'case %d' % c)


def length(S, M, kind, D):
    """data of any dimensions"""
    n = D.n
    r, c = S.choice('rows', range(n + 4)), S.choice('columns', range(4) if n < 4 else [0, 1, 2, n])
    one = r == c == 1
    S.assume(not (one and n != 1 and kind != 'DM'))
    if n == 0:
        S.assume(r > 0)
    st = D.build(M)
    A = content(S, kind, 'a', r, c)
    cl = S.choice('by', ['cast', 'class'])
    one = one and cl == 'cast'
    f = (lambda: st(A)) if cl == 'cast' else lambda: getattr(M, kind + 'Struct')(st, data=A)
    if (r, c) == (n, 1) or one:
        S.cover('accepted')
        S.eq_all(S.elems(f().cat), S.elems(A) * (n if one else 1), 'contents')
    else:
        S.cover('refused')
        S.raises(f, '%d x %d data for %d elements' % (r, c, n))


def obligations(tier):
    th = tier == 'thorough'
    o = []
    for kind in K:
        for nm in ('x', 'm', 'p', 'o') if th or kind in ('DM', 'MX') else ('x', 'm', 'o'):
            o.append(Ob('repetition of %s, %s' % (nm, kind), integers, K[kind], bounds='all integers', functions=F, params=dict(kind=kind, name=nm), validate=6, window=6))
        o.append(Ob('elements, %s' % kind, elements, K[kind], bounds='integers within 3 of the range', functions=F, params=dict(kind=kind), validate=6, window=20, seconds=120))
        o.append(Ob('names, %s' % kind, names, K[kind], bounds='6 unknown names, 39 forms', functions=F, params=dict(kind=kind), validate=6))
        if not kind.startswith('sym'):
            o.append(Ob('values, %s' % kind, payload, K[kind], bounds='5 forms', functions=F, params=dict(kind=kind), validate=6))
            for D in (Def('three', [E('x', 2), E('y')]), Def('one', [E('x')]), Def('nested', [E('p', sub=PT, repeat=2)])):
                o.append(Ob('length %s, %s' % (D.name, kind), length, K[kind], bounds='up to %d rows and 3 columns' % (D.n + 3), functions=F, params=dict(kind=kind, D=D), validate=6))
    for n in (2, 3):
        o.append(Ob('duplicates %d' % n, duplicates, 'ints', bounds='%d names' % n, functions=F, params=dict(n=n), validate=6))
    for cls in ('struct', 'struct_symSX', 'struct_symMX'):
        o.append(Ob('orders, %s' % cls, orders, 'dms' if cls == 'struct' else 'ints', bounds='up to 4 names, grouped or not', functions=F, params=dict(cls=cls), validate=6, seconds=120))
    o.append(Ob('options', options, 'ints', bounds='all 128 sets of options, 5 unknown ones', functions=F, validate=10))
    o.append(Ob('arguments', arguments, 'ints', bounds='30 malformed definitions', functions=F, validate=10))
    return o
