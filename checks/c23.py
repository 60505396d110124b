from structcommon import *

F = ['structure3.StructEntry.traverseByPowerIndex', 'structure3.Structure.traverseByPowerIndex', 'structure3.GetterDispatcher.__call__', 'structure3.performExtraIndex', 'structure3.VertsplitStructure.buildMap',
     'structure3.MasterGettable.__getitem__', 'structure3.Prefixer.__getitem__', 'structure3.Prefixer.__call__', 'structure3.canonical']
ASSUMPTIONS = ['Contents are arbitrary real numbers (symbols); CasADi\'s own element indexing is trusted.',
               'In encoding dms the class DM holds symbols instead of floats; replays use real DM matrices.']


def read(S, M, D, kind):
    s, V = make(S, M, D, kind)
    P = Pick(S, D)
    idx = P.struct(D)
    got = s[native(idx, M)]
    same(S, got, Ref(D).get(idx), V, 'read %s' % (idx,))


def prefixed(S, M, D, kind):
    s, V = make(S, M, D, kind)
    P = Pick(S, D, fns=False, lean=True)
    idx = P.struct(D)
    k = S.choice('split', range(1, 4))
    S.assume(k <= len(idx))
    p, rest = idx[:k], idx[k:]
    pre = s.prefix[native(p, M)]
    got = pre[native(rest, M)] if rest else pre()
    same(S, got, Ref(D).get(idx), V, 'read %s after %s' % (rest, p))
    # the prefix can be used again
    got = pre[native(rest, M)] if rest else pre()
    same(S, got, Ref(D).get(idx), V, 'second read %s after %s' % (rest, p))


def sliced(S, M, n, kind):
    """arbitrary slices of a repeated entry"""
    D = Def('repeated %d' % n, [E('y'), E('x', 2, repeat=n)])
    s, V = make(S, M, D, kind)
    mode = S.choice('mode', ['both', 'start', 'stop'])
    a = S.int('start', -n - 1, n + 1) if mode != 'stop' else None
    b = S.int('stop', -n - 1, n + 1) if mode != 'start' else None
    step = S.choice('step', [None, 1, 2, -1, -2])
    got = s['x', slice(a, b, step)]
    f = lambda v: None if v is None else int(v)
    same(S, got, Ref(D).get(['x', slice(f(a), f(b), step)]), V, 'slice')
    got = s['x', slice(a, b, step), 0]
    same(S, got, Ref(D).get(['x', slice(f(a), f(b), step), 0]), V, 'slice with element')


def listed(S, M, n, kind):
    D = Def('repeated %d' % n, [E('y'), E('x', 2, repeat=n), E('z')])
    s, V = make(S, M, D, kind)
    i, j, k = S.int('i', -n, n - 1), S.int('j', -n, n - 1), S.int('k', -n, n - 1)
    got = s['x', [i, j, k]]
    same(S, got, Ref(D).get(['x', [int(i), int(j), int(k)]]), V, 'list')


def names(S, M, kind):
    """lists of names select plain entries in the given order"""
    D = Def('plain', [E('x', 2), E('y'), E('z', (2, 2)), E('p', sub=PT)])
    s, V = make(S, M, D, kind)
    l = S.choice('names', [['x', 'y'], ['z', 'x'], ['y'], ['p', 'x', 'p']])
    same(S, s[l], [Ref(D).get([k]) for k in l], V, 'names %s' % l)


def numpy_ints(S, M, kind):
    """numpy integers count as integers"""
    D = Def('repeated', [E('y'), E('x', (2, 2), repeat=[2, 3]), E('z', repeat=2)])
    s, V = make(S, M, D, kind)
    t = S.choice('type', NPINTS[:3])
    i, j, k = int(S.int('i', -2, 1)), int(S.int('j', -3, 2)), int(S.int('k', -2, 1))
    form = S.choice('form', ['ints', 'lists', 'prefix'])
    if form == 'ints':
        same(S, s['x', t(i), t(j)], Ref(D).get(['x', i, j]), V, 'integers')
        same(S, s['z', t(k)], Ref(D).get(['z', k]), V, 'integer')
    elif form == 'lists':
        same(S, s['x', [t(i), k], t(j)], Ref(D).get(['x', [i, k], j]), V, 'list')
    else:
        same(S, s.prefix['x', t(i)][t(j)], Ref(D).get(['x', i, j]), V, 'prefix')


def many(S, M, kind, D):
    s, V = make(S, M, D, kind)
    k = S.choice('entry', D.keys)
    same(S, s[k], Ref(D).get([k]), V, 'entry %s' % k)
    if D.entries[k].dims:
        n = D.entries[k].dims[0]
        i = S.int('i', -n, n - 1)
        same(S, s[k, i], Ref(D).get([k, int(i)]), V, 'element of %s' % k)
        same(S, s[k, 8:], Ref(D).get([k, slice(8, None)]), V, 'end of %s' % k)


def obligations(tier):
    o = []
    for k, D in enumerate(definitions(tier)):
        for kind in some_kinds(k, tier):
            o.append(Ob('%s, %s' % (D.name, kind), read, KINDS[kind], bounds='all contents, all integer indices in range, listed slices, lists, dictionaries, sets, callables', functions=F, params=dict(D=D, kind=kind), validate=6, window=40, seconds=60 if tier == 'quick' else 300))
    for kind in KINDS:
        for D in [d for d in definitions(tier) if d.name in ('repeated', 'nested repeated', 'matrices') + (('nested twice',) if tier == 'thorough' else ())]:
            o.append(Ob('prefix %s, %s' % (D.name, kind), prefixed, KINDS[kind], bounds='prefixes of length 1 to 3', functions=F, params=dict(D=D, kind=kind), validate=4, window=40, seconds=60 if tier == 'quick' else 300))
        o.append(Ob('slices, %s' % kind, sliced, KINDS[kind], bounds='3 repetitions, all start and stop within one beyond the range, steps 1, 2, -1, -2', functions=F, params=dict(n=3, kind=kind), validate=4, window=40))
        o.append(Ob('lists, %s' % kind, listed, KINDS[kind], bounds='lists of 3 arbitrary indices, 2 repetitions', functions=F, params=dict(n=2, kind=kind), validate=4, window=40))
        o.append(Ob('numpy integers, %s' % kind, numpy_ints, KINDS[kind], bounds='all integers in range, 2x3 repetitions, 3 types', functions=F, params=dict(kind=kind), validate=4, window=40))
        for D in (MANY, MANY2):
            o.append(Ob('%s, %s' % (D.name, kind), many, KINDS[kind], bounds='12 repetitions or entries', functions=F, params=dict(kind=kind, D=D), validate=4, window=40))
        o.append(Ob('names, %s' % kind, names, KINDS[kind], bounds='4 lists of names', functions=F, params=dict(kind=kind), validate=4))
    return o
