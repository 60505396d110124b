from ineqcommon import *

F = ['inequality.vertcat', 'inequality.Inequality.__new__', 'structure3.MXVeccatStruct.__init__', 'structure3.CasadiStructureDerivable.__call__']
ASSUMPTIONS = ['Bounds and nominal values are arbitrary real numbers (symbols) or omitted.',
               'In encoding dms the class DM holds symbols instead of floats; replays use real DM matrices.',
               'The list has at least one part and its parts have equally many columns.']


def part(S, M, k, n, m, has=None):
    """one inequality; expected expression, bounds and nominal value"""
    x = S.mx('x%d' % k, n, m)
    if k % 2:
        x = x + 3 * S.mx('y%d' % k, n, m)
    q = n * m
    has = S.choice('part %d has' % k, [('lb', 'ub', 'nominal'), ('lb',), ('ub', 'nominal'), ('nominal',), ()]) if has is None else has
    w = {'expr': S.elems(x), 'lb': [NINF] * q, 'ub': [PINF] * q, 'nominal': None}
    kw = {}
    for a in has:
        kw[a] = S.dm('%s%d' % (a, k), n, m)
        w[a] = S.elems(kw[a])
    return M.Inequality(x, **kw), w


def rows(ws, ns, m, a):
    """elements of the stacked parts, column-major"""
    return [ws[k][a][j * ns[k] + i] for j in range(m) for k in range(len(ns)) for i in range(ns[k])]


def some(S, M, ns, m=None):
    """the parts; of many, all have the same arguments except for one"""
    sh = [(n, m) if m else n for n in ns]
    if len(ns) < 4:
        return [part(S, M, k, *s) for k, s in enumerate(sh)]
    sets = [('lb', 'ub', 'nominal'), ('lb', 'nominal'), ('ub',), ()]
    a, b, j = S.choice('most', sets), S.choice('one', sets), S.choice('which', [0, len(ns) // 2, len(ns) - 1])
    return [part(S, M, k, *s, has=b if k == j else a) for k, s in enumerate(sh)]


def stacked(S, M, ns, m):
    ps = some(S, M, ns, m)
    ineq, ws = [p[0] for p in ps], [p[1] for p in ps]
    r = M.mod('inequality').vertcat(ineq if S.choice('form', ['list', 'tuple']) == 'list' else tuple(ineq))
    N = sum(ns)
    S.true(isinstance(r, M.Inequality) and r.numel() == N * m, 'number of elements')
    S.true(tuple(r.expr.shape) == (N, m), 'shape of the expression')
    S.eq_all(S.elems(r.expr), rows(ws, ns, m, 'expr'), 'expression')
    for a in ('lb', 'ub'):
        kept(S, getattr(r, a), rows(ws, ns, m, a), (N, m), a)
    if all(w['nominal'] is not None for w in ws):
        S.cover('nominal')
        kept(S, r.nominal, rows(ws, ns, m, 'nominal'), (N, m), 'nominal')
    else:
        S.cover('no nominal')
        S.true(r.nominal is None, 'no nominal value')
    # the parts are unchanged
    for k, (i, w) in enumerate(zip(ineq, ws)):
        kept(S, i.lb, w['lb'], (ns[k], m), 'lb of part %d' % k)
        kept(S, i.ub, w['ub'], (ns[k], m), 'ub of part %d' % k)
        S.eq_all(S.elems(i.expr), w['expr'], 'expression of part %d' % k)


def named(S, M, shapes, keys):
    ps = some(S, M, shapes)
    ws = [p[1] for p in ps]
    d = dict(zip(keys, [p[0] for p in ps]))
    r = M.mod('inequality').vertcat(d)
    N = sum(n * m for n, m in shapes)
    S.true(isinstance(r, M.Inequality) and r.numel() == N and tuple(r.expr.shape) == (N, 1), 'number of elements')
    S.eq_all(S.elems(r.expr), [v for w in ws for v in w['expr']], 'expression')
    nom = all(w['nominal'] is not None for w in ws)
    S.cover('nominal' if nom else 'no nominal')
    S.true((r.nominal is not None) == nom, 'nominal value present if all parts have one')
    for a in ('lb', 'ub') + (('nominal',) if nom and r.nominal is not None else ()):
        kept(S, getattr(r, a), [v for w in ws for v in w[a]], (N, 1), a)
        for k, key in enumerate(keys):
            kept(S, getattr(r, a)[key], ws[k][a], shapes[k], '%s of %s' % (a, key))
    for k, key in enumerate(keys):
        S.true(tuple(r.expr[key].shape) == shapes[k], 'shape of %s' % key)
        S.eq_all(S.elems(r.expr[key]), ws[k]['expr'], 'expression of %s' % key)


def again(S, M, form):
    """a concatenation can be concatenated"""
    a, wa = part(S, M, 0, 2, 1)
    b, wb = part(S, M, 1, 1, 1)
    c, wc = part(S, M, 2, 2, 1, has=('lb', 'ub', 'nominal'))
    v = M.mod('inequality').vertcat
    inner = v({'a': a, 'b': b}) if form == 'dictionary' else v([a, b])
    if form == 'dictionary':
        inner = M.Inequality(inner.expr.cat, inner.lb.cat, inner.ub.cat, None if inner.nominal is None else inner.nominal.cat)
    r = v([inner, c]) if S.choice('outer', ['list', 'dictionary']) == 'list' else v({'i': inner, 'c': c})
    S.eq_all(S.elems(r.expr), wa['expr'] + wb['expr'] + wc['expr'], 'expression')
    for k in ('lb', 'ub'):
        kept(S, getattr(r, k), wa[k] + wb[k] + wc[k], (5, 1), k)
    if wa['nominal'] is None or wb['nominal'] is None:
        S.true(r.nominal is None, 'no nominal value')
    else:
        kept(S, r.nominal, wa['nominal'] + wb['nominal'] + wc['nominal'], (5, 1), 'nominal')


def variables(S, M):
    """bounded variables"""
    n = [S.choice('n%d' % k, [1, 2]) for k in range(2)]
    kw = [{'nominal': S.dm('nom%d' % k, n[k]), 'lb': S.dm('lb%d' % k, n[k])} for k in range(2)]
    x = [M.BoundedVariable('v%d' % k, **kw[k]) for k in range(2)]
    X = [S.bind(v.expr, 'x%d' % k) for k, v in enumerate(x)]
    N = sum(n)
    r = M.mod('inequality').vertcat(x if S.choice('form', ['list', 'dict']) == 'list' else {'a': x[0], 'b': x[1]})
    S.eq_all(S.elems(r.expr), X[0] + X[1], 'expression')
    kept(S, r.lb, S.elems(kw[0]['lb']) + S.elems(kw[1]['lb']), (N, 1), 'lb')
    kept(S, r.ub, [PINF] * N, (N, 1), 'ub')
    kept(S, r.nominal, S.elems(kw[0]['nominal']) + S.elems(kw[1]['nominal']), (N, 1), 'nominal')


def obligations(tier):
    th = tier == 'thorough'
    o = []
    for ns, m in [([2], 1), ([1, 1], 1), ([2, 3], 1), ([3, 1, 2], 1), ([1, 2], 2), ([1, 2, 1, 1], 1), ([2, 1] * 6, 1)] + ([([2, 1, 2], 3)] if th else []):
        o.append(Ob('list %s x %d' % (ns, m), stacked, 'dms', bounds='all values, 5 sets of omitted arguments per part (4 parts and more: one part differs)', functions=F, params=dict(ns=ns, m=m), validate=6, seconds=120))
    for shapes, keys in [([(2, 1)], ['a']), ([(1, 1), (2, 1), (1, 1)], ['bb', 'c', 'aaa']), ([(1, 1), (1, 1)], ['b', 'a']), ([(2, 1), (3, 1)], ['y', 'x']), ([(2, 2), (1, 1), (1, 3)], ['m', 'a', 'z']), ([(1, 1), (2, 1), (1, 1), (2, 3)], ['d', 'c', 'b', 'a']), ([(1 + k % 2, 1) for k in range(12)], ['n%d' % k for k in range(12)])]:
        o.append(Ob('dictionary %s' % shapes, named, 'dms', bounds='all values, 5 sets of omitted arguments per part (4 parts and more: one part differs)', functions=F, params=dict(shapes=shapes, keys=keys), validate=6, seconds=120))
    for form in ('list', 'dictionary'):
        o.append(Ob('concatenation of a %s' % form, again, 'dms', bounds='all values', functions=F, params=dict(form=form), validate=6))
    o.append(Ob('variables', variables, 'dms', bounds='all values', functions=F, validate=6))
    return o
