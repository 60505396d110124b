from ineqcommon import *

F = ['inequality.Inequality.__new__', 'inequality.Inequality.numel', 'inequality.BoundedVariable.__new__', 'inequality._convertToDmIfNotDmStruct']
ASSUMPTIONS = ['Bounds and nominal values are arbitrary real numbers (symbols) or omitted; no order of the bounds is assumed.',
               'In encoding dms the class DM holds symbols instead of floats; replays use real DM matrices, arrays and lists.']
ARGS = ('lb', 'ub', 'nominal')


def expression(S, n, m, which):
    x = S.mx('x', n, m) if which != 'SX' else S.sxvec('x', n, m)
    if which == 'expression':
        y = S.mx('y', n, m)
        x = 2 * x - y
    return x, S.elems(x)


def given(S, M, n, m, which, full):
    """any of the arguments present or omitted"""
    x, X = expression(S, n, m, which)
    has = [k for k in ARGS if S.choice('has ' + k, [True, False])]
    forms = accepted(n, m)
    kw, want = {}, {'lb': [NINF] * (n * m), 'ub': [PINF] * (n * m)}
    for k in has:
        kw[k], want[k] = value(S, k, n, m, forms if full == k else ('DM',), M)
    pos = S.choice('positional', [False, True]) if has == list(ARGS) else False
    i = M.Inequality(x, *[kw[k] for k in ARGS]) if pos else M.Inequality(x, **kw) if S.choice('expr by name', [False, True]) is False else M.Inequality(expr=x, **kw)
    S.true(i.numel() == n * m, 'number of elements')
    kept(S, i.expr, X, (n, m), 'expression') if which == 'SX' else S.eq_all(S.elems(i.expr), X, 'expression')
    S.true(tuple(i.expr.shape) == (n, m), 'shape of the expression')
    for k in ('lb', 'ub'):
        kept(S, getattr(i, k), want[k], (n, m), k)
    if 'nominal' in has:
        kept(S, i.nominal, want['nominal'], (n, m), 'nominal')
    else:
        S.true(i.nominal is None, 'no nominal value')
    for k in has:
        if hasattr(kw[k], 'prefix'):
            # structured bounds stay accessible by name
            h = n // 2
            kept(S, getattr(i, k)['p'], want[k][:h], (h, 1), k + ' p')
            kept(S, getattr(i, k)['q'], want[k][h:], (n - h, 1), k + ' q')
    e, lb, ub, nominal = i
    kept(S, lb, want['lb'], (n, m), 'second field')
    kept(S, ub, want['ub'], (n, m), 'third field')


def wrong(S, M, n, m, which):
    """one argument of another shape"""
    x, X = expression(S, n, m, which)
    k = S.choice('argument', list(ARGS))
    r, c = S.choice('rows', range(n + 3)), S.choice('columns', range(m + 2))
    others = S.choice('others', ['none', 'all'])
    kw = {} if others == 'none' else {a: S.dm(a, n, m) for a in ARGS}
    form = S.choice('form', ['DM', 'matrix array'])
    S.assume(form == 'DM' or r * c > 0)
    kw[k], V = value(S, 'w', r, c, (form,), M)
    if (r, c) == (n, m):
        S.cover('accepted')
        kept(S, getattr(M.Inequality(x, **kw), k), V, (n, m), k)
    else:
        S.cover('refused')
        S.raises(lambda: M.Inequality(x, **kw), '%s of shape %s for an expression of shape %s' % (k, (r, c), (n, m)))


def variable(S, M, n, m):
    nom, N = value(S, 'nominal', n, m, ['DM', 'matrix array'] + (['struct'] if m == 1 and n > 1 else []), M)
    has = [k for k in ('lb', 'ub') if S.choice('has ' + k, [True, False])]
    kw, want = {}, {'lb': [NINF] * (n * m), 'ub': [PINF] * (n * m)}
    for k in has:
        kw[k], want[k] = value(S, k, n, m, accepted(n, m), M)
    name = S.choice('name', ['x', 'q1'])
    b = M.BoundedVariable(name, nominal=nom, **kw)
    S.true(isinstance(b, M.Inequality), 'is an inequality')
    S.true(isinstance(b.expr, cs.MX) and b.expr.is_symbolic() and b.expr.name() == name, 'symbol of that name')
    S.true(tuple(b.expr.shape) == (n, m) and b.numel() == n * m, 'shape')
    kept(S, b.nominal, N, (n, m), 'nominal')
    for k in ('lb', 'ub'):
        kept(S, getattr(b, k), want[k], (n, m), k)
    # another variable of the same name is another symbol
    c = M.BoundedVariable(name, nominal=nom, **kw)
    S.true(not cs.depends_on(b.expr, c.expr), 'fresh symbol')
    kept(S, b.nominal, N, (n, m), 'nominal after creating another variable')
    bad = S.choice('wrong', ['lb', 'ub'])
    r, q = S.choice('shape', [(n + 1, m), (n, m + 1), (n + 1, m + 1)])
    S.raises(lambda: M.BoundedVariable(name, nominal=nom, **{bad: S.dm('w', r, q)}), 'bound of another shape')


def defaults(S, M):
    i = M.Inequality()
    S.true(i.numel() == 0 and i.lb.numel() == 0 and i.ub.numel() == 0 and i.nominal is None, 'empty inequality')
    b = M.BoundedVariable()
    S.true(b.numel() == 0 and b.lb.numel() == 0 and b.ub.numel() == 0 and b.nominal.numel() == 0, 'empty variable')
    n = S.choice('n', range(4))
    for m in (1, 2):
        i = M.Inequality(cs.MX.sym('x', n, m))
        kept(S, i.lb, [NINF] * (n * m), (n, m), 'lb')
        kept(S, i.ub, [PINF] * (n * m), (n, m), 'ub')
        S.true(i.nominal is None, 'no nominal value')
    # earlier objects are not shared
    S.true(M.Inequality().numel() == 0 and M.BoundedVariable().numel() == 0, 'empty again')


def obligations(tier):
    th = tier == 'thorough'
    o = []
    shapes = [(1, 1), (2, 1), (3, 1), (1, 2), (2, 2)] + ([(5, 1), (2, 3), (3, 3)] if th else [])
    for n, m in shapes:
        for which in ('symbol', 'expression', 'SX'):
            for full in ARGS:
                o.append(Ob('given %dx%d %s %s' % (n, m, which, full), given, 'dms', bounds='all values, every set of omitted arguments', functions=F, params=dict(n=n, m=m, which=which, full=full), validate=4))
            o.append(Ob('other shapes %dx%d %s' % (n, m, which), wrong, 'dms', bounds='up to %d x %d' % (n + 2, m + 1), functions=F, params=dict(n=n, m=m, which=which), validate=6))
        o.append(Ob('variable %dx%d' % (n, m), variable, 'dms', bounds='all values', functions=F, params=dict(n=n, m=m), validate=6))
    o.append(Ob('defaults', defaults, 'dms', bounds='up to 3x2', functions=F))
    return o
