from structcommon import *

F = ['structure3.ssymStruct.__init__', 'structure3.msymStruct.__init__', 'structure3.CasadiStructEntry.__init__', 'structure3.VertsplitStructure.buildMap']
ASSUMPTIONS = ['Every symbol has an arbitrary real value.', 'Names of symbols are not part of the property.']
SP = cs.Sparsity(3, 2, [0, 1, 3], [1, 0, 2])


def independent(S, M, D, kind):
    """any vector of values can be given to the symbols, and every entry takes its own"""
    s = D.build(M, 'struct_' + kind)
    V = S.reals('v', D.n)
    S.true(tuple(s.cat.shape) == (D.n, 1), 'size')
    S.true(s.cat.is_valid_input(), 'consists of symbols')
    keys = list(D.flat)
    outs, refs = [], []
    for c in keys:
        outs.append(s[c])
        e = D.leaf[c]
        a = D.flat[c]
        refs.append(np.where(a < 0, a.T, a) if e.symm else a)
    f = cs.Function('f', [s.cat], [s.cat] + outs)
    r = S.call(f, [V])
    S.eq_all(r[0], V, 'flat vector')
    for c, g, a, o in zip(keys, r[1:], refs, outs):
        S.true(tuple(o.shape) == a.shape, 'entry %s: shape' % (c,))
        # call gives dense column-major elements
        if tuple(o.shape) == a.shape:
            S.eq_all(g, [V[k] if k >= 0 else 0 for k in a.reshape(-1, order='F')], 'entry %s' % (c,))


def two(S, M, D, kind):
    """two structures of one definition have different symbols"""
    st = D.build(M)
    s, t = getattr(M, 'struct_' + kind)(st), getattr(M, 'struct_' + kind)(st)
    V, W = S.reals('v', D.n), S.reals('w', D.n)
    f = cs.Function('f', [s.cat, t.cat], [s.cat, t.cat])
    r = S.call(f, [V, W])
    S.eq_all(r[0], V, 'first')
    S.eq_all(r[1], W, 'second')


FORMS = ['scalar', 'column', 'row', 'matrix', 'sparse', 'symmetric', 'empty', 'structure', 'grouped structure', 'small structure', 'symbols for a structure', 'slice of a vector', 'permuted']


def given(S, M, form, k):
    """(entry keyword arguments, reference entry, the symbols in order)"""
    n = 'g%d' % k
    if form in ('structure', 'grouped structure', 'small structure'):
        D = {'structure': DEEP, 'grouped structure': GRP, 'small structure': Def('small', [E('a')])}[form]
        s = D.build(M, 'struct_symSX')
        return dict(sym=s), E('e%d' % k, sub=D), s.cat
    if form == 'symbols for a structure':
        x = cs.SX.sym(n, PT.n)
        return dict(sym=x, struct=PT.build(M)), E('e%d' % k, sub=PT), x
    if form == 'slice of a vector':
        x = cs.SX.sym(n, 5)[1:4]
    elif form == 'permuted':
        x = cs.SX.sym(n, 3)[[2, 0, 1]]
    elif form == 'sparse':
        x = cs.SX.sym(n, SP)
        return dict(sym=x), E('e%d' % k, SP), x.nz[:]
    elif form == 'symmetric':
        x = cs.SX.sym(n, 2, 2)
        return dict(sym=x, type='symm'), E('e%d' % k, (2, 2), symm=True), cs.vertcat(x[0, 0], x[0, 1], x[1, 1])
    else:
        x = cs.SX.sym(n, *{'scalar': (1, 1), 'column': (3, 1), 'row': (1, 3), 'matrix': (2, 3), 'empty': (0, 1)}[form])
    return dict(sym=x), E('e%d' % k, tuple(x.shape)), cs.vec(x)


def place(S, M, k):
    """given symbols are used, in their order, in their entry; the remaining entries have symbols of their own"""
    forms = [S.choice('form%d' % i, FORMS) for i in range(k)]
    layout = S.choice('layout', ['between', 'before', 'grouped', 'ordered'])
    g = [given(S, M, f, i) for i, f in enumerate(forms)]
    es = [M.entry(d.name, **kw) for kw, d, _ in g]
    ds = [d for _, d, _ in g]
    plain, pd = M.entry('y', shape=2, repeat=2), E('y', 2, repeat=2)
    kw = {}
    if layout == 'between':
        items, ref = es[:1] + [plain] + es[1:], ds[:1] + [pd] + ds[1:]
    elif layout == 'before':
        items, ref = [plain] + es, [pd] + ds
    elif layout == 'grouped':
        items, ref = [tuple([plain] + es[:1])] + es[1:], [tuple([pd] + ds[:1])] + ds[1:]
    else:
        items, ref = es + [plain], ds + [pd]
        kw = dict(order=[d.name for d in ds[::-1]] + ['y'])
    D = Def('given', ref, **kw)
    s = M.struct_symSX(items, **kw)
    S.true(tuple(s.cat.shape) == (D.n, 1), 'size')
    V = S.reals('v', D.n)
    outs = [x for _, _, x in g]
    f = cs.Function('f', [s.cat], outs + [s.cat] + [s[c] for c in D.flat])
    r = S.call(f, [V])
    for (kw_, d, x), v in zip(g, r):
        pos = [i for i, (c, e, a, b) in enumerate(D.cells) if c[0] == d.name]
        S.eq_all(v, [V[i] for i in pos], 'symbols given for %s' % d.name)
    for c, v in zip(D.flat, r[len(g) + 1:]):
        a = D.flat[c]
        a = np.where(a < 0, a.T, a) if D.leaf[c].symm else a
        S.eq_all(v, [V[i] if i >= 0 else 0 for i in a.reshape(-1, order='F')], 'entry %s' % (c,))


def refused(S, M):
    x = cs.SX.sym('x', 2)
    y = cs.MX.sym('y', 2)
    case = S.choice('case', ['expression', 'number', 'mx', 'list', 'with shape', 'with repeat', 'with expr', 'in symMX', 'expr in symSX', 'expr in symMX', 'partly'])
    ent, SXs, MXs = M.entry, M.struct_symSX, M.struct_symMX
    z = ent('z', shape=2)
    order = S.choice('position', [0, 1])

    def mk(cls, f):
        e = [f(), z]
        return cls(e[::-1] if order else e)
    do = {'expression': lambda: mk(SXs, lambda: ent('a', sym=2 * x)), 'number': lambda: mk(SXs, lambda: ent('a', sym=3.)), 'mx': lambda: mk(SXs, lambda: ent('a', sym=y)), 'list': lambda: mk(SXs, lambda: ent('a', sym=[x])),
          'with shape': lambda: mk(SXs, lambda: ent('a', sym=x, shape=2)), 'with repeat': lambda: mk(SXs, lambda: ent('a', sym=x, repeat=2)), 'with expr': lambda: mk(SXs, lambda: ent('a', sym=x, expr=x)),
          'in symMX': lambda: mk(MXs, lambda: ent('a', sym=x)), 'expr in symSX': lambda: mk(SXs, lambda: ent('a', expr=2 * x)), 'expr in symMX': lambda: mk(MXs, lambda: ent('a', expr=2 * y)),
          'partly': lambda: mk(SXs, lambda: ent('a', sym=cs.vertcat(x, x[0] + 1)))}[case]
    S.raises(do, case + ' accepted')


def obligations(tier):
    th = tier == 'thorough'
    o = []
    ds = definitions(tier) + [Def('symmetric', [E('y'), E('s', (2, 2), symm=True, repeat=2), E('t', (3, 3), symm=True)])]
    for D in ds:
        for kind in ('symSX', 'symMX'):
            o.append(Ob('%s, %s' % (kind, D.name), independent, 'real', bounds='all values', functions=F, params=dict(D=D, kind=kind)))
            if th or D.name in ('repeated', 'nested', 'grouped'):
                o.append(Ob('two of %s, %s' % (kind, D.name), two, 'real', bounds='all values', functions=F, params=dict(D=D, kind=kind)))
    o.append(Ob('one given', place, 'real', bounds='all values; 12 forms of given symbols, 4 layouts', functions=F, params=dict(k=1)))
    o.append(Ob('two given', place, 'real', bounds='all values; pairs of 12 forms of given symbols, 4 layouts', functions=F, params=dict(k=2), seconds=200))
    if th:
        o.append(Ob('three given', place, 'real', bounds='all values; triples of 12 forms of given symbols, 4 layouts', functions=F, params=dict(k=3), seconds=3000))
    o.append(Ob('refused', refused, 'real', bounds='11 cases', functions=F))
    return o
