from structcommon import *

F = ['structure3.CasadiStructured.shape', 'structure3.CasadiStructured.cat', 'structure3.DMStruct.__DM__', 'structure3.SXStruct.__SX__', 'structure3.MXStruct.__MX__', 'structure3.ssymStruct.__SX__', 'structure3.msymStruct.__MX__', 'structure3.MXVeccatStruct.master',
     'structure3.MXVeccatStruct.numel', 'structure3.MXVeccatStruct.is_valid_input', 'structure3.Prefixer.__getattr__', 'structure3.Prefixer.cast']
ASSUMPTIONS = ['Contents are arbitrary real numbers (symbols).', 'In encoding dms the class DM holds symbols instead of floats; replays use real DM matrices.',
               'CasADi operations other than those of the structure are trusted.']
TYPE = {'DM': cs.DM, 'SX': cs.SX, 'symSX': cs.SX, 'MX': cs.MX, 'symMX': cs.MX, 'exprMX': cs.MX, 'partsMX': cs.MX}


def parts(D, V):
    """V cut into the top-level expressions of D"""
    def at(k):
        a = Ref(D).get([k])

        def leaf(t):
            return [leaf(x) for x in t] if isinstance(t, list) else cs.reshape(V[[int(i) for i in t.reshape(-1, order='F')]], t.shape)
        return leaf(a)
    return [(k, at(k)) for k in D.keys]


def operand(S, M, D, kind):
    if kind == 'exprMX':
        x = S.mx('v', D.n)
        s = M.struct_MX([M.entry(k, expr=e) for k, e in parts(D, 2 * x)])
        return s, [2 * v for v in S.elems(x)]
    if kind == 'partsMX':
        v, es = [], []
        for k in D.keys:
            t = Ref(D).get([k])

            def leaf(t, tag):
                if isinstance(t, list):
                    return [leaf(x, '%s_%d' % (tag, i)) for i, x in enumerate(t)]
                m = S.mx(tag, *t.shape)
                v.extend(S.elems(m))
                return m
            es.append(M.entry(k, expr=leaf(t, k)))
        return M.struct_MX(es), v
    s, V = make(S, M, D, kind)
    if S.symbolic and kind == 'DM':
        # numbers are symbols in this encoding
        type(s).__SX__ = type(s).__DM__
    return s, V


def dot(a, b):
    r = 0
    for x, y in zip(a, b):
        r = r + x * y
    return r


OPS = ['vertcat', 'alone', 'twice in a list', 'veccat', 'sum from left', 'sum from right', 'product', 'dot', 'same twice', 'difference of itself', 'row times', 'constructor', 'call', 'call by name']
SYM = ['input', 'jacobian', 'substitute', 'input and output']


def apply(S, s, V, op, kind, label):
    n = len(V)
    ty = cs.SX if kind == 'DM' and S.symbolic else TYPE[kind]

    def other(tag='w', r=n, c=1):
        w = content(S, 'DM', tag, r, c)
        return (w if ty is cs.DM or S.symbolic and ty is cs.SX else ty(w) if not S.symbolic else lift(S, w, ty)), S.elems(w)

    def eq(x, v, shape=None):
        S.true(tuple(x.shape) == (shape or (len(v), 1)), '%s: shape %s' % (label, tuple(x.shape)))
        if tuple(x.shape) == (shape or (len(v), 1)):
            S.eq_all(S.elems(x), v, label)
    if op == 'vertcat':
        w, W = other('w', 1)
        eq(cs.vertcat(w, s), W + V)
    elif op == 'alone':
        eq(cs.vec(s), V)
    elif op == 'twice in a list':
        eq(cs.horzcat(s, s), V + V, (n, 2))
    elif op == 'veccat':
        w, W = other('w', 1, 2)
        eq(cs.veccat(s, w), V + W)
    elif op == 'sum from left':
        w, W = other()
        eq(w + s, [a + b for a, b in zip(W, V)])
    elif op == 'sum from right':
        w, W = other()
        eq(cs.minus(s, w), [b - a for a, b in zip(W, V)])
    elif op == 'product':
        w, W = other()
        eq(w * s, [a * b for a, b in zip(W, V)])
    elif op == 'dot':
        w, W = other()
        eq(cs.dot(s, w), [dot(W, V)])
    elif op == 'same twice':
        eq(cs.dot(s, s), [dot(V, V)])
    elif op == 'difference of itself':
        eq(cs.minus(s, s), [0] * n)
    elif op == 'row times':
        w, W = other('w', 1, n)
        eq(cs.mtimes(w, s), [dot(W, V)])
    elif op == 'constructor':
        eq(ty(s), V)
    elif op in ('call', 'call by name'):
        q = cs.SX.sym('q', n)
        f = cs.Function('f', [q], [2 * q, cs.sumsqr(q)], ['q'], ['a', 'b'])
        r = f(s) if op == 'call' else [f(q=s)[k] for k in 'ab']
        eq(r[0], [2 * x for x in V])
        eq(r[1], [dot(V, V)])
    elif op == 'input':
        f = cs.Function('f', [s], [cs.vertcat(s, 3 * ty(s)[n - 1])])
        g = S.call(f, [V])
        S.eq_all(g[0], V + [3 * V[-1]], label)
    elif op == 'input and output':
        f = cs.Function('f', [s], [s, s], ['s'], ['a', 'b'])
        for g in S.call(f, [V]):
            S.eq_all(g, V, label)
    elif op == 'jacobian':
        eq(cs.jacobian(cs.sumsqr(s), s), [2 * x for x in V], (1, n))
    elif op == 'substitute':
        w, W = other()
        eq(cs.substitute(2 * ty(s), s, w), [2 * x for x in W])


def lift(S, w, ty):
    m = cs.MX.sym('m', w.size1(), w.size2())
    S.mxsyms = list(S.mxsyms) + [(cs.MX(m), w)]
    return m


def body(S, M, D, kind):
    s, V = operand(S, M, D, kind)
    n = D.n
    op = S.choice('op', ['attributes'] + [o for o in OPS if n or o not in ('call',)] + (SYM if kind in ('symSX', 'symMX') else []))
    if op == 'attributes':
        S.true(tuple(s.shape) == (n, 1), 'shape')
        S.true(s.size == n, 'size')
        S.true(tuple(s.cat.shape) == (n, 1), 'flat vector')
        S.true(tuple(s.sparsity().shape) == (n, 1) and s.sparsity().is_dense(), 'sparsity')
        if kind.endswith('MX'):
            S.true(s.numel() == n, 'number of elements')
        if kind in ('symMX', 'exprMX', 'partsMX'):
            S.true(bool(s.is_column()), 'column')
            S.true(bool(s.is_dense()), 'dense')
            S.true(bool(s.is_valid_input()) == (kind != 'exprMX'), 'valid input')
        return
    apply(S, s, V, op, kind, op)


def after(S, M, D, kind):
    """operations before and after an entry is replaced"""
    s, V = operand(S, M, D, kind)
    op = S.choice('op', OPS)
    apply(S, s, V, op, kind, op + ' before')
    k = S.choice('entry', D.keys)
    t = Ref(D).get([k])
    idx = [k]
    while isinstance(t, list):
        i = S.choice('at%d' % len(idx), list(range(len(t))))
        t = t[i]
        idx.append(i)
    w = content(S, kind if kind in ('DM', 'SX') else 'MX', 'n', *t.shape)
    V = list(V)
    for i, x in zip(t.reshape(-1, order='F'), S.elems(w)):
        V[i] = x
    s[tuple(idx)] = w
    apply(S, s, V, op, kind, op + ' after assignment')


def prefixed(S, M, D, kind):
    s, V = operand(S, M, D, kind)
    k = S.choice('entry', D.keys)
    t = Ref(D).get([k])
    idx = [k]
    while isinstance(t, list):
        i = S.choice('at%d' % len(idx), list(range(len(t))))
        t = t[i]
        idx.append(i)
    S.assume(len(t) != D.n)
    p = s.prefix[tuple(idx)]
    x = cs.vertcat(p)
    S.true(tuple(x.shape) == t.shape, 'prefixed operand: shape %s' % (tuple(x.shape),))
    if tuple(x.shape) == t.shape:
        S.eq_all(S.elems(x), [V[i] if i >= 0 else 0 for i in t.reshape(-1, order='F')], 'prefixed operand')


def viewed(S, M, D, kind, view):
    """a view stands for its matrix"""
    N = 2
    A = content(S, kind, 'a', D.n, D.n * N if view == 'squared_repeated' else D.n if view == 'squared' else N)
    V = S.elems(A)
    v = getattr(D.build(M), view)(A)
    if S.symbolic and kind == 'DM':
        type(v.struct).__SX__ = type(v.struct).__DM__
    shape = tuple(A.shape)
    op = S.choice('op', ['shape', 'vertcat', 'sum', 'dot', 'call', 'difference of itself'])
    if op == 'shape':
        S.true(tuple(v.shape) == shape, 'shape')
        return
    if op == 'vertcat':
        x, w = cs.vertcat(v, v), [V[c * shape[0] + r] for c in range(shape[1]) for k in (0, 1) for r in range(shape[0])]
    elif op == 'sum':
        x, w = A + v, [a + a for a in V]
    elif op == 'dot':
        x, w = cs.dot(v, v), [dot(V, V)]
    elif op == 'difference of itself':
        x, w = cs.minus(v, v), [0] * len(V)
    else:
        q = cs.SX.sym('q', *shape)
        x, w = cs.Function('f', [q], [3 * q])(v), [3 * a for a in V]
    S.true(x.numel() == len(w), op + ': size')
    if x.numel() == len(w):
        S.eq_all(S.elems(x), w, op)


def obligations(tier):
    th = tier == 'thorough'
    o = []
    ds = [D for D in definitions(tier) if D.n]
    dense = [D for D in ds if not any(e.sub is not None for e in D.entries.values()) and not any(isinstance(e.shape, cs.Sparsity) for e in D.entries.values())
             and D.order is None and not any(isinstance(i, tuple) for i in D.items) and all(all(x for x in e.dims) for e in D.entries.values())]
    for k, D in enumerate(ds):
        for kind in some_kinds(k, tier):
            o.append(Ob('%s, %s' % (kind, D.name), body, KINDS[kind], bounds='all contents, %d uses' % (len(OPS) + len(SYM)), functions=F, params=dict(D=D, kind=kind), validate=8))
    for D in dense:
        for kind in ('exprMX', 'partsMX'):
            o.append(Ob('%s, %s' % (kind, D.name), body, 'ints', bounds='all contents, %d uses' % len(OPS), functions=F, params=dict(D=D, kind=kind), validate=8))
        if th or D.name in ('matrices', 'repeated', 'two-dimensional repeats'):
            for kind in ('DM', 'SX', 'MX', 'partsMX', 'exprMX'):
                o.append(Ob('assigned %s, %s' % (kind, D.name), after, KINDS.get(kind, 'ints'), bounds='all contents, %d uses before and after any entry is replaced' % len(OPS), functions=F, params=dict(D=D, kind=kind), validate=8))
    for kind in ('DM', 'SX', 'MX'):
        for view in ('repeated', 'squared', 'squared_repeated'):
            for D in ([D for D in ds if D.n <= 40] if th else [PT]):
                o.append(Ob('view %s %s, %s' % (view, kind, D.name), viewed, KINDS[kind], bounds='all contents', functions=F, params=dict(D=D, kind=kind, view=view), seconds=600 if th else 60, validate=6))
    for kind in KINDS:
        o.append(Ob('prefix, %s' % kind, prefixed, KINDS[kind], bounds='all contents and entries', functions=F, params=dict(D=ds[1], kind=kind), known='prefix-operand', validate=6))
    return o
