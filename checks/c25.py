from structcommon import *

F = ['structure3.MXVeccatStruct.__init__', 'structure3.MXVeccatStruct.__setitem__', 'structure3.MXVeccatStruct.master', 'structure3.MatrixStruct.__init__', 'structure3.CasadiStructEntry.__init__', 'structure3.GetterDispatcher.__call__']
ASSUMPTIONS = ['Expressions are generic: affine and quadratic combinations of symbols with arbitrary values.']
SPX = cs.Sparsity(3, 2, [0, 1, 3], [1, 0, 2])


class Exprs:
    """fresh expressions of given shapes"""

    def __init__(self, S, kind):
        self.S, self.kind, self.k = S, kind, 0

    def __call__(self, shape=(1, 1)):
        self.k += 1
        n, m = shape.shape if isinstance(shape, cs.Sparsity) else shape
        x = content(self.S, self.kind, 'e%d' % self.k, n, m)
        if isinstance(shape, cs.Sparsity):
            x = cs.project(x, shape)
        how = self.k % 3
        return x if how == 0 else 2 * x - x * x if how == 1 else x * 3


def spec(S, X, name):
    """(name, expression or nested list) with the reference entry"""
    def one(nm, shape):
        return nm, X(shape), E(nm, shape)

    def lst(nm, shape, n):
        return nm, [X(shape) for _ in range(n)], E(nm, shape, repeat=n)
    if name == 'mixed':
        return [one('a', (2, 1)), one('b', (2, 3)), one('c', (1, 1)), one('d', (1, 3))]
    if name == 'sparse':
        return [one('a', SPX), one('b', cs.Sparsity.diag(2)), one('c', (2, 2)), one('d', cs.Sparsity(2, 2)), one('e', cs.Sparsity.upper(2))]
    if name == 'lists':
        return [lst('a', (2, 1), 3), one('b', (1, 1)), lst('c', (1, 1), 1), lst('d', (2, 2), 2)]
    if name == 'grouped':
        return [(lst('a', (2, 1), 2), lst('b', (1, 1), 3)), one('c', (2, 1))]
    if name == 'nested lists':
        return [('a', [[X((2, 1)), X((2, 1))], [X((2, 1)), X((2, 1))]], E('a', 2, repeat=[2, 2])), one('b', (1, 2))]
    if name == 'sparse lists':
        return [('a', [X(SPX), X(SPX)], E('a', SPX, repeat=2)), one('b', (2, 1))]
    if name == 'empty':
        return [one('a', (0, 1)), one('b', (2, 1)), one('c', (0, 2))]


CASES = ['mixed', 'sparse', 'lists', 'grouped', 'nested lists', 'sparse lists', 'empty']


def nz(S, e):
    """column-major nonzeros"""
    if isinstance(e, list):
        return [v for x in e for v in nz(S, x)]
    sp = e.sparsity()
    el = S.elems(e)
    return [el[j * sp.size1() + i] for i, j in zip(sp.row(), sp.get_col())]


def fill(S, D, name, e, V):
    """expected contents: expression tree e at entry name"""
    def rec(canon, x):
        if isinstance(x, list):
            for k, y in enumerate(x):
                rec(canon + (k,), y)
        else:
            a = D.flat[canon]
            el = S.elems(x)
            for q, k in enumerate(a.reshape(-1, order='F')):
                if k >= 0:
                    V[int(k)] = el[q]
    rec((name,), e)


def expected(S, D, ex):
    V = [0] * D.n
    for k, e in ex.items():
        fill(S, D, k, e, V)
    return V


def build(S, M, kind, case):
    X = Exprs(S, kind)
    sp = spec(S, X, case)
    D = Def(case, [tuple(x[2] for x in it) if isinstance(it[0], tuple) else it[2] for it in sp])
    ex = {}
    ent = []
    for it in sp:
        g = it if isinstance(it[0], tuple) else (it,)
        for nm, e, _ in g:
            ex[nm] = e
        r = tuple(M.entry(nm, expr=e) for nm, e, _ in g)
        ent.append(r if isinstance(it[0], tuple) else r[0])
    cls = {'SX': 'struct_SX', 'MX': 'struct_MX', 'MXm': 'struct_MX_mutable'}
    return X, D, ex, ent, cls


def holds(S, D, s, ex, label):
    V = expected(S, D, ex)
    S.true(s.size == D.n, label + ': size')
    S.eq_all(S.elems(s.cat), V, label + ': flat vector')
    for k in D.keys:
        same(S, s[k], Ref(D).get([k]), V, '%s: %s' % (label, k))
        if isinstance(ex[k], list):
            for i in range(len(ex[k])):
                same(S, s[k, i], Ref(D).get([k, i]), V, '%s: %s[%d]' % (label, k, i))
                same(S, s[k, i - len(ex[k])], Ref(D).get([k, i]), V, '%s: %s[%d]' % (label, k, i))
        elif 0 not in ex[k].shape:
            n, m = ex[k].shape
            same(S, s[k, n - 1, 0], Ref(D).get([k, n - 1, 0]), V, '%s: element' % label)


def body(S, M, cls, case):
    kind = 'SX' if cls == 'struct_SX' else 'MX'
    X, D, ex, ent, _ = build(S, M, kind, case)
    s = getattr(M, cls)(ent)
    holds(S, D, s, ex, 'built')


def ordered(S, M, case):
    """entries in an explicit order, and replaced"""
    X, D, ex, ent, _ = build(S, M, 'MX', case)
    k = D.keys
    order = S.choice('order', [k, k[::-1], k[1:] + k[:1], [k[2], k[0], k[1], k[3]]] + ([[(k[0], k[3]), k[1], k[2]], [k[1], k[2], (k[3], k[0])]] if case == 'lists' else []))
    D = Def(case, D.items, order)
    s = M.struct_MX(ent, order=order)
    holds(S, D, s, ex, 'built')
    new = X((1, 1))
    e = 'b' if case == 'lists' else 'c'
    s[e] = new
    ex[e] = new
    holds(S, D, s, ex, 'replaced')


def replace(S, M, cls, case):
    """a sequence of two replacements of entries"""
    kind = 'SX' if cls == 'struct_SX' else 'MX'
    X, D, ex, ent, _ = build(S, M, kind, case)
    s = getattr(M, cls)(ent)
    shape = lambda e: e.sparsity() if not e.is_dense() else e.shape
    for step in (1, 2):
        k = S.choice('entry%d' % step, D.keys)
        e = ex[k]
        if isinstance(e, list) and isinstance(e[0], list):
            i, j = S.int('i%d' % step, -len(e), len(e) - 1), S.int('j%d' % step, -len(e[0]), len(e[0]) - 1)
            new = X(shape(e[0][0]))
            s[k, i, j] = new
            ex[k] = [list(x) for x in e]
            ex[k][int(i)][int(j)] = new
        elif isinstance(e, list):
            if S.choice('all%d' % step, [True, False]):
                new = [X(shape(x)) for x in e]
                s[k] = new
                ex[k] = list(new)
            else:
                i = S.int('i%d' % step, -len(e), len(e) - 1)
                new = X(shape(e[0]))
                s[k, i] = new
                ex[k] = list(e)
                ex[k][int(i)] = new
        else:
            new = X(shape(e))
            s[k] = new
            ex[k] = new
        holds(S, D, s, ex, 'after %d replacements' % step)


def refused(S, M):
    X, D, ex, ent, _ = build(S, M, 'MX', 'mixed')
    s = M.struct_MX(ent)
    k = S.choice('entry', D.keys)
    n, m = ex[k].shape
    r, c = S.choice('rows', range(4)), S.choice('columns', range(4))
    if (r, c) == (n, m):
        s[k] = X((r, c))
        return
    S.raises(lambda: s.__setitem__(k, X((r, c))), 'expression of shape %s accepted for %s' % ((r, c), (n, m)))
    if n == r and m == c + 1:
        S.raises(lambda: s.__setitem__(k, X(cs.Sparsity(n, m))), 'expression of other sparsity accepted')
    S.raises(lambda: s.__setitem__((k, 0), X((1, 1))), 'element assignment accepted')
    holds(S, D, s, ex, 'after a refused assignment')


def unassigned(S, M):
    """structure without expressions, assigned entry by entry in arbitrary order"""
    X = Exprs(S, 'MX')
    D = Def('given layout', [E('a', 2), E('b', repeat=2), E('p', sub=PT), E('z', (2, 2))])
    s = M.struct_MX(D.build(M))
    todo = [('a',), ('b', 0), ('b', 1), ('p',), ('z',)]
    V = [None] * D.n
    order = S.choice('order', [[0, 1, 2, 3, 4], [4, 3, 2, 1, 0], [2, 0, 4, 1, 3]])
    for q in order:
        S.raises(lambda: s.cat, 'unassigned vector read')
        S.raises(lambda: s['z'], 'unassigned vector read')
        S.raises(lambda: s['a'], 'unassigned vector read')
        c = todo[q]
        a = Ref(D).get(list(c))
        e = X(a.shape)
        s[c if len(c) > 1 else c[0]] = e
        for k, v in zip(a.reshape(-1, order='F'), S.elems(e)):
            V[int(k)] = v
    S.eq_all(S.elems(s.cat), V, 'flat vector')
    for k in D.keys:
        same(S, s[k], Ref(D).get([k]), V, k)
    same(S, s['p', 'b'], Ref(D).get(['p', 'b']), V, 'p.b')


def of_structs(S, M):
    """entries may be structures themselves"""
    x = M.struct_symMX([M.entry('u', shape=2), M.entry('v')])
    X0 = S.bind(x.cat, 'x')
    y = S.mx('y', 2)
    Y = S.elems(y)
    e = M.struct_MX([M.entry('y', expr=y), M.entry('x', expr=x)])
    S.eq_all(S.elems(e.cat), Y + X0, 'flat vector')
    S.eq_all(S.elems(e['x']), X0, 'structure as entry')
    S.true(e.size == 5, 'size')


def missing(S, M):
    """entries without an expression are refused"""
    k = S.choice('class', ['struct_MX', 'struct_SX', 'struct_MX_mutable'])
    x = S.mx('x', 2) if 'MX' in k else S.sxvec('x', 2)
    j = S.choice('position', [0, 1])
    e = [M.entry('a', expr=x), M.entry('b', expr=x)]
    e[j] = M.entry('ab'[j], shape=2)
    S.raises(lambda: getattr(M, k)(e), 'entry without expression accepted')


def obligations(tier):
    o = []
    for cls in ('struct_SX', 'struct_MX', 'struct_MX_mutable'):
        for case in CASES:
            b = 'all values of generic expressions'
            o.append(Ob('%s %s' % (cls, case), body, 'ints', bounds=b, functions=F, params=dict(cls=cls, case=case)))
            if case not in ('empty',):
                o.append(Ob('%s %s replaced' % (cls, case), replace, 'ints', bounds=b + ', two replacements at arbitrary entries and integers', functions=F, params=dict(cls=cls, case=case), validate=6, seconds=120))
    for case in ('mixed', 'lists'):
        o.append(Ob('ordered %s' % case, ordered, 'ints', bounds='all values of generic expressions, %d orders' % (6 if case == 'lists' else 4), functions=F, params=dict(case=case), validate=6))
    o.append(Ob('refused', refused, 'ints', bounds='all shapes up to 3x3', functions=F, validate=10))
    o.append(Ob('unassigned', unassigned, 'ints', bounds='three orders of assignment', functions=F))
    o.append(Ob('structures as entries', of_structs, 'ints', bounds='all values', functions=F))
    o.append(Ob('missing expression', missing, 'ints', bounds='3 classes', functions=F))
    return o
