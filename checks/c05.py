from common import *

F = ['butcher.butcherTableuForCollocationPoints', 'butcher.ButcherTableau.__init__', 'butcher.butcherTableuForCollocationMethod']


def nodes_body(S, M, n):
    tau = S.reals('t', n)
    S.distinct(tau)
    B = M.butcherTableuForCollocationPoints(arr(S, tau))
    S.true(shape(B.A) == (n, n) and shape(B.b) == (n,) and shape(B.c) == (n,), 'shapes')
    for k in range(n):
        for i in range(n):
            S.eq(dsum(at(B.A, i, j) * power(tau[j], k) for j in range(n)) * (k + 1), power(tau[i], k + 1), 'A row %d, degree %d' % (i, k))
        S.eq(dsum(B.b[j] * power(tau[j], k) for j in range(n)) * (k + 1), 1, 'b, degree %d' % k)
    for i in range(n):
        S.eq(B.c[i], tau[i], 'c')


def _linear(S, B, tau, label):
    n = len(tau)
    num = (lambda v: Fraction(float(v))) if S.symbolic else float
    t = [num(v) for v in tau]
    c = S.reals('c', n)
    p = [dsum(c[k] * power(x, k) for k in range(n)) for x in t]
    S.true(shape(B.A) == (n, n) and shape(B.b) == (n,) and shape(B.c) == (n,), 'shapes')
    for i in range(n):
        S.eq(dsum(p[j] * float(at(B.A, i, j)) for j in range(n)), dsum(c[k] * (power(t[i], k + 1) / (k + 1)) for k in range(n)), label + ' A row %d' % i, 1e-6)
        S.eq(float(B.c[i]), t[i], label + ' c', 1e-13)
    S.eq(dsum(p[j] * float(B.b[j]) for j in range(n)), dsum(c[k] * num(1) / (k + 1) for k in range(n)), label + ' b', 1e-6)


def grid_body(S, M, tier):
    g = [(k, v) for k, v in grids(tier) if k in ('one', 'unit2', 'int3', 'rev3', 'perm5', 'cheb8')] + [('inner', [.2, .5, .7]), ('outer', [-.5, .25, 1.5]), ('list', [0, 1])]
    name, tau = S.choice('grid', g)
    if name != 'list':
        tau = np.asarray(tau)
    _linear(S, M.butcherTableuForCollocationPoints(np.asarray(tau) if name != 'list' else np.array(tau)), np.asarray(tau, dtype=float), name)


def method_body(S, M, orders):
    import casadi as cs
    n = S.choice('order', orders)
    m = S.choice('method', ['legendre', 'radau'])
    # independent of tableaus made before
    M.butcherTableuForCollocationMethod(n, {'legendre': 'radau', 'radau': 'legendre'}[m])
    M.butcherTableuForCollocationMethod(n % 9 + 1, m)
    _linear(S, M.butcherTableuForCollocationMethod(n, m), cs.collocation_points(n, m), '%s %d' % (m, n))


def shape_body(S, M, window):
    """the tableau is accepted iff A is n x n and b, c have n elements"""
    shp = [(), (1,), (2,), (3,), (1, 1), (2, 2), (1, 2), (2, 1), (3, 3), (2, 3), (3, 2), (2, 2, 2), (1, 3), (3, 1)]
    sa = S.choice('A', shp)
    sb = S.choice('b', shp)
    sc = S.choice('c', shp)
    v = S.real('v')
    mk = lambda s: np.full(s, v, dtype=object if S.symbolic else float)
    ok = len(sa) == 2 and sa[0] == sa[1] and sb == (sa[0],) and sc == (sa[0],)
    if ok:
        T = M.ButcherTableau(mk(sa), mk(sb), mk(sc))
        S.true(shape(T.A) == sa and shape(T.b) == sb and shape(T.c) == sc, 'stored shapes')
        S.eq(at(T.A, 0, 0), v, 'stored value')
        S.eq(T.b[-1], v, 'stored value')
        S.eq(T.c[-1], v, 'stored value')
    else:
        S.raises(lambda: M.ButcherTableau(mk(sa), mk(sb), mk(sc)), 'inconsistent shapes %s %s %s accepted' % (sa, sb, sc))


def obligations(tier):
    ns = [1, 2, 3, 4] if tier == 'quick' else [1, 2, 3, 4, 5]
    return [Ob('nodes n=%d' % n, nodes_body, bounds='%d symbolic distinct nodes' % n, functions=F[:2], params=dict(n=n)) for n in ns] + [
        Ob('grids', grid_body, 'real', bounds='fixed grids of up to 9 nodes', functions=F[:2], params=dict(tier=tier)),
        Ob('methods', method_body, 'real', bounds='orders 1..9, legendre and radau', functions=F, params=dict(orders=list(range(1, 10)))),
        Ob('shapes', shape_body, bounds='all triples of 14 array shapes', functions=F[1:2], params=dict(window=3), validate=5)]
