from pwcommon import *

F = ['polynomial.PolynomialBasis.__init__', 'polynomial.PolynomialBasis.interpolationMatrix', 'polynomial.barycentricInterpolator', 'polynomial.polynomialInterpolator']


def _check(S, W, tau, q, label):
    """W[r][c]: interpolated value of s^r at q[c]"""
    n = len(tau)
    S.true(shape(W) == (n, len(q)), label + ': shape')
    for r in range(n):
        for c in range(len(q)):
            S.eq(at(W, r, c), power(q[c], r), '%s: degree %d at point %d' % (label, r, c))


def matrix_body(S, M, n, m):
    tau = S.reals('t', n)
    S.distinct(tau)
    q = S.reals('q', m)
    W = M.PolynomialBasis(arr(S, tau)).interpolationMatrix(arr(S, q) if m > 1 else q[0])
    S.true(shape(W) == (m, n), 'shape')
    for c in range(m):
        for r in range(n):
            S.eq(dsum(at(W, c, j) * power(tau[j], r) for j in range(n)), power(q[c], r), 'degree %d at point %d' % (r, c))
        for k in range(n):
            if bool(q[c] == tau[k]):
                S.cover('query at a node')
                for j in range(n):
                    S.eq(at(W, c, j), 1 if j == k else 0, 'weight at a node')


def interp_body(S, M, n, m, which):
    tau = S.reals('t', n)
    S.distinct(tau)
    q = S.reals('q', m)
    u = mat(S, [[power(t, r) for t in tau] for r in range(n)])
    f = getattr(M, which)(arr(S, tau))
    _check(S, f(u, arr(S, q) if m > 1 else q[0]), tau, q, which)


def values_body(S, M, n, which):
    """arbitrary values, query at each node: returned unchanged (1-d and 2-d values)"""
    tau = S.reals('t', n)
    S.distinct(tau)
    u = [S.reals('u', n), S.reals('v', n)]
    k = S.choice('node', range(n))
    f = getattr(M, which)(arr(S, tau))
    r = f(mat(S, u), tau[k])
    S.eq(at(r, 0, 0), u[0][k], which + ' value at node')
    S.eq(at(r, 1, 0), u[1][k], which + ' value at node')
    r1 = f(arr(S, u[0]), tau[k])
    S.true(np.size(r1) == 1, 'size for 1-d values')
    S.eq(np.asarray(r1, dtype=object if S.symbolic else float).reshape(-1)[0], u[0][k], which + ' value at node, 1-d')


def vector_body(S, M, n, which):
    """all nodes and one more point in one call, in any of two orders"""
    tau = S.reals('t', n)
    S.distinct(tau)
    x = S.real('q0')
    q = S.choice('order', [[x] + list(tau), list(tau)[::-1] + [x]])
    u = mat(S, [[power(t, r) for t in tau] for r in range(n)])
    f = getattr(M, which)(arr(S, tau))
    _check(S, f(u, S.choice('form', [list, tuple, lambda v: arr(S, v)])(q)), tau, q, which)


def again_body(S, M, n, which):
    """the same object for other points and other values, then for the first ones again"""
    tau = S.reals('t', n)
    S.distinct(tau)
    q, u = S.reals('q', 2), [S.reals('u', n), S.reals('v', n)]
    f = getattr(M, which)(arr(S, tau)) if which else M.PolynomialBasis(arr(S, tau))
    for k in S.choice('order', [[0, 1, 0], [0, 1, 1, 0]]):
        if which:
            y = f(mat(S, [u[k]]), q[k])
        else:
            y = dot(f.interpolationMatrix(q[k]), u[k])
        want = dsum(u[k][j] * w for j, w in enumerate(lagrange(tau, q[k])))
        S.eq(at(y, 0, 0), want, 'call with the point %d' % k)


def dot(W, u):
    return np.array([[dsum(at(W, 0, j) * v for j, v in enumerate(u))]], dtype=object)


def grid_body(S, M, tier, part):
    name, tau = S.choice('grid', [x for i, x in enumerate(grids(tier)) if i % 3 == part])
    n = len(tau)
    t = np.asarray(tau, dtype=float)
    m, sc = scaled_basis(t)
    which = S.choice('which', ['matrix', 'barycentricInterpolator'] + (['polynomialInterpolator'] if name in ('one', 'unit2', 'int3', 'rev3', 'perm5', 'neg4', 'list4') else []))
    kind = S.choice('query', ['nodes', 'between', 'outside', 'scalar', 'int'])
    q = {'nodes': list(t), 'between': list((t[1:] + t[:-1]) / 2) if n > 1 else [t[0] + .5], 'outside': [t.min() - .2 * sc, t.max() + .3 * sc],
         'scalar': float(t[0] + .37 * sc), 'int': int(round(m))}[kind]
    qs = [q] if np.ndim(q) == 0 else q
    num = (lambda v: Fraction(float(v))) if S.symbolic else float
    s = [(num(v) - num(m)) / num(sc) for v in t]
    sq = [(num(v) - num(m)) / num(sc) for v in qs]
    c = S.reals('c', n)
    p = [dsum(c[k] * power(x, k) for k in range(n)) for x in s]
    want = [dsum(c[k] * power(x, k) for k in range(n)) for x in sq]
    if which == 'matrix':
        W = np.asarray(M.PolynomialBasis(tau).interpolationMatrix(q))
    else:
        f = getattr(M, which)(np.asarray(tau) if which != 'matrix' else tau)
        W = np.asarray(f(np.eye(n, dtype=S.choice('dtype', [float, int])), q)).T
    S.true(shape(W) == (len(qs), n), 'shape')
    tol = 1e-5 * (1 if kind != 'outside' else 10)
    for i in range(len(qs)):
        S.eq(dsum(p[j] * float(W[i, j]) for j in range(n)), want[i], '%s %s %s' % (which, name, kind), tol)


def obligations(tier):
    th = tier == 'thorough'
    o = []
    for n in [1, 2, 3] + ([4] if th else []):
        o.append(Ob('matrix n=%d scalar' % n, matrix_body, bounds='%d symbolic nodes, 1 query' % n, functions=F[:2], params=dict(n=n, m=1)))
    o.append(Ob('matrix n=2 vector', matrix_body, bounds='2 symbolic nodes, 2 queries', functions=F[:2], params=dict(n=2, m=2)))
    for w in ['barycentricInterpolator', 'polynomialInterpolator']:
        for n in [1, 2, 3]:
            o.append(Ob('%s n=%d' % (w, n), interp_body, bounds='%d symbolic nodes, 1 query, monomials up to degree n-1' % n, functions=F, params=dict(n=n, m=1, which=w)))
        o.append(Ob('%s values' % w, values_body, bounds='3 symbolic nodes, arbitrary values, query at each node', functions=F, params=dict(n=3, which=w)))
        o.append(Ob('%s vector' % w, vector_body, bounds='%d symbolic nodes, query vector of all nodes and one free point' % (3 if th else 2), functions=F, params=dict(n=3 if th else 2, which=w)))
    o += [Ob('%s again' % (w or 'matrix'), again_body, bounds='2 symbolic nodes, two queries and values in turns', functions=F, params=dict(n=2, which=w)) for w in ('barycentricInterpolator', 'polynomialInterpolator', '')]
    o += [Ob('grids %d' % k, grid_body, 'real', bounds='fixed grids of up to 13 nodes, coefficients in the box', functions=F, params=dict(tier=tier, part=k), validate=10) for k in range(3)]
    return o
