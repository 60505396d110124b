from daecommon import *
from pwcommon import lagrange, dlagrange

F = ['collocation.CollocationScheme.evalX', 'collocation.CollocationScheme.piecewisePolyX', 'collocation.CollocationScheme.__init__', 'piecewise_poly.PiecewisePoly.__call__', 'piecewise_poly.PiecewisePoly.derivative']


def body(S, M, nx, grids, orders):
    """the trajectory is linear in (x, K): images of all unit vectors on the unpatched code, combined symbolically"""
    t = S.choice('grid', grids)
    order = S.choice('order', orders)
    method = S.choice('method', ['legendre', 'radau'])
    m = Model(M, nx=nx, nz=S.choice('nz', [0, 1]), t=False)
    s = M.CollocationScheme(m.dae, t, order, method)
    g = Grid(S, t, order, method)
    N, P = g.N, g.N * g.M
    x, K = cols(S, 'x', nx, N + 1), cols(S, 'K', nx, P)
    coef = flat(x) + flat(K)
    tf = [float(v) for v in t]
    tc = [float(v) for v in g.tc]
    h = [tf[n + 1] - tf[n] for n in range(N)]
    inner = [tf[n] + .37 * h[n] for n in range(N)]
    R = []
    # an offset keeps the map affine-proof: f(0) must be 0
    for j in range(-1, len(coef)):
        v = np.zeros(len(coef))
        if j >= 0:
            v[j] = 1
        xv = cs.DM(v[:nx * (N + 1)]).reshape((nx, N + 1))
        Kv = cs.DM(v[nx * (N + 1):]).reshape((nx, P))
        X = cs.DM(s.evalX(xv, Kv)).full()
        pp = s.piecewisePolyX(xv, Kv)
        d = pp.derivative()
        starts = np.asarray(pp(tf[:-1]), dtype=float)
        ends = np.asarray(pp(tf[1:], 'left'), dtype=float)
        at_tc = np.hstack([np.asarray(pp([q], 'left' if (k + 1) % order == 0 and method == 'radau' else 'right'), dtype=float) for k, q in enumerate(tc)])
        d_tc = np.hstack([np.asarray(d([q], 'left' if (k + 1) % order == 0 and method == 'radau' else 'right'), dtype=float) for k, q in enumerate(tc)])
        mid = np.asarray(pp(inner), dtype=float)
        S.true(X.shape == (nx, P) and starts.shape == (nx, N) and ends.shape == (nx, N) and at_tc.shape == (nx, P) and mid.shape == (nx, N), 'shapes')
        S.true(len(pp.intervals) == N + 1 and all(float(a) == b for a, b in zip(pp.intervals, tf)), 'intervals of the trajectory')
        R.append([X, starts, ends, at_tc, d_tc, mid])
    S.true(not any(np.abs(v).max() > 1e-12 for v in R[0]), 'trajectory of zero data')
    lin = lambda q, r, k: dsum(c * float(R[j + 1][q][r, k]) for j, c in enumerate(coef) if R[j + 1][q][r, k])
    Xs, e = g.state(x, K, nx), g.end(x, K, nx)
    for r in range(nx):
        for k in range(P):
            S.eq(lin(0, r, k), Xs[k][r], 'collocation state %d' % k, TOL)
            S.eq(lin(3, r, k), Xs[k][r], 'trajectory at the collocation point %d' % k, TOL)
            S.eq(lin(4, r, k), K[k][r], 'derivative at the collocation point %d' % k, TOL)
        for n in range(N):
            S.eq(lin(1, r, n), x[n][r], 'start of interval %d' % n, TOL)
            S.eq(lin(2, r, n), e[n][r], 'end of interval %d' % n, TOL)
            # inside: x + h * integral of the derivative polynomial
            tau = Fraction('0.37') if S.symbolic else .37
            want = x[n][r] + g.h[n] * dsum(K[n * order + j][r] * w for j, w in enumerate(_int(g.c, tau)))
            S.eq(lin(5, r, n), want, 'inside interval %d' % n, TOL)


def _int(c, x):
    out = []
    for j in range(len(c)):
        p = [1]
        for r in range(len(c)):
            if r != j:
                q = [0] * (len(p) + 1)
                for i, v in enumerate(p):
                    q[i] = q[i] - v * c[r] / (c[j] - c[r])
                    q[i + 1] = q[i + 1] + v / (c[j] - c[r])
                p = q
        out.append(dsum(v * power(x, k + 1) / (k + 1) for k, v in enumerate(p)))
    return out


def obligations(tier):
    th = tier == 'thorough'
    o = [Ob('nx=%d order %d' % (nx, k), body, 'real', bounds='%d states, 4 grids (up to 3 intervals), order %d, both methods, data in the box' % (nx, k), functions=F, params=dict(nx=nx, grids=GRIDS, orders=[k]), validate=6, seconds=120)
            for nx in (1, 2) for k in ([1, 2, 3] if not th else [1, 2, 3, 4, 5]) if nx == 1 or k <= 2 or th]
    return o + [Ob('large %d intervals, order %d' % (len(t) - 1, k), body, 'real', bounds='1 state, %d intervals, order %d, both methods, data in the box' % (len(t) - 1, k), functions=F, params=dict(nx=1, grids=[t], orders=[k]), validate=4, seconds=120) for t, k in LARGE]
