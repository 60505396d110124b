from pwcommon import *

F = ['piecewise_poly.PiecewisePoly.discretize', 'polynomial.PolynomialBasis.interpolationMatrix']


def _check(S, x, y, t, nodes, c, step, label, exact=True):
    N = len(t) - 1
    rows = len(c[0])
    x = list(np.asarray(x).reshape(-1))
    S.true(shape(y) == (rows, len(x)), label + 'shape of the values')
    if shape(y) != (rows, len(x)):
        return
    # the samples of interval i: from its left bound up to and including its right bound
    k = 0
    slack = 0 if exact else 1e-9 * float(t[-1] - t[0])
    for i in range(N):
        S.true(k < len(x), label + 'interval %d has no samples' % i)
        if not k < len(x):
            return
        S.eq(x[k], t[i], label + 'first sample of interval %d' % i)
        first = k
        while k + 1 < len(x) and bool(x[k + 1] > x[k]) and bool(x[k + 1] <= t[i + 1] + slack):
            k += 1
        S.eq(x[k], t[i + 1], label + 'last sample of interval %d' % i)
        S.true(k > first, label + 'interval %d has a single sample' % i)
        for m in range(first, k + 1):
            want = value(t, nodes, c, x[m], i)
            for r in range(rows):
                S.eq(at(y, r, m), want[r], label + 'value at sample of interval %d' % i, 0 if exact else 1e-6)
            if m > first:
                d = x[m] - x[m - 1]
                S.true(d <= step * (1 + 1e-9) if not exact or not S.symbolic else d <= step, label + 'step above the limit')
        k += 1
    S.true(k == len(x), label + 'surplus samples')


def body(S, M, N, nodes, rows, maxsteps, vector=False, again=False):
    t = S.reals('t', N + 1)
    S.ascending(t)
    step = S.real('step')
    S.assume(step > 0)
    S.nice_c.append(step.num_den()[0].z() >= '1/4') if S.symbolic else None
    for i in range(N):
        # bound: number of steps per interval
        S.assume(t[i + 1] - t[i] <= maxsteps * step)
    c = coefs(S, N, rows, len(nodes))
    f = M.PiecewisePoly(arr(S, t), cmats(S, c, vector), M.PolynomialBasis(fl(S, nodes)))
    # with another step before and after
    for k in ((2, 1, 2) if again else (1,)):
        x, y = f.discretize(step * k)
        _check(S, x, y, t, num(S, nodes), c, step * k, 'step times %d: ' % k if again else '')


def grid_body(S, M):
    bname, t = S.choice('bounds', BOUNDS)
    nname, nodes = S.choice('basis', FNODES[1:4])
    T = [float(v) for v in t]
    N = len(T) - 1
    h = min(T[i + 1] - T[i] for i in range(N))
    step = S.choice('step', [h * 10, h, h / 2, h / 3, h / 10, h * .7, h * 1.5, h / 7, h / 50])
    if S.symbolic and N > 5 and step < h / 5:
        S.abort('infeasible')
    c = coefs(S, N, 1, len(nodes))
    f = M.PiecewisePoly(t, cmats(S, c), M.PolynomialBasis(nodes))
    x, y = f.discretize(step)
    fr = (lambda v: Fraction(float(v))) if S.symbolic else float
    # a sample that rounding puts next to the right bound is not a fault
    _check(S, [fr(v) for v in np.asarray(x, dtype=float)], y, [fr(v) for v in T], [fr(v) for v in nodes], c, fr(step), '%s %s step %g: ' % (bname, nname, step), exact=False)


def fine_body(S, M):
    """many samples"""
    t = S.choice('bounds', [[0., 1.], [0., 2., 2.25]])
    step = S.choice('step', [1 / 1500., .0021])
    N = len(t) - 1
    c = coefs(S, N, 1, 2)
    x, y = M.PiecewisePoly(t, cmats(S, c), M.PolynomialBasis([0., 1.])).discretize(step)
    fr = (lambda v: Fraction(float(v))) if S.symbolic else float
    _check(S, [fr(v) for v in np.asarray(x, dtype=float)], y, [fr(v) for v in t], [fr(0), fr(1)], c, fr(step), 'step %g: ' % step, exact=False)


def typed_body(S, M):
    """unpatched code: coefficients of integer type; data enters linearly"""
    bname, t = S.choice('bounds', BOUNDS[1:4])
    nname, nodes = S.choice('basis', FNODES[1:4] + [('int', np.array([0, 1]))])
    step = S.choice('step', [1, .5, .3])
    N, n = len(t) - 1, len(nodes)
    x, y = M.PiecewisePoly(t, typed_units(S, N, n), M.PolynomialBasis(nodes)).discretize(step)
    T = [float(v) for v in t]
    c = coefs(S, N, 1, n)
    e = [v for m in c for v in m[0]]
    fr = (lambda v: Fraction(float(v))) if S.symbolic else float
    x = [fr(v) for v in np.asarray(x, dtype=float)]
    S.true(shape(y) == (N * n, len(x)), 'shape of the values')
    Y = np.array([[dsum(v * float(at(y, r, k)) for r, v in enumerate(e) if at(y, r, k)) for k in range(len(x))]], dtype=object if S.symbolic else float)
    _check(S, x, Y, [fr(v) for v in T], [fr(v) for v in nodes], c, fr(step), '%s %s step %g: ' % (bname, nname, step), exact=False)


def obligations(tier):
    th = tier == 'thorough'
    n2 = NODES[1]
    return [Ob('N=1', body, bounds='1 interval, up to %d steps, step symbolic' % (5 if th else 4), functions=F, params=dict(N=1, nodes=NODES[0], rows=2, maxsteps=5 if th else 4), window=8),
            Ob('N=2', body, bounds='2 unequal intervals, up to 3 steps each', functions=F, params=dict(N=2, nodes=n2, rows=1, maxsteps=3), window=8, seconds=90),
            Ob('N=3', body, bounds='3 intervals, up to 2 steps each', functions=F, params=dict(N=3, nodes=NODES[2], rows=1, maxsteps=2), window=8, seconds=90),
            Ob('coefficient vectors', body, bounds='1 interval, up to 2 steps, coefficients as vectors', functions=F, params=dict(N=1, nodes=n2, rows=1, maxsteps=2, vector=True), window=8),
            Ob('again', body, bounds='2 intervals, up to 2 steps each, three calls', functions=F, params=dict(N=2, nodes=n2, rows=1, maxsteps=2, again=True), window=8, seconds=90),
            Ob('integer data', typed_body, 'real', bounds='3 interval vectors x 4 bases x 3 steps, integer coefficients, data in the box', functions=F, validate=10),
            Ob('many samples', fine_body, 'real', bounds='2 interval vectors, about 500 to 3400 samples', functions=F, validate=4, seconds=90),
            Ob('unpatched', grid_body, 'real', bounds='7 interval vectors x 3 bases x 9 steps', functions=F, validate=20, seconds=90)]
