"""Generic differential-algebraic equations and the collocation formulas they must satisfy.

Right-hand sides are built from operations that the engine keeps uninterpreted (unary functions of a chain of
atan2 over all arguments): a verdict holds for every function of these arguments.
"""
import itertools
import casadi as cs
from common import *

OPS = [cs.sin, cs.cos, cs.tanh, cs.atan, cs.sinh, cs.erf, cs.asinh, cs.cosh]
NAMES = ['xdot', 'x', 'z', 'u', 'p', 't', 'tdp']
TOL = 1e-6


def _op(i):
    f = OPS[i % len(OPS)]
    return f if i < len(OPS) else lambda w: OPS[(i // len(OPS)) % len(OPS)](f(w))


def symbols(M, n):
    return M.struct_symMX([M.entry('a'), M.entry('b', shape=(1, n - 1))])


class Model:
    """nx, nz, nu, np, ntdp, nq: dimensions; t: right-hand side depends on time; struct: variables are structures"""

    def __init__(self, M, nx=1, nz=0, nu=0, np=0, ntdp=0, nq=0, t=True, implicit=False, linear=False, omit=True, tag='', struct=False):
        self.dims = dict(xdot=nx, x=nx, z=nz, u=nu, p=np, t=1, tdp=ntdp)
        self.nx, self.nz, self.nu, self.np, self.ntdp, self.nq = nx, nz, nu, np, ntdp, nq
        self.implicit = implicit
        s = {k: symbols(M, n) if struct and n > 1 and k != 'xdot' else cs.MX.sym(k + tag, n) for k, n in self.dims.items()}
        v = {k: cs.vertcat(s[k]) for k in s}
        use = ['x', 'z', 'u', 'p', 'tdp'] + (['t'] if t else [])
        args = [v[k][i] for k in use for i in range(self.dims[k])]
        xd = [v['xdot'][i] for i in range(nx)]
        n = nx + nz + nq
        if linear:
            c = [[((7 * i + 3 * j + 2 * i * j) % 11 - 5) / 10 for j in range(len(args) + nx)] for i in range(n)]
            F = [sum((c[i][j] * a for j, a in enumerate(args)), .3 + .1 * i) for i in range(n)]
            for j in range(nz):
                F[nx + j] = F[nx + j] + 2 * v['z'][j]
            if implicit:
                F[:nx] = [(1.5 + .25 * i) * xd[i] + (.2 * xd[(i + 1) % nx] if nx > 1 else 0) - F[i] for i in range(nx)]
        else:
            w = args[0]
            for a in args[1:]:
                w = cs.atan2(w, a)
            wx = w
            for a in xd:
                wx = cs.atan2(wx, a)
            F = [_op(i)(wx if implicit and i < nx + nz else w) for i in range(n)]
        self.sym = s
        cat = lambda v: cs.vertcat(*v) if v else cs.MX(0, 1)
        kw = {k: s[k] for k in ('x', 'z', 'u', 'p', 'tdp') if self.dims[k] or not omit}
        kw['t'] = s['t']
        quad = F[nx + nz:]
        if nq:
            kw['quad'] = cat(quad)
        if implicit:
            self.dae = M.ImplicitDae(xdot=s['xdot'], dae=cat(F[:nx + nz]), **kw)
            res = F[:nx + nz]
        else:
            if nz:
                kw['alg'] = cat(F[nx:nx + nz])
            self.dae = M.SemiExplicitDae(ode=cat(F[:nx]), **kw)
            res = [xd[i] - F[i] for i in range(nx)] + F[nx:nx + nz]
        ins = [s[k] for k in NAMES]
        self.res_f = cs.Function('res', ins, [cat(res)], NAMES, ['res']).expand()
        self.quad_f = cs.Function('quad', ins, [cat(quad)], NAMES, ['quad']).expand()
        self.rhs_f = cs.Function('rhs', ins, [cat(F[:nx]), cat(F[nx:nx + nz])], NAMES, ['ode', 'alg']).expand()

    def residual(self, S, **v):
        return S.call(self.res_f, [v[k] for k in NAMES])[0]

    def quad(self, S, **v):
        return S.call(self.quad_f, [v[k] for k in NAMES])[0]


class Parallel:
    """models connected in parallel"""

    def __init__(self, M, models):
        self.models, self.dae = models, M.parallel([m.dae for m in models])
        for k in ('nx', 'nz', 'nu', 'np', 'ntdp', 'nq'):
            setattr(self, k, sum(getattr(m, k) for m in models))
        self.sym = models[0].sym

    def _each(self, S, f, v):
        pos, out = dict.fromkeys(NAMES, 0), []
        for m in self.models:
            a = {}
            for k in NAMES:
                n = m.dims[k]
                a[k] = v[k][pos[k]:pos[k] + n] if k != 't' else v[k]
                pos[k] += n
            out += getattr(m, f)(S, **a)
        return out

    def residual(self, S, **v):
        return self._each(S, 'residual', v)

    def quad(self, S, **v):
        return self._each(S, 'quad', v)


def tableau(order, method):
    """Butcher tableau from the collocation nodes, exact integrals of the Lagrange polynomials"""
    c = [Fraction(v) for v in cs.collocation_points(order, method)]

    def mul(p, q):
        r = [Fraction(0)] * (len(p) + len(q) - 1)
        for i, a in enumerate(p):
            for j, b in enumerate(q):
                r[i + j] += a * b
        return r

    A = [[0] * order for _ in range(order)]
    b = [0] * order
    for j in range(order):
        p = [Fraction(1)]
        for r in range(order):
            if r != j:
                p = mul(p, [-c[r] / (c[j] - c[r]), 1 / (c[j] - c[r])])
        I = lambda x: sum(v * x ** (k + 1) / (k + 1) for k, v in enumerate(p))
        b[j] = I(Fraction(1))
        for i in range(order):
            A[i][j] = I(c[i])
    return A, b, c


class Grid:
    def __init__(self, S, t, order, method, symbolic=False):
        ex = Fraction if S.symbolic else float
        self.A, self.b, self.c = [[[ex(v) for v in r] for r in m] if isinstance(m[0], list) else [ex(v) for v in m] for m in tableau(order, method)]
        self.t = [ex(float(v)) for v in t] if not symbolic else list(t)
        self.N, self.M = len(t) - 1, order
        self.h = [self.t[i + 1] - self.t[i] for i in range(self.N)]
        self.tc = [self.t[n] + self.h[n] * c for n in range(self.N) for c in self.c]

    def state(self, x, K, nx):
        """states at the collocation points; x, K: column lists"""
        out = []
        for n in range(self.N):
            for i in range(self.M):
                out.append([x[n][r] + self.h[n] * dsum(self.A[i][j] * K[n * self.M + j][r] for j in range(self.M)) for r in range(nx)])
        return out

    def end(self, x, K, nx):
        return [[x[n][r] + self.h[n] * dsum(self.b[j] * K[n * self.M + j][r] for j in range(self.M)) for r in range(nx)] for n in range(self.N)]

    def quads(self, g, nq):
        """q at the interval ends and Q at the collocation points from the integrand columns g"""
        q = [[0] * nq]
        Q = []
        for n in range(self.N):
            G = g[n * self.M:(n + 1) * self.M]
            for i in range(self.M):
                Q.append([q[-1][r] + self.h[n] * dsum(self.A[i][j] * G[j][r] for j in range(self.M)) for r in range(nq)])
            q.append([q[-1][r] + self.h[n] * dsum(self.b[j] * G[j][r] for j in range(self.M)) for r in range(nq)])
        return q, Q


def cols(S, name, n, m):
    return [S.reals('%s%d_' % (name, k), n) for k in range(m)]


def flat(c):
    return [v for col in c for v in col]


def unflat(v, n):
    return [list(v[i:i + n]) for i in range(0, len(v), n)] if n else []


GRIDS = [[0.0, 1.0], [0.0, 1.0, 3.0], np.array([-1.0, -.5, 1.5]), [0, 2, 3, 7]]


def any_grid(S, N):
    """arbitrary ascending time grid: (grid for the scheme, its values, extra function inputs)"""
    v = S.reals('t', N + 1)
    S.ascending(v)
    if not S.symbolic:
        return S.choice('container', [list(v), np.array(v)]), v, []
    m = [cs.MX.sym('t%d' % k) for k in range(N + 1)]
    return S.choice('container', [list(m), m]), v, m


def grid_of(S, grids, N):
    """one of the given grids, or any grid of N intervals"""
    if N:
        return any_grid(S, N)
    t = S.choice('grid', grids)
    return t, t, []


def _close(S, a, b):
    if S.symbolic:
        from sym import SymReal
        d = SymReal.wrap(a) - SymReal.wrap(b)
        n, den = d.num_den()
        return not d.c or den.is_const() and all(abs(c / den.t[()]) < Fraction(1, 10 ** 8) for c in n.t.values())
    return abs(float(a) - float(b)) < 1e-9 * max(1, abs(float(a)))


def same_equations(S, got, want, label):
    """got are the equations want, in any order and with any sign"""
    S.true(len(got) == len(want), label + ': number of equations')
    if len(got) != len(want):
        return
    free = list(range(len(got)))
    for k, w in enumerate(want):
        for i in sorted(free, key=lambda i: abs(i - k)):
            if _close(S, got[i], w):
                S.eq(got[i], w, '%s %d' % (label, k), TOL)
                break
            if _close(S, got[i], -w):
                S.eq(got[i], -w, '%s %d' % (label, k), TOL)
                break
        else:
            S.eq(got[k], w, '%s %d' % (label, k), TOL)
            continue
        free.remove(i)


# more intervals or higher orders than the other obligations
LARGE = [([0, 1, 3, 3.5, 4, 6, 6.25, 7, 9, 10, 11, 12.5, 13], 1), ([0, .5, 2, 2.5, 3.5, 5], 2), ([0, 1, 3], 5), ([-1, 1.5], 9)]
BIG = dict(nx=9, nz=3, nu=2, np=3, nq=2)
SEVERAL = [dict(nx=1, nu=1), dict(nx=2, nz=1, np=2, nq=1), dict(nx=1, nu=1, np=1, nq=2)]


# every combination of absent and present parts
PARTS = [dict(zip(('nz', 'nu', 'np', 'ntdp', 'nq'), n), nx=1 + sum(n) % 3) for n in itertools.product((0, 2), repeat=5)]


def absent(S, M, body, part, **params):
    """models without some of the parts"""
    body(S, M, d=S.choice('parts', [d for d in PARTS if (d['nz'] > 0) == part and ('cases' not in params or 'tdp' in params or not d['ntdp'])]), **{k: v for k, v in params.items() if k != 'tdp'})


def make_model(M, d, implicit=False, **kw):
    """d: dimensions of one model, or a list for models connected in parallel"""
    if isinstance(d, list):
        return Parallel(M, [Model(M, tag=str(i), t=False, **dict(kw, **e)) for i, e in enumerate(d)])
    return Model(M, implicit=implicit, **dict(kw, **d))


def case_of(S, cases, grids, orders):
    """grid and order"""
    return S.choice('case', cases) if cases else (S.choice('grid', grids), S.choice('order', orders))


def earlier(M, m, d, t, order):
    """schemes made before: the same model on another grid, another model of the same dimensions on the same grid"""
    kw = dict(tdp_fun=lambda time: cs.MX.zeros(m.ntdp)) if m.ntdp else {}
    for method in ('legendre', 'radau'):
        M.CollocationScheme(m.dae, [float(v) * 1.5 + 1 for v in t], order, method, **kw)
        M.CollocationScheme(make_model(M, d, linear=True).dae, t, order, method, **kw)


def large(tier, body, F, dims, kind='real', several=True, tdp=False, seconds=120, **params):
    """obligations with many intervals, high order, many variables, structures as variables and connected models"""
    cases = LARGE + ([([0, 1, 2.5, 4, 4.5, 6, 7, 9], 4)] if tier == 'thorough' else [])
    o = [Ob('large %d intervals, order %d' % (len(t) - 1, k), body, kind, bounds='%d intervals, order %d, dims %s' % (len(t) - 1, k, dims), functions=F, params=dict(d=dims, cases=[(t, k)], **params), validate=4, seconds=seconds) for t, k in cases]
    case = [([0, 1, 3], 2)]
    o += [Ob('many variables', body, kind, bounds='2 intervals, order 2, dims %s' % BIG, functions=F, params=dict(d=BIG, cases=case, **params), validate=4, seconds=seconds),
          Ob('structures', body, kind, bounds='2 intervals, order 2, variables are structures', functions=F, params=dict(d=dict(nx=3, nz=2, nu=2, np=3, nq=2, struct=True), cases=case, **params), validate=4, seconds=seconds)]
    for part in (False, True):
        o.append(Ob('absent parts, %s algebraic state' % ('with' if part else 'without'), absent, kind, bounds='all combinations of absent and present parts, 2 intervals, order 2', functions=F, params=dict(body=body, part=part, cases=case, **dict(params, tdp=1) if tdp else params), validate=6, seconds=seconds))
    if several:
        o.append(Ob('connected models', body, kind, bounds='3 models connected in parallel, 2 intervals, order 2', functions=F, params=dict(d=SEVERAL, cases=case, **params), validate=4, seconds=seconds))
    return o
