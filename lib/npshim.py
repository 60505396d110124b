"""numpy with symbolic reals: object arrays are handled by numpy itself, the functions below
replace those that would fix a float dtype, branch inside compiled code, or call LAPACK."""
import types
from fractions import Fraction

import numpy as np

import sym
from sym import SymReal, SymBool, SymInt, is_sym, unsupported


def has_sym(*xs):
    for x in xs:
        if is_sym(x):
            return True
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                return True
        elif isinstance(x, (list, tuple)):
            if has_sym(*x):
                return True
        elif isinstance(x, Poly1d):
            return True
    return False


def obj(x):
    return np.array(x, dtype=object)


def _zero(shape, v):
    if isinstance(shape, SymInt):
        shape = int(shape)
    a = np.empty(shape, dtype=object)
    f = a.reshape(-1)
    for i in range(f.size):
        f[i] = SymReal.const(v)
    return a


_INT = (int, np.int64, np.int32, bool, np.bool_)


def _discrete(dtype):
    """element types that hold no symbols"""
    if dtype is None or dtype is object:
        return False
    if dtype in _INT or dtype is sym.IntProxy:
        return True
    try:
        return np.dtype(dtype).kind in 'biu'
    except TypeError:
        return False


def _dtype(dtype):
    return int if dtype is sym.IntProxy else dtype



def zeros(shape, dtype=float, *a, **k):
    if _discrete(dtype):
        return np.zeros(shape, _dtype(dtype))
    return _zero(shape, 0)


def ones(shape, dtype=float, *a, **k):
    if _discrete(dtype):
        return np.ones(shape, _dtype(dtype))
    return _zero(shape, 1)


def empty(shape, dtype=float, *a, **k):
    return zeros(shape, dtype)


def full(shape, fill_value, dtype=None, *a, **k):
    if _discrete(dtype) or dtype is None and isinstance(fill_value, (bool, np.bool_)):
        return np.full(shape, fill_value, _dtype(dtype))
    r = np.empty(shape, dtype=object)
    if isinstance(fill_value, float):
        fill_value = SymReal.wrap(fill_value)
    r[...] = fill_value
    return r


def _like(x, dtype):
    if dtype is not None or has_sym(x):
        return dtype or float
    return np.asarray(x).dtype


def zeros_like(x, dtype=None, *a, **k):
    return zeros(np.shape(x), _like(x, dtype))


def ones_like(x, dtype=None, *a, **k):
    return ones(np.shape(x), _like(x, dtype))


def empty_like(x, dtype=None, *a, **k):
    return zeros(np.shape(x), _like(x, dtype))


def full_like(x, v, dtype=None, *a, **k):
    return full(np.shape(x), v, _like(x, dtype))


def eye(n, m=None, k=0, dtype=float, *a, **kw):
    m = n if m is None else m
    if _discrete(dtype):
        return np.eye(n, m, k, _dtype(dtype))
    r = zeros((n, m))
    for i in range(n):
        if 0 <= i + k < m:
            r[i, i + k] = SymReal.const(1)
    return r


def identity(n, dtype=None, *a, **k):
    return eye(n, dtype=dtype)


def array(x, dtype=None, *a, **k):
    if has_sym(x):
        return np.array(x, dtype=object)
    return np.array(x, dtype, *a, **k) if dtype is not None else np.array(x, *a, **k)


def asarray(x, dtype=None, *a, **k):
    if has_sym(x):
        return np.asarray(x, dtype=object)
    return np.asarray(x, dtype) if dtype is not None else np.asarray(x)


def arange(*a, **k):
    if not has_sym(*a) and not has_sym(*k.values()):
        return np.arange(*a, **k)
    names = ['start', 'stop', 'step']
    start, step = 0, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    elif len(a) == 3:
        start, stop, step = a
    else:
        stop = None
    start, stop, step = k.get('start', start), k.get('stop', stop), k.get('step', step)
    out = []
    x = SymReal.wrap(start)
    if not (step > 0):
        if step == 0:
            raise ZeroDivisionError('arange')
        return obj([])
    limit = sym.CTX.int_window
    while bool(x < stop):
        out.append(x)
        if len(out) > limit:
            sym.CTX.abort('bound', 'arange longer than the window')
        x = x + step
    return obj(out) if out else np.empty(0, dtype=object)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if isinstance(num, (SymInt, SymReal)):
        num = int(num)
    n = num - 1 if endpoint else num
    start, stop = SymReal.wrap(start), SymReal.wrap(stop)
    step = (stop - start) * Fraction(1, n) if n > 0 else SymReal.NaN()
    out = [start + step * i for i in range(num)] if n > 0 else [start] * num
    if endpoint and num > 1:
        out[-1] = stop
    r = obj(out) if out else np.empty(0, dtype=object)
    return (r, step) if retstep else r


def searchsorted(a, v, side='left', sorter=None):
    if not has_sym(a, v):
        return np.searchsorted(a, v, side, sorter)
    if side not in ('left', 'right'):
        raise ValueError("side must be 'left' or 'right'")
    a = list(a)
    if np.ndim(v):
        return np.array([searchsorted(a, x, side) for x in v])
    k = 0
    for x in a:
        # a is ascending: the position is the number of entries before v
        if bool(x < v) if side == 'left' else bool(x <= v):
            k += 1
        else:
            break
    return np.int64(k)


def digitize(x, bins, right=False):
    return searchsorted(bins, x, 'left' if right else 'right')


def where(c, *a):
    c = np.asarray(c)
    if c.dtype == object:
        c = np.array([bool(v) for v in c.reshape(-1)]).reshape(c.shape)
    return np.where(c, *a)


def _pick(a, b, less):
    return a if bool(a < b) == less else b


def clip(x, lo, hi, *a, **k):
    if not has_sym(x, lo, hi):
        return np.clip(x, lo, hi)
    if np.ndim(x):
        return obj([clip(v, lo, hi) for v in x])
    if lo is not None and bool(x < lo):
        return lo
    if hi is not None and bool(x > hi):
        return hi
    return x


def _amm(less):
    def f(x, *a, **k):
        if not has_sym(x) or a or k:
            return (np.min if less else np.max)(x, *a, **k)
        v = list(np.asarray(x).reshape(-1))
        r = v[0]
        for y in v[1:]:
            r = _pick(y, r, less)
        return r
    return f


amin = min = _amm(True)
amax = max = _amm(False)


def _minmax(less):
    def f(a, b, *r, **k):
        if not has_sym(a, b):
            return (np.minimum if less else np.maximum)(a, b)
        if np.ndim(a) or np.ndim(b):
            a, b = np.broadcast_arrays(a, b)
            return obj([f(x, y) for x, y in zip(a.reshape(-1), b.reshape(-1))]).reshape(a.shape)
        return _pick(a, b, less)
    return f


minimum = _minmax(True)
maximum = _minmax(False)


def argmin(x, *a, **k):
    if not has_sym(x):
        return np.argmin(x, *a, **k)
    v = list(np.asarray(x).reshape(-1))
    b = 0
    for i in range(1, len(v)):
        if bool(v[i] < v[b]):
            b = i
    return b


def argmax(x, *a, **k):
    if not has_sym(x):
        return np.argmax(x, *a, **k)
    v = list(np.asarray(x).reshape(-1))
    b = 0
    for i in range(1, len(v)):
        if bool(v[i] > v[b]):
            b = i
    return b


def nonzero(x):
    x = np.asarray(x)
    if x.dtype == object:
        x = np.array([bool(v) for v in x.reshape(-1)]).reshape(x.shape)
    return np.nonzero(x)


def flatnonzero(x):
    return nonzero(np.ravel(x))[0]


def argwhere(x):
    return np.transpose(nonzero(x))


def any_(x, *a, **k):
    x = np.asarray(x)
    if x.dtype == object and not a and not k:
        r = SymBool(False)
        for v in x.reshape(-1):
            r = r | SymBool.of(v if not isinstance(v, SymReal) else v != 0)
        return r
    return np.any(x, *a, **k)


def all_(x, *a, **k):
    x = np.asarray(x)
    if x.dtype == object and not a and not k:
        r = SymBool(True)
        for v in x.reshape(-1):
            r = r & SymBool.of(v if not isinstance(v, SymReal) else v != 0)
        return r
    return np.all(x, *a, **k)


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not has_sym(a, b):
        return np.isclose(a, b, rtol, atol)
    if np.ndim(a) or np.ndim(b):
        a, b = np.broadcast_arrays(a, b)
        return obj([isclose(x, y, rtol, atol) for x, y in zip(a.reshape(-1), b.reshape(-1))]).reshape(a.shape)
    d, t = a - b, abs(SymReal.wrap(b)) * rtol + atol
    return SymBool.both(d <= t, d >= -t)


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return all_(isclose(a, b, rtol, atol))


def array_equal(a, b, *r, **k):
    if not has_sym(a, b):
        return np.array_equal(a, b)
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and all_(np.array([SymBool.of(x == y) for x, y in zip(a.reshape(-1), b.reshape(-1))], dtype=object))


def isnan(x):
    x = np.asarray(x)
    if x.dtype != object:
        return np.isnan(x)
    return np.array([SymReal.wrap(v).nan for v in x.reshape(-1)]).reshape(x.shape)


def isfinite(x):
    return ~isnan(x) if np.asarray(x).dtype == object else np.isfinite(x)


def isinf(x):
    x = np.asarray(x)
    return np.zeros(x.shape, bool) if x.dtype == object else np.isinf(x)


def interp(*a, **k):
    if has_sym(*a):
        unsupported('interp')
    return np.interp(*a, **k)


def sort(x, *a, **k):
    if not has_sym(x):
        return np.sort(x, *a, **k)
    return obj(sorted(list(x)))


def argsort(x, *a, **k):
    if not has_sym(x):
        return np.argsort(x, *a, **k)
    import functools
    v = list(x)
    return np.array(sorted(range(len(v)), key=functools.cmp_to_key(lambda i, j: -1 if bool(v[i] < v[j]) else (1 if bool(v[j] < v[i]) else 0))))


def _gauss(A, B):
    A = [[SymReal.wrap(v) for v in r] for r in np.asarray(A)]
    B = [[SymReal.wrap(v) for v in r] for r in np.asarray(B)]
    n = len(A)
    for i in range(n):
        p = None
        for r in range(i, n):
            v = A[r][i]
            if v.nan or not v.c:
                continue
            if v.is_const() or all(e < 0 or sym.CTX.known_nonzero(q) for q, e in v.f.items()):
                p = r
                break
        if p is None:
            for r in range(i, n):
                v = A[r][i]
                if bool(v != 0):
                    p = r
                    break
        if p is None:
            raise np.linalg.LinAlgError('Singular matrix')
        A[i], A[p] = A[p], A[i]
        B[i], B[p] = B[p], B[i]
        d = A[i][i].inv()
        A[i] = [v * d for v in A[i]]
        B[i] = [v * d for v in B[i]]
        for r in range(n):
            if r != i and (A[r][i].c or A[r][i].nan):
                f = A[r][i]
                A[r] = [x - f * y for x, y in zip(A[r], A[i])]
                B[r] = [x - f * y for x, y in zip(B[r], B[i])]
    return obj(B)


def solve(A, b):
    if not has_sym(A, b):
        return np.linalg.solve(A, b)
    b = np.asarray(b)
    if b.ndim == 1:
        return _gauss(A, b.reshape(-1, 1))[:, 0]
    return _gauss(A, b)


def inv(A):
    if not has_sym(A):
        return np.linalg.inv(A)
    return _gauss(A, eye(len(A)))


def vander(x, N=None, increasing=False):
    if not has_sym(x):
        return np.vander(x, N, increasing)
    x = list(x)
    N = len(x) if N is None else N
    e = range(N) if increasing else range(N - 1, -1, -1)
    return obj([[v ** k for k in e] for v in x])


def dot(a, b, *r):
    if has_sym(a, b):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    return np.dot(a, b)


def matmul(a, b):
    return dot(a, b)


def einsum(*a, **k):
    if has_sym(*a[1:]):
        k.pop('optimize', None)
        return np.einsum(a[0], *[np.asarray(x, dtype=object) for x in a[1:]], **k)
    return np.einsum(*a, **k)


def diff(a, n=1, *r, **k):
    return np.diff(np.asarray(a, dtype=object), n, *r, **k) if has_sym(a) else np.diff(a, n, *r, **k)


def prod(a, *r, **k):
    return np.prod(np.asarray(a, dtype=object), *r, **k) if has_sym(a) else np.prod(a, *r, **k)


def sum_(a, *r, **k):
    return np.sum(np.asarray(a, dtype=object), *r, **k) if has_sym(a) else np.sum(a, *r, **k)


def real(x):
    return x


# ---------------------------------------------------------------- polynomials

def _coefs(p):
    if isinstance(p, Poly1d):
        return list(p._c)
    if isinstance(p, np.poly1d):
        return list(p.coeffs)
    return list(np.atleast_1d(np.asarray(p, dtype=object)).reshape(-1))


class Poly1d:
    """np.poly1d with leading zeros removed only when the length is observed."""
    __array_priority__ = 2000
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, c, r=False, variable=None):
        if r:
            cc = [SymReal.const(1)]
            for root in np.atleast_1d(np.asarray(c, dtype=object)):
                cc = _pmul(cc, [SymReal.const(1), -SymReal.wrap(root)])
            self._c = cc
        else:
            if isinstance(c, (Poly1d, np.poly1d)):
                c = _coefs(c)
            a = np.atleast_1d(np.asarray(c, dtype=object))
            if a.ndim > 1:
                raise ValueError('Polynomial must be 1d only.')
            self._c = [SymReal.wrap(v) for v in a]
            if not self._c:
                self._c = [SymReal.const(0)]

    def _trim(self):
        while len(self._c) > 1 and bool(self._c[0] == 0):
            self._c = self._c[1:]
        return self._c

    @property
    def coeffs(self):
        return obj(self._trim())

    coef = coefficients = c = coeffs

    @coeffs.setter
    def coeffs(self, v):
        self._c = [SymReal.wrap(x) for x in v]

    @property
    def order(self):
        return len(self._trim()) - 1

    o = order

    @property
    def variable(self):
        return 'x'

    def __len__(self):
        return self.order

    def __call__(self, x):
        return polyval(self, x)

    def __getitem__(self, k):
        c = self._c
        if k < 0 or k >= len(c):
            return SymReal.const(0)
        return c[len(c) - 1 - k]

    def __setitem__(self, k, v):
        while len(self._c) <= k:
            self._c = [SymReal.const(0)] + self._c
        self._c[len(self._c) - 1 - k] = SymReal.wrap(v)

    def __iter__(self):
        return iter(self._trim())

    def __array__(self, dtype=None, copy=None):
        return obj(self._trim())

    def __neg__(self): return Poly1d([-v for v in self._c])
    def __pos__(self): return self

    def __add__(self, o): return Poly1d(_padd(self._c, _c(o)))
    __radd__ = __add__
    def __sub__(self, o): return Poly1d(_padd(self._c, [-v for v in _c(o)]))
    def __rsub__(self, o): return Poly1d(_padd(_c(o), [-v for v in self._c]))

    def __mul__(self, o):
        return Poly1d(_pmul(self._c, _c(o)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if np.isscalar(o) or is_sym(o):
            return Poly1d([v / o for v in self._c])
        unsupported('polynomial division')

    def __pow__(self, n):
        r = Poly1d([1])
        for _ in range(n):
            r = r * self
        return r

    def __eq__(self, o):
        a, b = self._trim(), Poly1d(o)._trim()
        return len(a) == len(b) and all(bool(x == y) for x, y in zip(a, b))

    def __ne__(self, o):
        return not self == o

    def integ(self, m=1, k=0):
        return polyint(self, m, k)

    def deriv(self, m=1):
        return polyder(self, m)

    def __repr__(self):
        return 'poly1d(%r)' % (self._c,)


def _c(o):
    if isinstance(o, (Poly1d, np.poly1d)):
        return [SymReal.wrap(v) for v in _coefs(o)]
    if isinstance(o, np.ndarray) and o.ndim == 1 or isinstance(o, (list, tuple)):
        return [SymReal.wrap(v) for v in o]
    return [SymReal.wrap(o)]


def _padd(a, b):
    n = builtins_max(len(a), len(b))
    z = SymReal.const(0)
    a = [z] * (n - len(a)) + list(a)
    b = [z] * (n - len(b)) + list(b)
    return [x + y for x, y in zip(a, b)]


def _pmul(a, b):
    r = [SymReal.const(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = r[i + j] + x * y
    return r


import builtins as _b
builtins_max = _b.max
poly1d = Poly1d


def _ret(p, c):
    return Poly1d(c) if isinstance(p, (Poly1d, np.poly1d)) else obj(c)


def polyint(p, m=1, k=None):
    c = _c(p)
    kk = [0] * m if k is None else list(np.atleast_1d(np.asarray(k, dtype=object)))
    if len(kk) == 1 and m > 1:
        kk = kk * m
    for s in range(m):
        n = len(c)
        c = [v * Fraction(1, n - i) for i, v in enumerate(c)] + [SymReal.wrap(kk[s])]
    return _ret(p, c)


def polyder(p, m=1):
    c = _c(p)
    for _ in range(m):
        n = len(c) - 1
        c = [v * (n - i) for i, v in enumerate(c[:-1])]
    return _ret(p, c or [SymReal.const(0)])


def polyval(p, x):
    c = _c(p)
    if isinstance(x, (Poly1d, np.poly1d)):
        y = Poly1d([0])
    else:
        x = np.asanyarray(x, dtype=object) if np.ndim(x) else x
        y = SymReal.const(0) if not np.ndim(x) else zeros(np.shape(x))
    for v in c:
        y = y * x + v
    return y


def polymul(a, b):
    c = _pmul(_c(a), _c(b))
    return Poly1d(c) if isinstance(a, Poly1d) or isinstance(b, Poly1d) else obj(c)


def polyadd(a, b):
    c = _padd(_c(a), _c(b))
    return Poly1d(c) if isinstance(a, Poly1d) or isinstance(b, Poly1d) else obj(c)


def polysub(a, b):
    c = _padd(_c(a), [-v for v in _c(b)])
    return Poly1d(c) if isinstance(a, Poly1d) or isinstance(b, Poly1d) else obj(c)


def poly(r):
    return obj(Poly1d(r, True)._c)


def convolve(a, b, mode='full'):
    if has_sym(a, b):
        return obj(_pmul(_c(a), _c(b)))
    return np.convolve(a, b, mode)


# ---------------------------------------------------------------- module object

class _Linalg(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.linalg')

    def __getattr__(self, n):
        return getattr(np.linalg, n)


linalg = _Linalg()
linalg.solve = solve
linalg.inv = inv


class FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.floating) or isinstance(x, SymReal)


class NumpyShim(types.ModuleType):
    """Attribute access falls through to numpy."""

    def __init__(self):
        super().__init__('numpy')

    def __getattr__(self, n):
        return getattr(np, n)


OVERRIDES = dict(
    zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like,
    full_like=full_like, eye=eye, identity=identity, array=array, asarray=asarray, arange=arange, linspace=linspace,
    searchsorted=searchsorted, digitize=digitize, where=where, clip=clip, amin=amin, min=amin, amax=amax, max=amax,
    minimum=minimum, maximum=maximum, argmin=argmin, argmax=argmax, nonzero=nonzero, flatnonzero=flatnonzero,
    argwhere=argwhere, any=any_, all=all_, isclose=isclose, allclose=allclose, array_equal=array_equal, isnan=isnan,
    isfinite=isfinite, isinf=isinf, interp=interp, sort=sort, argsort=argsort, linalg=linalg, vander=vander, dot=dot,
    matmul=matmul, einsum=einsum, diff=diff, prod=prod, sum=sum_, real=real, poly1d=Poly1d, polyint=polyint,
    polyder=polyder, polyval=polyval, polymul=polymul, polyadd=polyadd, polysub=polysub, poly=poly, convolve=convolve)

shim = NumpyShim()
for _k, _v in OVERRIDES.items():
    setattr(shim, _k, _v)
# original functions by identity, for `from numpy import f`
BY_ID = {id(getattr(np, k)): v for k, v in OVERRIDES.items() if hasattr(np, k)}
