"""Stand-ins for casadi classes in the module copies that run symbolically.

SDM      dense matrix of symbolic reals with the part of the DM/MX interface used by the numerical code
DMProxy  the class DM in module copies whose numeric contents are SX symbols
"""
import types
from fractions import Fraction

import casadi as cs
import numpy as np

import sym
import npshim
from sym import SymReal, is_sym, unsupported


def _arr(x):
    """2-d object array of x"""
    if isinstance(x, SDM):
        return x.a
    if isinstance(x, (cs.DM,)):
        x = x.full()
    if isinstance(x, cs.MX) and x.is_constant():
        x = cs.evalf(x).full()
    if isinstance(x, (cs.MX, cs.SX)):
        unsupported('casadi expression in symbolic numerics')
    a = np.array(x, dtype=object)
    if a.ndim == 0:
        a = a.reshape(1, 1)
    elif a.ndim == 1:
        a = a.reshape(-1, 1)
    f = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        w = SymReal.wrap(a[i])
        if w is None:
            raise TypeError('not a number: %r' % (a[i],))
        f[i] = w
    return f


class SDM:
    __array_priority__ = 3000
    __array_ufunc__ = None

    def __init__(self, *args):
        if len(args) == 0:
            self.a = np.empty((0, 0), dtype=object)
        elif len(args) == 1:
            self.a = _arr(args[0]).copy()
        elif len(args) == 2 and all(isinstance(v, (int, np.integer)) for v in args):
            self.a = npshim.zeros(args)
        else:
            unsupported('matrix constructor')

    @staticmethod
    def of(a):
        r = SDM()
        r.a = a
        return r

    # shape
    @property
    def shape(self): return self.a.shape
    def size1(self): return self.a.shape[0]
    def size2(self): return self.a.shape[1]
    def rows(self): return self.a.shape[0]
    def columns(self): return self.a.shape[1]
    def numel(self): return self.a.size
    def size(self, k=None): return self.a.shape if k is None else self.a.shape[k - 1]
    def is_scalar(self, *a): return self.a.size == 1
    def is_dense(self): return True
    def is_column(self): return self.a.shape[1] == 1
    def is_vector(self): return 1 in self.a.shape

    @property
    def T(self): return SDM.of(self.a.T.copy())

    def full(self): return self.a.copy()
    def elems_(self): return list(self.a.T.reshape(-1))

    def __array__(self, dtype=None, copy=None):
        return self.a.copy()

    def __len__(self):
        return self.a.shape[0]

    def __iter__(self):
        # as casadi: iteration over elements of a vector
        return iter(SDM.of(np.array([[v]], dtype=object)) for v in self.elems_())

    def _ix(self, k):
        if isinstance(k, tuple) and len(k) == 2:
            r = []
            for v, n in zip(k, self.a.shape):
                if isinstance(v, slice):
                    s = slice(*[None if x is None else int(x) for x in (v.start, v.stop, v.step)])
                    r.append(np.arange(n)[s])
                elif isinstance(v, SDM):
                    r.append(np.array([int(x) for x in v.elems_()]))
                elif np.ndim(v):
                    r.append(np.array([int(x) for x in np.asarray(v).reshape(-1)], dtype=int))
                else:
                    v = int(v)
                    if not -n <= v < n:
                        raise RuntimeError('Out of bounds error')
                    r.append(np.array([v]))
            for v, n in zip(r, self.a.shape):
                if v.size and (v.min() < -n or v.max() >= n):
                    raise RuntimeError('Out of bounds error')
            return np.ix_(*r)
        return None

    def __getitem__(self, k):
        ix = self._ix(k)
        if ix is not None:
            return SDM.of(self.a[ix].copy())
        f = np.array(self.elems_(), dtype=object)
        if isinstance(k, slice):
            r = f[k]
        elif np.ndim(k):
            r = f[np.asarray(k, dtype=int)]
        else:
            if not -len(f) <= int(k) < len(f):
                raise RuntimeError('Out of bounds error')
            r = np.array([f[int(k)]], dtype=object)
        return SDM.of(r.reshape(1, -1).copy() if self.a.shape[0] == 1 and self.a.shape[1] > 1 else r.reshape(-1, 1).copy())

    def __setitem__(self, k, v):
        v = _arr(v)
        ix = self._ix(k)
        if ix is None:
            pos = np.arange(self.a.size)
            p = pos[k] if isinstance(k, slice) else np.atleast_1d(np.asarray(k, dtype=int))
            vals = v.T.reshape(-1)
            if vals.size == 1:
                vals = np.repeat(vals, p.size)
            if vals.size != p.size:
                raise RuntimeError('Dimension mismatch')
            for q, x in zip(p, vals):
                q = int(q)
                self.a[q % self.a.shape[0], q // self.a.shape[0]] = x
            return
        tgt = self.a[ix]
        if v.size == 1:
            self.a[ix] = v[0, 0]
        elif v.shape == tgt.shape:
            self.a[ix] = v
        elif v.T.shape == tgt.shape and 1 in v.shape:
            self.a[ix] = v.T
        else:
            raise RuntimeError('Dimension mismatch for (x[i,j] = y)')

    def _bin(self, o, f):
        b = _arr(o)
        a = self.a
        if a.shape != b.shape and a.size != 1 and b.size != 1:
            raise RuntimeError('Dimension mismatch for (x+y)')
        if a.size == 1:
            a = a.reshape(1, 1)
        return SDM.of(f(a, b))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)
    def __neg__(self): return SDM.of(-self.a)
    def __matmul__(self, o): return mtimes(self, o)
    def __rmatmul__(self, o): return mtimes(o, self)
    def __float__(self): return float(self.a[0, 0])

    def __bool__(self):
        if self.a.size != 1:
            raise Exception('Only scalars')
        return bool(self.a[0, 0] != 0)

    def reshape(self, shape):
        return SDM.of(np.array(self.elems_(), dtype=object).reshape(shape[::-1]).T.copy())

    def __repr__(self):
        return 'SDM%r' % (self.a.shape,)


def mtimes(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    r = _arr(xs[0])
    for x in xs[1:]:
        y = _arr(x)
        if r.size == 1 or y.size == 1:
            r = r * y if r.size != 1 else r[0, 0] * y
            continue
        if r.shape[1] != y.shape[0]:
            raise RuntimeError('Matrix product with incompatible dimensions')
        r = np.dot(r, y) if r.shape[1] else npshim.zeros((r.shape[0], y.shape[1]))
    return SDM.of(r)


def _cat(axis):
    def f(*xs):
        if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
            xs = xs[0]
        xs = [_arr(x) for x in xs]
        xs = [x for x in xs if x.size] or xs[:1]
        if not xs:
            return SDM()
        return SDM.of(np.concatenate(xs, axis=axis))
    return f


vertcat, horzcat = _cat(0), _cat(1)
vcat = lambda x: vertcat(*x)
hcat = lambda x: horzcat(*x)


def diagcat(*xs):
    xs = [_arr(x) for x in xs]
    r = npshim.zeros((sum(x.shape[0] for x in xs), sum(x.shape[1] for x in xs)))
    i = j = 0
    for x in xs:
        r[i:i + x.shape[0], j:j + x.shape[1]] = x
        i += x.shape[0]
        j += x.shape[1]
    return SDM.of(r)


def repmat(x, n=1, m=1):
    return SDM.of(np.tile(_arr(x), (n, m)))


def transpose(x):
    return SDM.of(_arr(x).T.copy())


def solve(A, b, *r):
    return SDM.of(npshim._gauss(_arr(A), _arr(b)))


def inv(A, *r):
    a = _arr(A)
    return SDM.of(npshim._gauss(a, npshim.eye(len(a))))


def kron(a, b):
    return SDM.of(np.kron(_arr(a), _arr(b)))


def vec(x):
    return SDM.of(np.array(SDM(x).elems_(), dtype=object).reshape(-1, 1))


def reshape(x, *s):
    s = s[0] if len(s) == 1 else s
    return SDM(x).reshape(s)


def cumsum(x, axis=-1):
    a = _arr(x)
    if axis == -1:
        axis = 1 if a.shape[0] == 1 else 0
    return SDM.of(np.cumsum(a, axis=axis))


def sum1(x): return SDM.of(_arr(x).sum(axis=0).reshape(1, -1))
def sum2(x): return SDM.of(_arr(x).sum(axis=1).reshape(-1, 1))


def horzsplit(x, *k):
    a = _arr(x)
    if not k:
        return [SDM.of(a[:, i:i + 1].copy()) for i in range(a.shape[1])]
    k = k[0]
    off = list(range(0, a.shape[1], k)) if isinstance(k, int) else [int(v) for v in k]
    if off[-1] != a.shape[1]:
        off.append(a.shape[1])
    return [SDM.of(a[:, p:q].copy()) for p, q in zip(off, off[1:])]


def densify(x, *r): return x
def evalf(x): return x


class _MatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SDM)


class NumMat(metaclass=_MatMeta):
    """DM / MX in the numerical modules"""

    def __new__(cls, *a):
        return SDM(*a)

    @staticmethod
    def _shape(s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = s[0]
        return (s[0], 1) if len(s) == 1 else tuple(s) if s else (1, 1)

    @staticmethod
    def zeros(*s): return SDM.of(npshim.zeros(NumMat._shape(s)))
    @staticmethod
    def ones(*s): return SDM.of(npshim.ones(NumMat._shape(s)))
    @staticmethod
    def eye(n): return SDM.of(npshim.eye(n))

    @staticmethod
    def sym(*a): unsupported('symbol in symbolic numerics')


class CasadiShim(types.ModuleType):
    def __init__(self, over):
        super().__init__('casadi')
        self.__dict__['_over'] = over
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(cs, n)


NUM = dict(DM=NumMat, MX=NumMat, mtimes=mtimes, vertcat=vertcat, horzcat=horzcat, vcat=vcat, hcat=hcat, diagcat=diagcat, repmat=repmat,
           transpose=transpose, solve=solve, inv=inv, kron=kron, vec=vec, reshape=reshape, cumsum=cumsum, sum1=sum1, sum2=sum2,
           horzsplit=horzsplit, densify=densify, evalf=evalf)
num_shim = CasadiShim(NUM)

# ------------------------------------------------------------ DM with symbolic contents


def _contains_sx(x):
    if isinstance(x, cs.SX):
        return True
    if isinstance(x, (list, tuple)):
        return any(_contains_sx(v) for v in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(_contains_sx(v) for v in x.reshape(-1))
    return hasattr(x, '__DM__') and isinstance(x.__DM__(), cs.SX)


def _to_sx(x):
    if isinstance(x, cs.SX):
        return cs.SX(x)
    if hasattr(x, '__DM__'):
        return cs.SX(x.__DM__())
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return cs.SX(x.item())
        if x.ndim == 1:
            return cs.vertcat(*[cs.SX(v) for v in x])
        return cs.vertcat(*[cs.horzcat(*[cs.SX(v) for v in r]) for r in x])
    if isinstance(x, (list, tuple)):
        if any(isinstance(v, (list, tuple)) for v in x):
            return cs.vertcat(*[cs.horzcat(*[cs.SX(w) for w in v]) for v in x])
        return cs.vertcat(*[cs.SX(v) for v in x])
    return cs.SX(x)


class _DMMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (cs.DM, cs.SX))

    def __subclasscheck__(cls, c):
        return issubclass(c, (cs.DM, cs.SX))

    def __getattr__(cls, n):
        return getattr(cs.DM, n)


class DMProxy(metaclass=_DMMeta):
    """numeric matrix class; contents are real numbers or SX symbols standing for them"""
    __name__ = 'DM'

    def __new__(cls, *a):
        if len(a) == 1 and isinstance(a[0], (cs.MX,)):
            return cs.DM(*a)
        if len(a) == 1 and _contains_sx(a[0]):
            return _to_sx(a[0])
        if len(a) == 2 and isinstance(a[0], cs.Sparsity) and _contains_sx(a[1]):
            return cs.SX(a[0], _to_sx(a[1]))
        if len(a) == 1 and hasattr(a[0], '__DM__') and not isinstance(a[0], cs.DM):
            return cs.DM(a[0].__DM__())
        return cs.DM(*a)

    @staticmethod
    def nan(*a):
        return cs.SX(cs.DM.nan(*a))


class _SXMeta(type):
    def __instancecheck__(cls, x):
        return False

    def __getattr__(cls, n):
        return getattr(cs.SX, n)


class SXProxy(metaclass=_SXMeta):
    """the symbolic class while SX objects stand for numbers"""
    __name__ = 'SX'

    def __new__(cls, *a):
        return cs.SX(*a)


DMS = dict(DM=DMProxy, SX=SXProxy)
dm_shim = CasadiShim(DMS)
