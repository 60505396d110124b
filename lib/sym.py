"""Symbolic values and path exploration.

SymReal  exact rational functions  coeff * prod(poly_i ** e_i)  over the rationals
SymBool  formula; its truth value forks the execution
SymInt   integer term; use as an index/hash forks over its feasible values
SymCtx   one execution path: inputs, path condition (z3), obligations
ConcCtx  the same interface with concrete values (replay on the real code)
"""
import math
import time
from fractions import Fraction

import numpy as np
import z3

# ------------------------------------------------------------------ control

CTX = None          # context of the running path


class Abort(BaseException):
    """Path is given up (not an outcome of the code under test)."""

    def __init__(self, kind, msg=''):
        self.kind, self.msg = kind, msg
        super().__init__(kind, msg)


def unsupported(msg):
    c = CTX
    a = Abort('unsupported', msg)
    if c is not None:
        c.aborted = c.aborted or a
    raise a


# ------------------------------------------------------------------ polynomials

class Vars:
    names = []
    ids = {}
    z3s = []
    boxes = {}

    @classmethod
    def get(cls, name):
        i = cls.ids.get(name)
        if i is None:
            i = cls.ids[name] = len(cls.names)
            cls.names.append(name)
            cls.z3s.append(z3.Real(name))
        return i


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    na, nb = len(a), len(b)
    while i < na and j < nb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            r.append((va, ea + eb))
            i += 1
            j += 1
        elif va < vb:
            r.append(a[i])
            i += 1
        else:
            r.append(b[j])
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r)


def _mdiv(a, b):
    """a / b for monomials or None."""
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x:
            d[v] = x
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


class _Rev:
    __slots__ = ()


def _key(m):
    # lexicographic order, lower variable index first
    return tuple((-v, e) for v, e in m)


class Poly:
    __slots__ = ('t', '_h', '_z')
    MAX = 60000

    def __init__(self, t):
        self.t = t
        self._h = None
        self._z = None

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)} if c else {})

    @staticmethod
    def var(i):
        return Poly({((i, 1),): Fraction(1)})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self is o or self.t == o.t

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def __add__(self, o):
        if len(self.t) < len(o.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            x = t.get(m, 0) + c
            if x:
                t[m] = x
            else:
                t.pop(m, None)
        return Poly(t)

    def scale(self, c):
        if c == 1:
            return self
        return Poly({m: x * c for m, x in self.t.items()} if c else {})

    def __mul__(self, o):
        a, b = self.t, o.t
        if len(a) * len(b) > Poly.MAX * 20:
            unsupported('polynomial too large')
        t = {}
        for m, c in a.items():
            for n, d in b.items():
                k = _mmul(m, n)
                t[k] = t.get(k, 0) + c * d
        t = {k: v for k, v in t.items() if v}
        if len(t) > Poly.MAX:
            unsupported('polynomial too large')
        return Poly(t)

    def pow(self, n):
        r = Poly.const(1)
        for _ in range(n):
            r = r * self
        return r

    def lead(self):
        return max(self.t, key=_key)

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)

    def vars(self):
        return {v for m in self.t for v, _ in m}

    def divide(self, d):
        """Exact quotient or None."""
        if d.is_const():
            return self.scale(1 / d.t[()])
        if not (d.vars() <= self.vars()):
            return None
        lm = d.lead()
        lc = d.t[lm]
        rest = [(m, c) for m, c in d.t.items() if m != lm]
        r = dict(self.t)
        q = {}
        steps = 0
        while r:
            m = max(r, key=_key)
            k = _mdiv(m, lm)
            if k is None:
                return None
            c = r.pop(m) / lc
            q[k] = c
            for n, x in rest:
                kk = _mmul(k, n)
                y = r.get(kk, 0) - c * x
                if y:
                    r[kk] = y
                else:
                    r.pop(kk, None)
            steps += 1
            if steps > 3000:
                return None
        return Poly(q)

    def z(self):
        if self._z is None:
            terms = []
            for m, c in self.t.items():
                f = [Vars.z3s[v] for v, e in m for _ in range(e)]
                cc = z3.RealVal(str(c))
                if not f:
                    terms.append(cc)
                else:
                    p = f[0] if len(f) == 1 else z3.Product(*f)
                    terms.append(p if c == 1 else cc * p)
            self._z = z3.RealVal(0) if not terms else (terms[0] if len(terms) == 1 else z3.Sum(*terms))
        return self._z

    def value(self, env):
        s = 0
        for m, c in self.t.items():
            for v, e in m:
                c = c * env[v] ** e
            s += c
        return s


ONE = Poly.const(1)


def to_fraction(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        return Fraction(float(x))
    return None


class SymReal:
    """coeff * prod(f ** e); nan = undefined (division by zero and what depends on it)."""
    __slots__ = ('c', 'f', 'nan', '_exp')

    def __init__(self, c, f=None, nan=False):
        self.c = c
        self.f = f or {}
        self.nan = nan
        self._exp = None

    # construction
    @staticmethod
    def const(x):
        return SymReal(Fraction(x))

    @staticmethod
    def NaN():
        return SymReal(Fraction(0), None, True)

    @staticmethod
    def poly(p):
        """normal form of a polynomial"""
        if p.is_zero():
            return SymReal(Fraction(0))
        if p.is_const():
            return SymReal(p.t[()])
        # monomial content
        it = iter(p.t)
        g = dict(next(it))
        for m in it:
            if not g:
                break
            d = dict(m)
            g = {v: min(e, d[v]) for v, e in g.items() if v in d}
        f = {}
        if g:
            gm = tuple(sorted(g.items()))
            p = Poly({_mdiv(m, gm): c for m, c in p.t.items()})
            for v, e in gm:
                f[Poly.var(v)] = e
        lc = p.t[p.lead()]
        p = p.scale(1 / lc)
        if not p.is_const():
            f[p] = f.get(p, 0) + 1
        return SymReal(lc, f)

    @staticmethod
    def wrap(x):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymBool):
            return SymReal.const(1 if x else 0)
        if isinstance(x, SymInt):
            return SymReal.const(int(x))
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return SymReal.wrap(x.item())
        if isinstance(x, (float, np.floating)) and not math.isfinite(x):
            return SymReal.NaN()
        q = to_fraction(x)
        return None if q is None else SymReal(q)

    def is_const(self):
        return not self.f and not self.nan

    def num_den(self):
        """expanded numerator and denominator"""
        if self._exp is None:
            n, d = Poly.const(self.c), ONE
            for p, e in self.f.items():
                if e > 0:
                    n = n * p.pow(e)
                else:
                    d = d * p.pow(-e)
            self._exp = (n, d)
        return self._exp

    # arithmetic
    def __neg__(self):
        return SymReal(-self.c, self.f, self.nan)

    def __pos__(self):
        return self

    def _add(self, o, sign=1):
        if self.nan or o.nan:
            return SymReal.NaN()
        if not o.c:
            return self
        if not self.c:
            return o if sign == 1 else -o
        a, b = self.f, o.f
        common = {}
        for p in set(a) | set(b):
            e = min(a.get(p, 0), b.get(p, 0))
            if e:
                common[p] = e
        x = Poly.const(self.c)
        for p, e in a.items():
            k = e - common.get(p, 0)
            if k:
                x = x * p.pow(k)
        for p, e in common.items():
            if p not in a:
                x = x * p.pow(-e)
        y = Poly.const(o.c * sign)
        for p, e in b.items():
            k = e - common.get(p, 0)
            if k:
                y = y * p.pow(k)
        for p, e in common.items():
            if p not in b:
                y = y * p.pow(-e)
        s = x + y
        if s.is_zero():
            return SymReal(Fraction(0))
        # cancel against the denominator
        for p in sorted([p for p, e in common.items() if e < 0], key=lambda p: len(p.t)):
            while common.get(p, 0) < 0:
                q = s.divide(p)
                if q is None:
                    break
                s = q
                common[p] += 1
        r = SymReal.poly(s)
        f = {p: e for p, e in common.items() if e}
        for p, e in r.f.items():
            k = f.get(p, 0) + e
            if k:
                f[p] = k
            else:
                f.pop(p, None)
        return SymReal(r.c, f)

    def __add__(self, o):
        w = SymReal.wrap(o)
        return NotImplemented if w is None else self._add(w)

    __radd__ = __add__

    def __sub__(self, o):
        w = SymReal.wrap(o)
        return NotImplemented if w is None else self._add(w, -1)

    def __rsub__(self, o):
        w = SymReal.wrap(o)
        return NotImplemented if w is None else w._add(self, -1)

    def __mul__(self, o):
        o = SymReal.wrap(o)
        if o is None:
            return NotImplemented
        if self.nan or o.nan:
            return SymReal.NaN()
        if not self.c or not o.c:
            return SymReal(Fraction(0))
        f = dict(self.f)
        for p, e in o.f.items():
            k = f.get(p, 0) + e
            if k:
                f[p] = k
            else:
                f.pop(p, None)
        return SymReal(self.c * o.c, f)

    __rmul__ = __mul__

    def inv(self):
        if self.nan:
            return self
        if not self.c:
            return SymReal.NaN()
        for p, e in self.f.items():
            if e > 0 and not CTX.known_nonzero(p):
                if CTX.branch(p.z() == 0):
                    return SymReal.NaN()
                CTX.nonzero.add(p)
        return SymReal(1 / self.c, {p: -e for p, e in self.f.items()})

    def __truediv__(self, o):
        w = SymReal.wrap(o)
        return NotImplemented if w is None else self * w.inv()

    def __rtruediv__(self, o):
        w = SymReal.wrap(o)
        return NotImplemented if w is None else w * self.inv()

    def __floordiv__(self, o):
        return (self / o).floor()

    def __mod__(self, o):
        return self - o * (self / o).floor()

    def __pow__(self, n):
        if isinstance(n, SymReal):
            if not n.is_const():
                unsupported('symbolic exponent')
            n = n.c
        if isinstance(n, SymInt):
            n = int(n)
        q = to_fraction(n)
        if q is None:
            return NotImplemented
        if self.is_const() and (q.denominator != 1 or abs(q) > 64):
            return SymReal.const(float(self.c) ** float(q))
        if q.denominator != 1:
            unsupported('fractional power')
        n = int(q)
        if n == 0:
            return SymReal.const(1)
        if self.nan:
            return self
        if n < 0:
            return self.inv() ** (-n)
        if not self.c:
            return self
        return SymReal(self.c ** n, {p: e * n for p, e in self.f.items()})

    def __rpow__(self, o):
        if self.is_const():
            return SymReal.wrap(o) ** self
        unsupported('symbolic exponent')

    # comparison
    def _sign(self, op):
        """z3 formula or bool for  self op 0,  op in < <= == """
        if self.nan:
            return False
        if not self.c:
            return op in ('<=', '==')
        pos = [p for p, e in self.f.items() if e > 0]
        if op == '==':
            c = [p for p in pos if not CTX.known_nonzero(p)]
            if not c:
                return False
            return z3.Or(*[p.z() == 0 for p in c]) if len(c) > 1 else c[0].z() == 0
        s = 1 if self.c > 0 else -1
        odd = []
        nz = []
        for p, e in self.f.items():
            if e % 2:
                k = CTX.known_sign(p)
                if k:
                    s *= k
                else:
                    odd.append(p)
            elif e > 0 and not CTX.known_nonzero(p):
                nz.append(p)
        if not odd:
            if s < 0:
                if op == '<=' or not nz:
                    return True
                return z3.And(*[p.z() != 0 for p in nz])
            if op == '<' or not nz:
                return False
            return z3.Or(*[p.z() == 0 for p in nz])
        pr = odd[0].z() if len(odd) == 1 else z3.Product(*[p.z() for p in odd])
        if op == '<':
            r = pr < 0 if s > 0 else pr > 0
            return z3.And(r, *[p.z() != 0 for p in nz]) if nz else r
        # denominators (odd negative exponents) are nonzero
        r = pr <= 0 if s > 0 else pr >= 0
        return z3.Or(r, *[p.z() == 0 for p in nz]) if nz else r

    def _cmp(self, o, op, swap=False):
        w = SymReal.wrap(o)
        if w is None:
            if isinstance(o, (float, np.floating)):
                return SymBool(False)
            return NotImplemented
        if isinstance(o, (float, np.floating)) and math.isinf(o):
            lt = (o > 0) != swap
            return SymBool(lt if not self.nan else False)
        d = (w - self) if swap else (self - w)
        return SymBool(d._sign(op))

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '<', True)
    def __ge__(self, o): return self._cmp(o, '<=', True)

    def __eq__(self, o):
        if isinstance(o, (float, np.floating)) and not math.isfinite(o):
            return SymBool(False)
        w = SymReal.wrap(o)
        if w is None:
            return NotImplemented
        if self.nan or w.nan:
            return SymBool(False)
        d = self - w
        pos = [p for p, e in d.f.items() if e > 0 and not CTX.known_nonzero(p)]
        return SymBool(d._sign('=='), (pos[0], True) if len(pos) == 1 else None)

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else ~r

    def __hash__(self):
        if self.is_const():
            return hash(self.c)
        unsupported('hash of a symbolic real')

    def __bool__(self):
        if self.nan:
            return True
        return bool(~SymBool(self._sign('==')))

    # numpy ufunc protocol on object arrays
    def __abs__(self):
        return self if not bool(self < 0) else -self

    absolute = fabs = __abs__

    def sign(self):
        if self > 0:
            return SymReal.const(1)
        return SymReal.const(0) if self == 0 else SymReal.const(-1)

    def conjugate(self): return self
    def square(self): return self * self
    def reciprocal(self): return 1 / self

    def isnan(self): return self.nan
    def isfinite(self): return not self.nan
    def isinf(self): return False

    @property
    def real(self): return self

    @property
    def imag(self): return SymReal.const(0)

    def _round(self, lo_strict):
        if self.nan:
            return self
        if self.is_const():
            return None
        K = CTX.int_window
        for n in [k for a in range(K + 1) for k in ((a, -a) if a else (0,))]:
            if lo_strict:       # ceil
                if bool(SymBool.both(self > n - 1, self <= n)):
                    return SymReal.const(n)
            else:
                if bool(SymBool.both(self >= n, self < n + 1)):
                    return SymReal.const(n)
        CTX.abort('bound', 'integer part outside the window')

    def floor(self):
        return SymReal.const(math.floor(self.c)) if self.is_const() else self._round(False)

    def ceil(self):
        return SymReal.const(math.ceil(self.c)) if self.is_const() else self._round(True)

    __floor__ = floor
    __ceil__ = ceil

    def rint(self):
        return (self + Fraction(1, 2)).floor()

    def trunc(self):
        return self.floor() if self >= 0 else self.ceil()

    __trunc__ = trunc

    def __float__(self):
        if self.nan:
            return float('nan')
        if self.is_const():
            return float(self.c)
        unsupported('conversion of a symbolic real to float')

    def __int__(self):
        if self.is_const():
            return int(self.c)
        return int(self.trunc())

    def __index__(self):
        if self.is_const() and self.c.denominator == 1:
            return int(self.c)
        raise TypeError('float index')

    def __round__(self, n=None):
        return self.rint()

    def _fun(name):
        def f(self):
            if self.is_const():
                return SymReal.const(float(getattr(np, name)(float(self.c))))
            unsupported('transcendental function ' + name)
        return f
    for _n in ['cos', 'sin', 'tan', 'exp', 'log', 'sqrt', 'arccos', 'arcsin', 'arctan', 'tanh', 'sinh', 'cosh', 'log2', 'log10', 'cbrt', 'exp2', 'expm1', 'log1p']:
        locals()[_n] = _fun(_n)
    del _n

    def __repr__(self):
        if self.nan:
            return 'nan'
        if self.is_const():
            return str(float(self.c))
        n, d = self.num_den()
        return '<%d/%d terms>' % (len(n.t), len(d.t))

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def item(self):
        return self

    def value(self, env):
        """env: var id -> Fraction"""
        if self.nan:
            return None
        x = self.c
        for p, e in self.f.items():
            v = p.value(env)
            if v == 0 and e < 0:
                return None
            x = x * v ** e
        return x


class SymBool:
    __slots__ = ('e', 'eq')

    def __init__(self, e, eq=None):
        self.eq = eq            # (polynomial, True): e says polynomial == 0; (.., False): != 0
        if z3.is_true(e) if not isinstance(e, bool) else False:
            e = True
        elif z3.is_false(e) if not isinstance(e, bool) else False:
            e = False
        self.e = e

    @staticmethod
    def of(x):
        return x if isinstance(x, SymBool) else SymBool(bool(x))

    @staticmethod
    def both(a, b):
        return SymBool.of(a) & SymBool.of(b)

    def __bool__(self):
        if self.e is True or self.e is False:
            return self.e
        d = CTX.branch(self.e)
        if self.eq is not None and d == self.eq[1]:
            CTX.learn_equality(self.eq[0])
        return d

    def z(self):
        return z3.BoolVal(self.e) if isinstance(self.e, bool) else self.e

    def __and__(self, o):
        o = SymBool.of(o)
        if self.e is False or o.e is False:
            return SymBool(False)
        if self.e is True:
            return o
        if o.e is True:
            return self
        return SymBool(z3.And(self.e, o.e))

    __rand__ = __and__
    logical_and = __and__

    def __or__(self, o):
        o = SymBool.of(o)
        if self.e is True or o.e is True:
            return SymBool(True)
        if self.e is False:
            return o
        if o.e is False:
            return self
        return SymBool(z3.Or(self.e, o.e))

    __ror__ = __or__
    logical_or = __or__

    def __invert__(self):
        if isinstance(self.e, bool):
            return SymBool(not self.e)
        return SymBool(z3.Not(self.e), None if self.eq is None else (self.eq[0], not self.eq[1]))

    logical_not = __invert__

    def __xor__(self, o):
        return SymBool(bool(self) ^ bool(o))

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))

    def __int__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __index__(self): return int(bool(self))
    def __add__(self, o): return int(bool(self)) + o
    __radd__ = __add__
    def __sub__(self, o): return int(bool(self)) - o
    def __rsub__(self, o): return o - int(bool(self))
    def __mul__(self, o): return int(bool(self)) * o
    __rmul__ = __mul__
    def __neg__(self): return -int(bool(self))

    def __repr__(self):
        return 'SymBool(%s)' % (self.e,)


class SymInt:
    """Integer term. Not an int; modules under test get an `int` whose instance check accepts it."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def term(o):
        if isinstance(o, SymInt):
            k = CTX.ints.get(o.e.get_id()) if CTX is not None else None
            return o.e if k is None else z3.IntVal(k[1])
        if isinstance(o, (bool, int, np.integer)):
            return z3.IntVal(int(o))
        return None

    def _bin(self, o, f):
        t = SymInt.term(o)
        return NotImplemented if t is None else SymInt(f(SymInt.term(self), t))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return SymInt(-self.e)
    def __pos__(self): return self

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return SymInt(self.e % o)
        return int(self) % int(o)

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return SymInt(self.e / o)
        return int(self) // int(o)

    def __truediv__(self, o):
        return int(self) / o

    def __abs__(self):
        return self if self >= 0 else -self

    def _c(self, o, f):
        t = SymInt.term(o)
        return NotImplemented if t is None else SymBool(f(SymInt.term(self), t))

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        t = SymInt.term(o)
        return False if t is None else SymBool(SymInt.term(self) == t)

    def __ne__(self, o):
        t = SymInt.term(o)
        return True if t is None else SymBool(SymInt.term(self) != t)

    def __bool__(self):
        return bool(self != 0)

    def concretize(self, window=None):
        """Fork over the feasible values; None if the value is outside the window."""
        w = CTX.int_window if window is None else window
        v = CTX.fixed_value(self.e)
        if v is not None:
            return v
        return CTX.enumerate(self.e, w)

    def __index__(self):
        v = self.concretize()
        if v is None:
            # any representative: outside every range that occurs within the bounds
            v = CTX.some_value(self.e)
            CTX.assume_z(self.e == v)
        return v

    __int__ = __index__

    def __hash__(self):
        v = self.concretize()
        return hash(v) if v is not None else hash(('outside', 1 << 40))

    def __float__(self):
        return float(int(self))

    def __repr__(self):
        return 'SymInt(%s)' % self.e

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def is_sym(x):
    return isinstance(x, (SymReal, SymBool, SymInt))


class IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, int) or c is SymInt


class IntProxy(metaclass=IntMeta):
    """Stands for the builtin int in modules under test."""

    def __new__(cls, *a, **k):
        if a and isinstance(a[0], SymInt):
            return a[0]
        if a and isinstance(a[0], SymReal):
            return int(a[0])
        return int(*a, **k)


class FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, float) or c is SymReal


class FloatProxy(float, metaclass=FloatMeta):
    """Stands for the builtin float in modules under test."""
    dtype = np.dtype(float)

    def __new__(cls, *a):
        x = a[0] if len(a) == 1 else None
        if isinstance(x, np.ndarray) and x.dtype == object and x.ndim == 0:
            x = x.item()
        if isinstance(x, SymReal):
            return x
        return float(*a)


# ------------------------------------------------------------------ contexts

class Failure(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_time = 0.0
        self.unknown = 0
        self.branches = 0
        self.obligations = 0


class Finding:
    """A candidate counterexample: values for the inputs of the body."""

    def __init__(self, label, values, nice, kind, detail=''):
        self.label, self.values, self.nice, self.kind, self.detail = label, values, nice, kind, detail


BOX = 4


class CtxBase:
    symbolic = False

    def true(self, cond, label):
        raise NotImplementedError

    def raises(self, fn, label, also=None):
        """fn() must raise an Exception."""
        try:
            fn()
        except Exception:
            self.guard()
            self.true(True, label)
            return True
        self.true(False, label)
        return False

    def eq_all(self, a, b, label, tol=0):
        a, b = list(a), list(b)
        self.true(len(a) == len(b), label + ': length')
        if len(a) == len(b):
            for k, (x, y) in enumerate(zip(a, b)):
                self.eq(x, y, '%s[%d]' % (label, k), tol)


class SymCtx(CtxBase):
    symbolic = True

    def __init__(self, prefix=(), stats=None, int_window=6, timeout=4000, ob_timeout=20000, memo=None):
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []
        self.alternatives = []
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout)
        self.timeout = timeout
        self.ob_timeout = ob_timeout
        self.stats = stats or Stats()
        self.int_window = int_window
        self.inputs = {}          # name -> (kind, z3 const, info)
        self.nice_c = []
        self.findings = []
        self.inconclusive = []
        self.aborted = None
        self.nonzero = set()
        self.signs = {}
        self.uf = {}
        self.ufcount = 0
        self.has_path = False
        self.sxsyms = []
        self.equalities = []
        self.covers = set()
        self.memo = memo if memo is not None else {}
        self.ints = {}            # integer terms whose value is fixed on this path

    # -- solver access
    def _check(self, *assumptions, timeout=None):
        t = time.time()
        if timeout:
            self.solver.set('timeout', timeout)
        r = self.solver.check(*assumptions)
        if timeout:
            self.solver.set('timeout', self.timeout)
        self.stats.queries += 1
        self.stats.solver_time += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def abort(self, kind, msg=''):
        a = Abort(kind, msg)
        self.aborted = self.aborted or a
        raise a

    def guard(self):
        if self.aborted:
            raise self.aborted

    def assume_z(self, e):
        self.solver.add(e)
        self.has_path = True

    def assume(self, cond, check=True):
        """Precondition of the property (part of the bounds)."""
        self.guard()
        eq = None
        if isinstance(cond, SymBool):
            eq = cond.eq
            cond = cond.e
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                self.abort('infeasible')
            return
        self.assume_z(cond)
        if eq is not None and eq[1]:
            self.learn_equality(eq[0])
        if check and self._check() == z3.unsat:
            self.abort('infeasible')

    def branch(self, e):
        self.guard()
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d in (True, False):
                # d was feasible when it was scheduled
                self.decisions.append(d)
                self.assume_z(e if d else z3.Not(e))
                return d
            d = d[0]        # forced decision ('T',)/('F',)
            self.decisions.append((d,))
            return d == 'T'
        self.pos += 1
        t = self._check(e)
        if t == z3.unsat:
            self.decisions.append(('F',))
            return False
        f = self._check(z3.Not(e))
        if f == z3.unsat:
            self.decisions.append(('T',))
            return True
        self.alternatives.append(self.decisions + [False])
        self.decisions.append(True)
        self.assume_z(e)
        return True

    def enumerate(self, e, w):
        """Fork over the feasible values of e within [-w, w]; None if outside."""
        self.guard()
        while True:
            self.stats.branches += 1
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
            elif self._check(e >= -w, e <= w) == z3.sat:
                v = self.solver.model().eval(e, model_completion=True).as_long()
                d = ('V', v)
                if self._check(e != v) != z3.unsat:
                    self.alternatives.append(self.decisions + [('N', v)])
            else:
                d = ('O', 0)
            self.pos += 1
            self.decisions.append(d)
            if d[0] == 'V':
                self.assume_z(e == d[1])
                self.ints[e.get_id()] = (e, d[1])
                return d[1]
            if d[0] == 'O':
                self.assume_z(z3.Or(e < -w, e > w))
                return None
            self.assume_z(e != d[1])

    def known_nonzero(self, p):
        if p in self.nonzero or p in self.signs and self.signs[p]:
            return True
        if p.degree() > 2 and len(p.t) > 6:
            return False
        if self._check(p.z() == 0, timeout=500) == z3.unsat:
            self.nonzero.add(p)
            return True
        return False

    def known_sign(self, p):
        s = self.signs.get(p)
        if s:
            return s
        if p.degree() > 2 and len(p.t) > 6:
            return 0
        z = p.z()
        if self._check(z <= 0, timeout=500) == z3.unsat:
            self.signs[p] = 1
            return 1
        if self._check(z >= 0, timeout=500) == z3.unsat:
            self.signs[p] = -1
            return -1
        return 0

    def learn_equality(self, p):
        """p == 0 on this path: solve for a variable that occurs linearly with a constant coefficient."""
        p = self.reduce(p)
        for m, c in sorted(p.t.items(), reverse=True):
            if len(m) == 1 and m[0][1] == 1:
                v = m[0][0]
                if all(all(x != v for x, _ in n) for n in p.t if n != m):
                    rest = Poly({n: -x / c for n, x in p.t.items() if n != m})
                    self.equalities.append((v, rest))
                    return

    def reduce(self, p):
        for v, rest in self.equalities:
            if v in p.vars():
                r = Poly({})
                cache = {0: ONE}
                for m, c in p.t.items():
                    e = dict(m).get(v, 0)
                    if e not in cache:
                        cache[e] = rest.pow(e)
                    r = r + Poly({tuple(x for x in m if x[0] != v): c}) * cache[e]
                p = r
        return p

    def substituted(self, z):
        for v, rest in self.equalities:
            z = z3.substitute(z, (Vars.z3s[v], rest.z()))
        return z

    def fixed_value(self, e):
        k = self.ints.get(e.get_id())
        if k is not None:
            return k[1]
        e = z3.simplify(e)
        return e.as_long() if z3.is_int_value(e) else None

    def some_value(self, e):
        if self._check() == z3.sat:
            return self.solver.model().eval(e, model_completion=True).as_long()
        self.abort('unsupported', 'no model')

    # -- inputs
    def real(self, name, lo=None, hi=None, nice=True):
        v = Vars.get(name)
        z = Vars.z3s[v]
        self.inputs[name] = ('real', z, v)
        if lo is not None:
            self.solver.add(z >= z3.RealVal(str(Fraction(lo))))
        if hi is not None:
            self.solver.add(z <= z3.RealVal(str(Fraction(hi))))
        if nice:
            self.nice_c += [z >= -BOX, z <= BOX]
        return SymReal.poly(Poly.var(v))

    def reals(self, name, n, **k):
        return [self.real('%s%d' % (name, i), **k) for i in range(n)]

    def distinct(self, xs, sep=Fraction(1, 2)):
        """Precondition: pairwise different (witnesses: by at least sep)."""
        for i in range(len(xs)):
            for j in range(i):
                d = xs[i] - xs[j]
                self.assume(d != 0, check=False)
                n, _ = d.num_den()
                z = n.z()
                self.nice_c.append(z3.Or(z >= str(sep), z <= str(-sep)))

    def ascending(self, xs, sep=Fraction(1, 2)):
        for i in range(1, len(xs)):
            d = xs[i] - xs[i - 1]
            self.assume(d > 0, check=False)
            n, _ = d.num_den()
            self.nice_c.append(n.z() >= str(sep))

    def int(self, name, lo=None, hi=None):
        z = z3.Int(name)
        self.inputs[name] = ('int', z, None)
        if lo is not None:
            self.solver.add(z >= lo)
        if hi is not None:
            self.solver.add(z <= hi)
        self.nice_c += [z >= -40, z <= 40]
        return SymInt(z)

    def bool(self, name):
        z = z3.Int(name)
        self.inputs[name] = ('int', z, None)
        self.solver.add(z >= 0, z <= 1)
        return SymBool(z == 1)

    def choice(self, name, options):
        """Fork over a finite set of configurations."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        z = z3.Int(name)
        if name not in self.inputs:
            self.inputs[name] = ('int', z, None)
            self.solver.add(z >= 0, z < len(options))
            # a fresh variable: every option is feasible
            self.guard()
            self.stats.branches += 1
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
            else:
                d = ('C', 0)
                self.alternatives += [self.decisions + [('C', k)] for k in range(len(options) - 1, 0, -1)]
            self.pos += 1
            self.decisions.append(d)
            self.assume_z(z == d[1])
            return options[d[1]]
        for k in range(len(options) - 1):
            if self.branch(z == k):
                return options[k]
        return options[-1]

    # -- casadi symbols (contents of matrices)
    def sxvec(self, name, n, m=1):
        import casadi as cs
        s = cs.SX.sym(name, n, m)
        for k, e in enumerate(s.elements()):
            nm = '%s_%d' % (name, k)
            self.sxsyms.append((e, self.real(nm)))
        return s

    def dm(self, name, n, m=1):
        """Matrix with arbitrary contents: SX symbols here, DM in the replay."""
        return self.sxvec(name, n, m)

    def elems(self, x):
        """Column-major elements (dense) of a casadi matrix / array as numbers of the context."""
        from sx2 import interpret_sx
        import casadi as cs
        if hasattr(x, 'elems_'):
            return x.elems_()
        if isinstance(x, np.ndarray):
            return [SymReal.wrap(v) if not isinstance(v, cs.SX) else self.elems(v)[0] for v in np.atleast_2d(x).T.ravel()] if x.ndim < 3 else unsupported('array of dimension 3')
        if isinstance(x, (SymReal, int, float, Fraction, np.number)):
            return [SymReal.wrap(x)]
        if isinstance(x, (list, tuple)):
            return [e for v in x for e in self.elems(v)]
        if isinstance(x, cs.MX):
            if x.is_constant():
                x = cs.SX(cs.evalf(x))
            else:
                f = cs.Function('f', self.mxsyms_in(), [x], {'allow_free': False})
                x = f(*[s for _, s in self.mxsyms])
                if not isinstance(x, cs.SX):
                    x = cs.SX(x)
        if isinstance(x, (cs.SX, cs.DM)):
            return interpret_sx(self, cs.SX(x))
        for m in ('__SX__', '__MX__', '__DM__', 'cat'):
            if hasattr(x, m):
                a = getattr(x, m)
                return self.elems(a() if callable(a) and m != 'cat' else a)
        unsupported('elements of %s' % type(x))

    mxsyms = ()

    def mxsyms_in(self):
        return [m for m, _ in self.mxsyms]

    def mx(self, name, n, m=1):
        """Symbolic MX with arbitrary contents."""
        import casadi as cs
        s = cs.MX.sym(name, n, m)
        self.bind(s, name)
        return s

    def bind(self, s, name):
        """Give the symbolic primitive s (MX or SX) arbitrary contents."""
        import casadi as cs
        if isinstance(s, cs.MX):
            x = self.sxvec(name, s.size1(), s.size2())
            self.mxsyms = list(self.mxsyms) + [(cs.MX(s), x)]       # the object itself may be written to
            return self.elems(x)
        out = []
        for k, e in enumerate(s.elements()):
            r = self.real('%s_%d' % (name, k))
            self.sxsyms.append((e, r))
            out.append(r)
        return out

    def call(self, f, args):
        """Evaluate a casadi Function; args and results are column-major element lists."""
        from sx2 import interpret
        return interpret(self, f, args)

    # -- obligations
    def _model_values(self, m):
        out = {}
        for name, (kind, z, v) in self.inputs.items():
            x = m.eval(z, model_completion=True)
            if kind == 'int':
                out[name] = x.as_long()
            else:
                if z3.is_rational_value(x):
                    out[name] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
                else:
                    a = x.approx(30)
                    out[name] = float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
        return out

    def models(self, extra, margin=()):
        """Concrete inputs satisfying path and extra, well conditioned ones first."""
        for nice, cons in ((True, list(extra) + list(margin) + self.nice_c), (True, list(extra) + self.nice_c), (False, list(extra))):
            self.solver.push()
            self.solver.add(*cons)
            r = self._check(timeout=self.ob_timeout)
            m = self.solver.model() if r == z3.sat else None
            self.solver.pop()
            if m is not None:
                yield self._model_values(m), nice
        g = self._generic(list(extra))
        if g is not None:
            yield g, True

    def _generic(self, extra):
        """Concrete inputs satisfying path and extra without accidental coincidences between the real inputs
        (uninterpreted functions of different arguments may agree at special values)."""
        pins, x = [], Fraction(3, 10)
        for k, (kind, z, _) in enumerate(self.inputs.values()):
            if kind == 'real':
                pins.append(z == z3.RealVal(str(x)))
                x += Fraction(37 + 23 * (k * k % 7) + 11 * (k % 3), 100)
        self.solver.push()
        self.solver.add(*extra)
        m = None
        if self._check(*pins, timeout=self.ob_timeout) == z3.sat:
            m = self.solver.model()
        else:
            kept = []
            for p in pins[:60]:
                if self._check(*kept, p, timeout=500) == z3.sat:
                    kept.append(p)
                    m = self.solver.model()
        self.solver.pop()
        return self._model_values(m) if m is not None else None

    def true(self, cond, label):
        self.guard()
        self.stats.obligations += 1
        if isinstance(cond, SymBool):
            cond = cond.e
        if isinstance(cond, np.bool_):
            cond = bool(cond)
        if isinstance(cond, bool):
            if cond:
                return
            neg = z3.BoolVal(True)
        else:
            neg = z3.Not(cond)
        self._obligation(neg, label)

    def _obligation(self, neg, label, margin=()):
        r = self._check(neg, timeout=self.ob_timeout)
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            self.inconclusive.append(label + ': solver gave no verdict')
            return False
        for vals, nice in self.models([neg], margin):
            self.findings.append(Finding(label, vals, nice, 'assertion'))
        if not any(f.label == label for f in self.findings):
            self.inconclusive.append(label + ': no concrete counterexample')
        return False

    def eq_all(self, a, b, label, tol=0):
        a, b = list(a), list(b)
        self.true(len(a) == len(b), label + ': length')
        if len(a) != len(b):
            return
        easy = []
        for k, (x, y) in enumerate(zip(a, b)):
            x, y = SymReal.wrap(x), SymReal.wrap(y)
            if not tol and x is not None and y is not None and not x.nan and not y.nan and x.num_den()[1] is ONE and y.num_den()[1] is ONE and not (x - y).c:
                easy.append(x.num_den()[0].z() != y.num_den()[0].z())
            else:
                self.eq(x, y, '%s[%d]' % (label, k), tol)
        if easy:
            # the normal forms agree: one query for all of them
            self.stats.obligations += len(easy)
            t0 = time.time()
            q = z3.Solver()
            q.set('timeout', self.ob_timeout)
            q.add(z3.Or(*easy))
            v = q.check()
            self.stats.queries += 1
            self.stats.solver_time += time.time() - t0
            if v != z3.unsat:
                self._obligation(z3.Or(*easy), label)

    def eq(self, a, b, label, tol=0):
        self.guard()
        self.stats.obligations += 1
        a, b = SymReal.wrap(a), SymReal.wrap(b)
        if a is None or b is None:
            unsupported('comparison of non-numbers in ' + label)
        if a.nan or b.nan:
            return self._obligation(z3.BoolVal(True), label)
        if tol:
            if self.equalities:
                # differences that vanish with the equalities of the path
                n, den = (a - b).num_den()
                if den.is_const():
                    a, b = SymReal.poly(self.reduce(n.scale(1 / den.t[()]))), SymReal.const(0)
            return self._eq_tol(a, b, label, tol)
        an, ad = a.num_den()
        bn, bd = b.num_den()
        # products are left to the solver
        l, r = an.z(), bn.z()
        if bd is not ONE and not bd.is_const():
            l = l * bd.z()
        if ad is not ONE and not ad.is_const():
            r = r * ad.z()
        if bd.is_const() and bd.t[()] != 1:
            l = l * z3.RealVal(str(bd.t[()]))
        if ad.is_const() and ad.t[()] != 1:
            r = r * z3.RealVal(str(ad.t[()]))
        diff = a - b
        if not diff.nan and (not diff.c or self.equalities and self.reduce(diff.num_den()[0]).is_zero()):
            # the normal forms agree; the solver confirms it on the unexpanded terms
            t0 = time.time()
            q = z3.Solver()
            q.add(z3.simplify(self.substituted(l - r), som=True) != 0)
            q.set('timeout', self.ob_timeout)
            v = q.check()
            self.stats.queries += 1
            self.stats.solver_time += time.time() - t0
            if v == z3.unsat:
                return True
            return self._obligation(l != r, label)
        dn, dd = diff.num_den()
        dn = self.reduce(dn)
        big = max([abs(c) for p in (an, bn) for c in p.t.values()] + [Fraction(1)])
        if max(abs(c) for c in dn.t.values()) <= big * Fraction(1, 10 ** 10):
            # coefficients of rounding size: numerators agree within the box up to 1e-6
            return self._eq_tol(SymReal.poly(dn), SymReal.const(0), label, Fraction(1, 10 ** 6))
        # a model of the path alone may already be a counterexample
        found = False
        for vals, nice in self.models([]):
            env = {v: Fraction(vals[nm]) for nm, (k, _, v) in self.inputs.items() if k == 'real'}
            if all(v in env for v in dn.vars()) and abs(dn.value(env)) > Fraction(1, 100):
                self.findings.append(Finding(label, vals, nice, 'assertion'))
                found = True
            break
        if found:
            return False
        margin = [z3.Or(dn.z() * 8 > 1, dn.z() * 8 < -1)]
        return self._obligation(dn.z() != 0, label, margin)

    def _eq_tol(self, a, b, label, tol):
        """|a-b| <= tol for all values in the box, monomials as independent bounded unknowns (LRA)."""
        d = a - b
        if d.is_const():
            return self._obligation(z3.BoolVal(abs(d.c) > Fraction(tol)), label)
        n, den = d.num_den()
        if not den.is_const():
            # claim restricted to the well-conditioned box of the inputs
            t = z3.RealVal(str(Fraction(tol)))
            a2, d2 = n.z() * n.z(), den.z() * den.z()
            return self._obligation(z3.And(a2 > t * t * d2, *self.nice_c), label)
        n = n.scale(1 / den.t[()])
        s = z3.Solver()
        s.set('timeout', self.ob_timeout)
        tot = []
        lin = True
        for m, c in n.t.items():
            if not m:
                tot.append(z3.RealVal(str(c)))
                continue
            if len(m) == 1 and m[0][1] == 1:
                x = Vars.z3s[m[0][0]]
                B = Fraction(Vars.boxes.get(m[0][0], BOX))
            else:
                lin = False
                x = z3.Real('m!' + '*'.join('%s^%d' % (Vars.names[v], e) for v, e in m))
                B = Fraction(1)
                for v, e in m:
                    B *= Fraction(Vars.boxes.get(v, BOX)) ** e
            s.add(x >= str(-B), x <= str(B))
            tot.append(z3.RealVal(str(c)) * x)
        e = z3.Sum(*tot)
        t = z3.RealVal(str(Fraction(tol)))
        s.add(z3.Or(e > t, e < -t))
        t0 = time.time()
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_time += time.time() - t0
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            self.inconclusive.append(label + ': solver gave no verdict')
            return False
        # concrete values: exact difference, away from zero
        ez = n.z()
        k = len(self.findings)
        for mar in ('1/8', str(Fraction(tol))):
            for vals, nice in self.models([z3.Or(ez > mar, ez < '-' + mar)]):
                self.findings.append(Finding(label, vals, nice, 'assertion'))
                break
            if len(self.findings) > k:
                g = self._generic([z3.Or(ez > mar, ez < '-' + mar)])
                if g is not None:
                    self.findings.append(Finding(label, g, True, 'assertion'))
                break
        if len(self.findings) == k:
            self.inconclusive.append(label + ': relaxation too coarse')
        return False

    def val(self, x):
        return x

    def cover(self, name):
        self.covers.add(name)


class ConcCtx(CtxBase):
    """Replay: concrete inputs, real modules."""

    RTOL = 1e-6

    def __init__(self, values, int_window=6):
        self.values = values
        self.failed = []
        self.checked = 0
        self.used = {}
        self.aborted = None
        self.scale = 1.0
        self.int_window = int_window
        self.mxsyms = []
        self.covers = set()

    def _get(self, name, default):
        v = self.values.get(name, default)
        self.used[name] = v
        return v

    def abort(self, kind, msg=''):
        self.aborted = Abort(kind, msg)
        raise self.aborted

    def guard(self):
        pass

    def assume(self, cond, check=True):
        if not bool(cond):
            self.abort('infeasible')

    def real(self, name, lo=None, hi=None, nice=True):
        if name not in self.values:
            import random
            self.values[name] = random.Random(name).uniform(max(-2, lo if lo is not None else -2), min(2, hi if hi is not None else 2))
        v = float(self._get(name, 0.0))
        return v

    def reals(self, name, n, **k):
        return [self.real('%s%d' % (name, i), **k) for i in range(n)]

    def distinct(self, xs, sep=None):
        for i in range(len(xs)):
            for j in range(i):
                self.assume(xs[i] != xs[j])

    def ascending(self, xs, sep=None):
        for i in range(1, len(xs)):
            self.assume(xs[i] > xs[i - 1])

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else 0))

    def bool(self, name):
        return bool(self._get(name, 0))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        k = int(self._get(name, 0))
        return options[k]

    def sxvec(self, name, n, m=1):
        import casadi as cs
        return cs.SX(self.dm(name, n, m))

    def dm(self, name, n, m=1):
        import casadi as cs
        v = [self.real('%s_%d' % (name, k)) for k in range(n * m)]
        return cs.reshape(cs.DM(v), n, m) if n * m else cs.DM(n, m)

    def mx(self, name, n, m=1):
        import casadi as cs
        s = cs.MX.sym(name, n, m)
        self.bind(s, name)
        return s

    def bind(self, s, name):
        import casadi as cs
        v = [self.real('%s_%d' % (name, k)) for k in range(s.numel())]
        x = cs.reshape(cs.DM(v), s.size1(), s.size2()) if v else cs.DM(s.size1(), s.size2())
        self.mxsyms.append((type(s)(s), x))
        return v

    def elems(self, x):
        import casadi as cs
        if isinstance(x, np.ndarray):
            return [float(v) for v in np.atleast_2d(x).T.ravel()]
        if isinstance(x, (int, float, np.number, Fraction)):
            return [float(x)]
        if isinstance(x, (list, tuple)):
            return [e for v in x for e in self.elems(v)]
        if isinstance(x, (cs.MX, cs.SX)):
            syms = [(s, v) for s, v in self.mxsyms if isinstance(s, type(x))]
            if isinstance(x, cs.SX) and x.is_constant():
                return self.elems(cs.DM(x))
            f = cs.Function('f', [s for s, _ in syms], [x])
            x = f.call([v for _, v in syms])[0]
            if isinstance(x, dict):
                x = x['o0']
            if not isinstance(x, cs.DM):
                x = cs.DM(x)
        if isinstance(x, cs.DM):
            return [float(v) for v in cs.densify(x).nonzeros()]
        for m in ('__SX__', '__MX__', '__DM__', 'cat'):
            if hasattr(x, m):
                a = getattr(x, m)
                return self.elems(a() if callable(a) and m != 'cat' else a)
        raise TypeError('elements of %s' % type(x))

    def call(self, f, args):
        import casadi as cs
        a = []
        for i, v in enumerate(args):
            n, m = f.size1_in(i), f.size2_in(i)
            a.append(cs.reshape(cs.DM([float(x) for x in v]), n, m) if n * m else cs.DM(n, m))
        r = f.call(a)
        return [[float(v) for v in cs.densify(x).nonzeros()] for x in r]

    def true(self, cond, label):
        self.checked += 1
        if not bool(cond):
            self.failed.append((label, 'condition is false'))

    def eq(self, a, b, label, tol=0):
        self.checked += 1
        a, b = float(a), float(b)
        s = max(1.0, abs(a), abs(b), self.scale)
        # a comparison tolerance above the default is part of the property
        t = max(self.RTOL * s, float(tol) * 10)
        if not (abs(a - b) <= t):       # also catches nan
            self.failed.append((label, 'got %r, expected %r' % (a, b)))

    def cover(self, name):
        self.covers.add(name)

    def val(self, x):
        return x
