"""Copies of the package under test from /repo's working tree."""
import builtins
import importlib
import os
import sys
import types

import casadi as cs
import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')      # another tree only during development of the checks
if REPO != '/repo':
    sys.path.insert(0, REPO)
PKG = 'casadi_extras'


def _modules():
    return {k: v for k, v in sys.modules.items() if k == PKG or k.startswith(PKG + '.')}


def fresh_copy():
    """Import a second, independent copy of the package; sys.modules is restored."""
    saved = _modules()
    for k in saved:
        del sys.modules[k]
    try:
        importlib.import_module(PKG)
        for sub in ('dae_model', 'inequality', 'structure3', 'system_trajectory', 'collocation', 'collocation.polynomial',
                    'collocation.butcher', 'collocation.piecewise_poly', 'collocation.collocation'):
            try:
                importlib.import_module(PKG + '.' + sub)
            except ModuleNotFoundError:
                pass
        mods = _modules()
    finally:
        for k in _modules():
            del sys.modules[k]
        sys.modules.update(saved)
    for m in mods.values():
        assert m.__file__.startswith(REPO + '/'), m.__file__
    return mods


class Modules:
    """Access to the (real or shimmed) package."""

    def __init__(self, mods, kind):
        self.mods = mods
        self.kind = kind
        self.ce = mods[PKG]

    def __getattr__(self, n):
        # find a public name anywhere in the package
        for k in ('', '.collocation', '.structure3', '.dae_model', '.inequality', '.system_trajectory'):
            m = self.mods.get(PKG + k)
            if m is not None and n in m.__dict__:
                return m.__dict__[n]
        for m in self.mods.values():
            if n in m.__dict__:
                return m.__dict__[n]
        raise AttributeError(n)

    def mod(self, name):
        return self.mods[PKG + '.' + name]


_real = None


def real():
    global _real
    if _real is None:
        _real = Modules(fresh_copy(), 'real')
        # the pickling code imports by name
        sys.modules.update(_real.mods)
    return _real


def _patch(mods, by_id, extra):
    for m in mods.values():
        g = m.__dict__
        for k, v in list(g.items()):
            if k.startswith('__'):
                continue
            r = by_id.get(id(v))
            if r is not None:
                g[k] = r
        for k, v in extra.items():
            if k not in g:
                g[k] = v
    return mods


def numeric():
    """numpy and casadi matrices over symbolic reals"""
    import npshim
    import csshim
    import sym
    by_id = dict(npshim.BY_ID)
    by_id[id(np)] = npshim.shim
    by_id[id(np.linalg)] = npshim.linalg
    by_id[id(cs)] = csshim.num_shim
    for k, v in csshim.NUM.items():
        if hasattr(cs, k):
            by_id[id(getattr(cs, k))] = v
    return Modules(_patch(fresh_copy(), by_id, {'int': sym.IntProxy, 'float': sym.FloatProxy}), 'numeric')


def ints():
    """symbolic integers only"""
    import sym
    return Modules(_patch(fresh_copy(), {}, {'int': sym.IntProxy}), 'ints')


def dms():
    """numeric casadi matrices with symbolic contents, symbolic integers"""
    import csshim
    import sym
    by_id = {id(cs): csshim.dm_shim, id(cs.DM): csshim.DMProxy, id(cs.SX): csshim.SXProxy}
    return Modules(_patch(fresh_copy(), by_id, {'int': sym.IntProxy}), 'dms')


RF_MODE = 'unknown'


def _rootfinder(name, solver, f, opts=None):
    """Stand-in: the result is an arbitrary vector (mode unknown), the initial guess, or the residual at that vector."""
    if isinstance(f, dict):
        xs = f['x']
        p = f.get('p', type(xs)(0, 1))
        f = cs.Function('f', [xs, p], [f['g']], ['x', 'p'], ['g'])
    ins = [cs.MX.sym('i%d' % i, f.sparsity_in(i)) for i in range(f.n_in())]
    n = f.nnz_in(0)
    seed = cs.atan2(cs.MX(1.5), cs.sum1(cs.vec(ins[1]))) if f.n_in() > 1 else cs.MX(1)
    # remainder() is uninterpreted: one unknown per element
    W = cs.vertcat(*[cs.remainder(seed, .5 + k) for k in range(n)])
    W = cs.reshape(W, f.size_in(0))
    if RF_MODE == 'guess':
        out = ins[0]
    elif RF_MODE == 'residual':
        out = cs.reshape(f(*([W] + ins[1:])) if f.n_out() == 1 else f(*([W] + ins[1:]))[0], f.size_in(0))
    else:
        out = W
    return cs.Function(name, ins, [out], f.name_in(), f.name_out()[:1])


def rootfinders():
    """unpatched code except that the root finder returns arbitrary values"""
    import csshim
    by_id = {id(cs): csshim.CasadiShim(dict(rootfinder=_rootfinder)), id(cs.rootfinder): _rootfinder}
    return Modules(_patch(fresh_copy(), by_id, {}), 'rf')


class MXArray(np.ndarray):
    """array of MX scalars that casadi accepts as a row"""

    def __MX__(self):
        # casadi holds a pointer to the converted object
        k = cs.horzcat(*self.ravel().tolist())
        self.__dict__.setdefault('kept', []).append(k)
        return k


def _mxarray(l):
    a = np.empty(len(l), dtype=object)
    for i, v in enumerate(l):
        a[i] = v
    return a.view(MXArray)


def _has_mx(x):
    return isinstance(x, cs.MX) or isinstance(x, (list, tuple)) and any(_has_mx(v) for v in x) or isinstance(x, np.ndarray) and x.dtype == object


def _flat_mx(x):
    if isinstance(x, cs.MX):
        return [x[i] for i in range(x.numel())]
    return [w for v in x for w in _flat_mx(v)] if isinstance(x, (list, tuple, np.ndarray)) else [cs.MX(x)]


class _NumpyWithMX:
    """numpy, with the functions applied to time grids also for grids of MX symbols"""

    def __getattr__(self, n):
        return getattr(np, n)

    def diff(self, a, *k, **kw):
        return _mxarray([b - c for b, c in zip(_flat_mx(a)[1:], _flat_mx(a))]) if _has_mx(a) and not k and not kw else np.diff(a, *k, **kw)

    def hstack(self, l):
        return _mxarray(_flat_mx(list(l))) if _has_mx(l if isinstance(l, np.ndarray) else list(l)) else np.hstack(l)

    concatenate = hstack

    def append(self, a, b):
        return self.hstack([a, b]) if _has_mx(a) or _has_mx(b) else np.append(a, b)

    def array(self, a, *k, **kw):
        return _mxarray(_flat_mx(a)) if _has_mx(a) else np.array(a, *k, **kw)

    def asarray(self, a, *k, **kw):
        return _mxarray(_flat_mx(a)) if _has_mx(a) else np.asarray(a, *k, **kw)


def grids():
    """unpatched code except that numpy functions applied to time grids accept MX symbols"""
    by_id = {id(np): _NumpyWithMX()}
    for n in ('diff', 'hstack', 'append', 'array', 'asarray', 'concatenate'):
        by_id[id(getattr(np, n))] = getattr(by_id[id(np)], n)
    return Modules(_patch(fresh_copy(), by_id, {}), 'grids')
