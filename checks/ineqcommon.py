"""Inequalities: comparison of bounds that may be infinite."""
from structcommon import *

PINF, NINF = 'inf', '-inf'


def kept(S, got, want, shape, label):
    """matrix got has this shape and contains want (values of the context, PINF or NINF), column-major"""
    S.true(tuple(got.shape) == tuple(shape), '%s: shape %s, expected %s' % (label, tuple(got.shape), tuple(shape)))
    if tuple(got.shape) != tuple(shape):
        return
    m = got.cat if hasattr(got, 'cat') else got
    m = cs.densify(m)
    el, ex = [], []
    for k, w in enumerate(want):
        e = m[k]
        c = e.is_constant() and float(e)
        inf = c in (float('inf'), float('-inf'))
        if w in (PINF, NINF) if isinstance(w, str) else False:
            S.true(inf and (c > 0) == (w == PINF), '%s[%d] is %s, expected %s' % (label, k, e, w))
        else:
            S.true(not inf and not (isinstance(c, float) and c != c), '%s[%d] is %s' % (label, k, e))
            if not inf:
                el.append(S.elems(e)[0])
                ex.append(w)
    S.eq_all(el, ex, label)


def value(S, name, n, m=1, forms=('DM',), M=None):
    """numeric matrix in one of the accepted forms, and its elements"""
    v = S.dm(name, n, m)
    V = S.elems(v)
    f = S.choice(name + ' given as', list(forms)) if len(forms) > 1 else forms[0]
    if f == 'DM':
        return v, V
    num = lambda i, j: v[i, j] if S.symbolic else float(v[i, j])
    if f == 'list':
        return ([num(i, 0) for i in range(n)] if m == 1 else [[num(i, j) for j in range(m)] for i in range(n)]), V
    if f == 'number':
        return num(0, 0), V
    if f == 'struct':
        h = n // 2
        return M.struct([M.entry('p', shape=h), M.entry('q', shape=n - h)])(v), V
    a = np.empty((n, m), dtype=object if S.symbolic else float)
    for i in range(n):
        for j in range(m):
            a[i, j] = num(i, j)
    return (a[:, 0] if f == 'array' and m == 1 else a), V


def accepted(n, m):
    return ['DM', 'matrix array'] + (['array', 'list'] if n > 1 or m > 1 else ['number']) + (['struct'] if m == 1 and n > 1 else [])
