"""Independent model of structure layouts and indices, and the definitions the structure checks quantify over."""
import casadi as cs
import numpy as np
from common import *

ALL = slice(None)


class ND:
    """stands for nesteddict in an index"""


class Fn:
    """callable in an index: real(x) on CasADi values or lists of them, ref on the reference tree"""

    def __init__(self, name, real, ref):
        self.name, self.real, self.ref = name, real, ref

    def __repr__(self):
        return self.name


VCAT = Fn('vertcat', lambda l: cs.vertcat(*l), lambda l: np.vstack(l))
HCAT = Fn('horzcat', lambda l: cs.horzcat(*l), lambda l: np.hstack(l))
LAST = Fn('last', lambda l: l[-1], lambda l: l[-1])
TR = Fn('transpose', lambda x: x.T, lambda a: a.T)


class E:
    """entry: shape int, pair, Sparsity or None (scalar); repeat int, list or None; sub a Def; symm; ss pair of Def/int"""

    def __init__(self, name, shape=None, repeat=None, sub=None, symm=False, ss=None):
        self.name, self.shape, self.repeat, self.sub, self.symm, self.ss = name, shape, repeat, sub, symm, ss
        self.dims = [] if repeat is None else list(repeat) if isinstance(repeat, (list, tuple)) else [repeat]
        if ss is not None and shape is None:
            n = [d if isinstance(d, int) else d.n for d in ss]
            shape = (n[0], n[1] if len(n) > 1 else 1)
        if shape is None:
            self.rc, cells = (1, 1), [(0, 0)]
        elif isinstance(shape, cs.Sparsity):
            self.rc, cells = shape.shape, sorted(zip(shape.row(), shape.get_col()), key=lambda p: (p[1], p[0]))
        else:
            self.rc = (shape, 1) if isinstance(shape, int) else (tuple(shape) + (1,))[:2]
            cells = [(i, j) for j in range(self.rc[1]) for i in range(self.rc[0])]
        self.cells = [(i, j) for i, j in cells if i <= j] if symm else cells

    def real(self, M, built=None):
        kw = {}
        if self.shape is not None:
            kw['shape'] = self.shape
        if self.repeat is not None:
            kw['repeat'] = self.repeat
        if self.sub is not None:
            if built is None:
                kw['struct'] = self.sub.build(M)
            else:
                kw['struct'] = built[self.sub] = built.get(self.sub) or self.sub.build(M)
        if self.symm:
            kw['type'] = 'symm'
        if self.ss is not None:
            t = tuple(d if isinstance(d, int) else d.build(M) for d in self.ss)
            kw['shapestruct'] = t if len(t) > 1 else t[0]
        return M.entry(self.name, **kw)

    def block(self, prefix, dims):
        """(canonical index, entry) of all primitive elements below prefix"""
        if dims:
            return [x for k in range(dims[0]) for x in self.block(prefix + (k,), dims[1:])]
        if self.sub is None:
            return [(prefix, self)]
        return [(prefix + c, e) for c, e in self.sub.order_list()]


class Def:
    """entries: list of E or tuples of E (grouped); order: explicit order; shared: equal parts are the same object"""

    def __init__(self, name, entries, order=None, shared=False):
        self.name, self.items, self.order, self.shared = name, entries, order, shared
        self.entries = {}
        for it in entries:
            for e in it if isinstance(it, tuple) else (it,):
                self.entries[e.name] = e
        self.seq = list(order) if order is not None else [tuple(e.name for e in it) if isinstance(it, tuple) else it.name for it in entries]
        self.keys = [k for it in self.seq for k in (it if isinstance(it, tuple) else (it,))]
        self.flat, self.cells, self.leaf = {}, [], {}
        for c, e in self.order_list():
            a = np.full(e.rc, -1)
            for i, j in e.cells:
                a[i, j] = len(self.cells)
                self.cells.append((c, e, i, j))
            self.leaf[c] = e
            self.flat[c] = a
        self.n = len(self.cells)

    def __repr__(self):
        return self.name

    def order_list(self):
        out = []
        for it in self.seq:
            if isinstance(it, tuple):
                es = [self.entries[k] for k in it]
                for r in range(max([e.dims[0] if e.dims else 1 for e in es] + [0])):
                    for e in es:
                        if not e.dims and r == 0:
                            out += e.block((e.name,), [])
                        elif e.dims and r < e.dims[0]:
                            out += e.block((e.name, r), e.dims[1:])
            else:
                e = self.entries[it]
                out += e.block((e.name,), e.dims)
        return out

    def below(self, canon):
        """flat indices of everything below a nested structure"""
        return np.array([k for k, (c, e, i, j) in enumerate(self.cells) if c[:len(canon)] == canon], dtype=int).reshape(-1, 1)

    # -- the real structure
    def args(self, M):
        built = {} if self.shared else None
        a = [tuple(e.real(M, built) for e in it) if isinstance(it, tuple) else it.real(M, built) for it in self.items]
        return (a,), ({} if self.order is None else dict(order=list(self.order)))

    def build(self, M, cls='struct'):
        a, k = self.args(M)
        return getattr(M, cls)(*a, **k)


class Refused(Exception):
    pass


def norm(i, n):
    i = int(i)
    if not -n <= i < n:
        raise Refused('index')
    return i % n if n else i


def pick(a, idx):
    """element index on a reference matrix"""
    if not idx:
        return a
    if isinstance(idx[0], Fn):
        return idx[0].ref(pick(a, idx[1:]))
    if idx[0] is ND:
        return a

    def res(t, n):
        if isinstance(t, slice):
            return list(range(n))[t]
        if isinstance(t, (list, tuple)):
            return [norm(i, n) for i in t]
        return [norm(t, n)]
    if len(idx) == 2:
        return a[np.ix_(res(idx[0], a.shape[0]), res(idx[1], a.shape[1]))]
    f = a.reshape(-1, order='F')[res(idx[0], a.size)]
    # element lists are rows when taken from a row (a scalar counts as one)
    return f.reshape(1, -1) if a.shape[0] == 1 and (a.shape[1] > 1 or isinstance(idx[0], list)) else f.reshape(-1, 1)


class Ref:
    """reads the reference layout: trees of lists, dicts and matrices of flat indices (-1: structural zero)"""

    def __init__(self, D):
        self.D = D

    def get(self, idx):
        return self.sget(self.D, (), list(idx))

    def sget(self, R, canon, idx):
        if not idx:
            return self.D.below(canon)
        t, rest = idx[0], idx[1:]
        ent = lambda k, r: self.eget(R.entries[k], canon + (k,), R.entries[k].dims, r)
        if isinstance(t, str):
            return ent(t, rest)
        if t is Ellipsis:
            return [ent(k, rest) for k in R.keys]
        if t is ND:
            return {k: ent(k, [ND]) for k in R.keys}
        if isinstance(t, dict):
            return {k: ent(k, rest) for k in R.keys}
        if isinstance(t, (set, frozenset)):
            return {k: ent(k, rest) for k in t}
        if isinstance(t, Fn):
            return t.ref(self.sget(R, canon, rest))
        raise AssertionError(t)

    def eget(self, e, canon, dims, idx):
        if dims:
            n = dims[0]
            if not idx:
                idx = [ALL]
            t, rest = idx[0], idx[1:]
            if isinstance(t, slice):
                return [self.eget(e, canon + (i,), dims[1:], rest) for i in range(n)[t]]
            if isinstance(t, list):
                return [self.eget(e, canon + (norm(i, n),), dims[1:], rest) for i in t]
            if t is ND:
                return [self.eget(e, canon + (i,), dims[1:], [ND]) for i in range(n)]
            if isinstance(t, Fn):
                return t.ref(self.eget(e, canon, dims, rest))
            return self.eget(e, canon + (norm(t, n),), dims[1:], rest)
        if e.sub is not None:
            return self.sget(e.sub, canon, idx)
        a = self.D.flat[canon]
        if e.symm:
            a = np.where(a < 0, a.T, a)
        return pick(a, idx)


def native(idx, M):
    """index tokens as given to the real code"""
    out = []
    for t in idx:
        out.append(M.nesteddict if t is ND else t.real if isinstance(t, Fn) else t)
    return tuple(out) if len(out) != 1 else out[0]


def same(S, got, tree, V, label):
    """value got has the nesting and shape of tree and contains the elements of V tree refers to"""
    if isinstance(tree, list):
        S.true(isinstance(got, (list, tuple)), label + ': a list')
        if isinstance(got, (list, tuple)):
            S.true(len(got) == len(tree), label + ': length of list')
            for k, (g, t) in enumerate(zip(got, tree)):
                same(S, g, t, V, '%s[%d]' % (label, k))
    elif isinstance(tree, dict):
        S.true(isinstance(got, dict) and set(got) == set(tree), label + ': keys')
        if isinstance(got, dict):
            for k in tree:
                if k in got:
                    same(S, got[k], tree[k], V, '%s.%s' % (label, k))
    else:
        S.true(tuple(got.shape) == tuple(tree.shape), '%s: shape %s, expected %s' % (label, tuple(got.shape), tree.shape))
        if tuple(got.shape) == tuple(tree.shape):
            S.eq_all(S.elems(got), [V[k] if k >= 0 else 0 for k in tree.reshape(-1, order='F')], label)


KINDS = {'DM': 'dms', 'SX': 'ints', 'MX': 'ints', 'symSX': 'ints', 'symMX': 'ints'}


def content(S, kind, name, n, m=1):
    return S.dm(name, n, m) if kind == 'DM' else S.sxvec(name, n, m) if kind in ('SX', 'symSX') else S.mx(name, n, m)


def make(S, M, D, kind):
    """structured object of the given kind with arbitrary contents, and these contents"""
    if kind.startswith('sym'):
        s = D.build(M, 'struct_' + kind)
        V = S.bind(s.cat, 'v')
        return s, V
    s = D.build(M)(content(S, kind, 'v', D.n))
    return s, S.elems(s.cat)


# ---------------------------------------------------------------- definitions

PT = Def('point', [E('a'), E('b', 2)])
DEEP = Def('deep', [E('u'), E('p', sub=PT, repeat=2), E('w', (1, 2))])
GRP = Def('grouped part', [(E('a', 2, repeat=2), E('b', repeat=3))])


def definitions(tier):
    L, U, DI = cs.Sparsity.lower(2), cs.Sparsity.upper(3), cs.Sparsity.diag(3)
    SP = cs.Sparsity(3, 2, [0, 1, 3], [1, 0, 2])
    d = [
        Def('scalars', [E('x'), E('y')]),
        Def('matrices', [E('x', 3), E('y', (2, 3)), E('z'), E('w', [1, 3]), E('t', (3,))]),
        Def('sparse', [E('x', L), E('y', SP), E('z', DI), E('e', cs.Sparsity(2, 2)), E('q', 2)]),
        Def('repeated', [E('x', 2, repeat=3), E('u', repeat=2), E('z')]),
        Def('repeated matrices', [E('x', (2, 2), repeat=[2]), E('s', SP, repeat=2)]),
        Def('two-dimensional repeats', [E('x', (1, 2), repeat=[2, 3]), E('u', 2, repeat=[1, 2]), E('z')]),
        Def('three-dimensional repeats', [E('z', 2), E('x', repeat=[2, 1, 3])]),
        Def('grouped', [(E('x', 2, repeat=3), E('u', repeat=2)), E('z')]),
        Def('three grouped', [E('y'), (E('x', 2, repeat=2), E('u', repeat=4), E('v', (2, 2), repeat=3))]),
        Def('grouped with plain', [(E('x', repeat=2), E('p', 2), E('u', repeat=[3, 2])), (E('a'), E('b', 2))]),
        Def('ordered', [E('x', 2), E('y'), E('z', (2, 2))], order=['z', 'x', 'y']),
        Def('ordered groups', [E('x', 2, repeat=2), E('z', 2), E('u', repeat=3)], order=['z', ('u', 'x')]),
        Def('nested', [E('p', sub=PT), E('x', 2), E('q', sub=PT)], shared=True),
        Def('nested repeated', [E('x'), E('p', sub=PT, repeat=3), E('y', 2)]),
        Def('nested twice', [E('d', sub=DEEP, repeat=2), E('x')]),
        Def('nested grouped', [(E('p', sub=PT, repeat=2), E('u', 2, repeat=3)), E('g', sub=GRP)]),
        Def('same names', [E('x', sub=Def('inner', [E('x', 2), E('y', repeat=2)])), E('y', 2, repeat=2), E('xy', sub=Def('inner2', [E('xy')]))]),
        Def('nested sparse', [E('p', sub=Def('sparse part', [E('m', SP), E('c'), E('l', L)]), repeat=2), E('x')]),
        Def('empty parts', [E('x', 0), E('y'), E('r', 2, repeat=0), E('z', (0, 3)), E('w', 2)]),
        Def('one', [E('x', repeat=1)]),
        Def('nested table', [E('z'), E('p', sub=PT, repeat=[2, 3])]),
        Def('nested four times', [E('r', sub=Def('third', [E('q', sub=Def('second', [E('y'), E('p', sub=Def('first', [E('x'), E('k', 2)]), repeat=2)]))])), E('z')]),
        Def('nested ordered', [E('o', sub=Def('inner', [E('x', 2), E('y', repeat=2)], order=['y', 'x']), repeat=2), E('z')]),
    ]
    if tier == 'thorough':
        d += [
            Def('nested two-dimensional', [E('z'), E('p', sub=DEEP, repeat=[2, 2]), E('x', U, repeat=[2, 2])]),
            Def('all mixed', [E('m', (2, 3)), (E('a', SP, repeat=2), E('b', sub=DEEP, repeat=2), E('c', repeat=[3, 2])), E('n', sub=GRP, repeat=2)]),
            Def('long', [E('x', 12), E('y', repeat=11), E('z', (3, 4), repeat=2)]),
            Def('one-element groups', [(E('x', 2, repeat=3),), (E('y'),)]),
        ]
    return d


MANY = Def('many repetitions', [E('z', repeat=[11, 2]), (E('x', repeat=12), E('u', 2, repeat=11))])
MANY2 = Def('many entries', [E('x%d' % k, 1 + k % 2) for k in range(12)])
NPINTS = [np.int64, np.int32, np.int8, np.uint8]


# ---------------------------------------------------------------- indices

class Pick:
    """chooses an index token by token; every choice is a fork of the exploration"""

    def __init__(self, S, D, tag='', extras=True, fns=True, lean=False, few=False, few_from=2):
        self.S, self.D, self.tag, self.k = S, D, tag, 0
        self.extras, self.fns, self.lean, self.few = extras, fns, lean, few
        self.few_from, self.depth = few_from, 0

    def name(self, n):
        self.k += 1
        return '%s_%s%d' % (self.tag, n, self.k)

    def choice(self, n, opts):
        return self.S.choice(self.name(n), opts)

    def struct(self, R, top=True):
        if not top:
            self.depth += 1
            self.few = self.few or self.depth >= self.few_from
        o = ['name', 'all', 'dict', 'nested', 'set'] if not self.few else ['name', 'all', 'dict']
        if not top:
            self.lean = True
            o.append('end')
        if self.fns and self.common(R) is not None:
            o.append('fn')
        t = self.choice('struct', o)
        if t == 'end':
            return []
        if t == 'name':
            k = self.choice('name', R.keys)
            return [k] + self.entry(R.entries[k], R.entries[k].dims)
        if t == 'fn':
            return self.common(R)
        if t == 'set':
            return [self.choice('set', [set(R.keys[:1]), set(R.keys[-2:]), set()])]
        if t in ('all', 'dict') and top and self.extras and not self.few and all(e.dims[0] > 0 if e.dims else e.sub is None and e.rc[0] * e.rc[1] > 0 for e in R.entries.values()):
            # the same index on every entry
            return [Ellipsis if t == 'all' else {}] + self.choice('each', [[], [0], [-1], [ALL]])
        return [{'all': Ellipsis, 'dict': {}, 'nested': ND}[t]]

    def common(self, R):
        """vertical concatenation of all entries if they are columns"""
        if all(not e.dims and e.sub is None and e.rc[1] == 1 for e in R.entries.values()):
            return [VCAT, Ellipsis]
        return None

    def entry(self, e, dims):
        if dims:
            n = dims[0]
            if len(e.dims) > 1 and self.lean and not self.few:
                # later dimensions and nested structures: fewer forms
                t = self.choice('dim', ['end', 'int', 'rev'] + (['fn'] if n and self.fns else []))
                if t == 'fn':
                    return self.choice('fn', [[LAST], [LAST, ALL]] + ([[VCAT]] if len(dims) == 1 and e.sub is None else []))
                return [] if t == 'end' else [self.S.int(self.name('i'), -n, n - 1) if t == 'int' else slice(None, None, -1)] + self.entry(e, dims[1:])
            o = ['end', 'slice', 'nested']
            if self.few:
                o = ['end', 'int'] if n else ['end']
            elif n:
                o += ['int', 'list']
                if self.fns:
                    o += ['fn']
            t = self.choice('dim', o)
            if len(dims) > 1:
                self.lean = True
            if t == 'end':
                return []
            if t == 'int':
                return [self.S.int(self.name('i'), -n, n - 1)] + self.entry(e, dims[1:])
            if t == 'slice':
                s = self.choice('slice', [ALL, slice(1, None), slice(None, -1), slice(None, None, -1), slice(0, None, 2), slice(-2, 99)])
                self.lean = True
                return [s] + self.entry(e, dims[1:])
            if t == 'list':
                l = self.choice('list', [[0], [n - 1, 0], [-1], []])
                self.lean = True
                return [l] + self.entry(e, dims[1:])
            if t == 'nested':
                return [ND]
            f = self.choice('fn', [LAST] + ([VCAT, HCAT] if len(dims) == 1 and (e.sub is None) else []))
            return [f] + ([ALL] if f is not LAST or self.choice('fn2', [0, 1]) else [])
        if e.sub is not None:
            return self.struct(e.sub, False)
        return self.leaf(e)

    def leaf(self, e):
        r, c = e.rc
        if not self.extras or not (r and c):
            return []
        if self.lean:
            return self.choice('elem', [[], [r * c - 1], [0, ALL], [TR] if self.fns else [ND]])
        t = self.choice('elem', ['none', 'one', 'slice', 'two', 'mixed', 'nested'] + (['fn'] if self.fns else []))
        if t == 'none':
            return []
        if t == 'one':
            return [int(self.S.int(self.name('e'), -r * c, r * c - 1))]
        if t == 'slice':
            return [self.choice('es', [ALL, slice(0, 1), slice(None, None, -1)] + [[r * c - 1, 0]])]
        if t == 'two':
            return [int(self.S.int(self.name('r'), -r, r - 1)), int(self.S.int(self.name('c'), -c, c - 1))]
        if t == 'mixed':
            return self.choice('mixed', [[ALL, 0], [-1, ALL], [ALL, ALL], [[r - 1, 0], ALL], [slice(0, 1), [c - 1]]])
        if t == 'fn':
            return self.choice('tf', [[TR], [TR, 0, ALL]])
        return [ND]


def some_kinds(k, tier):
    """quick: numeric, symbolic MX and one of the others in turn"""
    return list(KINDS) if tier == 'thorough' else ['DM', 'symMX', ('SX', 'MX', 'symSX')[k % 3]]


# ---------------------------------------------------------------- selection of rows or columns by a structure

class Token:
    """index token with its description"""

    def __init__(self, text, value, pos):
        self.text, self.value, self.pos = text, value, pos

    def __repr__(self):
        return self.text


def flat(t):
    return [v for x in t for v in flat(x)] if isinstance(t, list) else [int(v) for v in t.reshape(-1, order='F')]


def named(S, D, tag, lists=True):
    """rows or columns of the entries of D"""
    R = Ref(D)
    dense = [k for k in D.keys if all(len(e.cells) == e.rc[0] * e.rc[1] for c, e in D.leaf.items() if c[0] == k)]
    single = [k for k in dense if not D.entries[k].dims]
    form = S.choice(tag + 'by', ['name'] + (['names'] if lists and single else []))
    if form == 'name':
        k = S.choice(tag + 'name', dense)
        return Token(repr(k), k, flat(R.get([k])))
    l = S.choice(tag + 'names', [single[:1], single[-1:] + single[:1], single])
    return Token(repr(l), list(l), [v for k in l for v in flat(R.get([k]))])


def axes(S, M, D1, n, D2, m, tag='', more=True):
    """rows and columns; one of them in every form, the other in few"""
    f = S.choice(tag + 'general', [0, 1])
    return axis(S, M, D1, n, tag + 'row', more, few=f == 1), axis(S, M, D2, m, tag + 'col', more, few=f == 0)


def axis(S, M, D, n, tag, more=True, few=False):
    """rows or columns of a matrix: by the entries of D, or (no D) by number"""
    o = (['named', 'delayed'] if D is not None else []) + (['all', 'int', 'slice', 'list'] if more else ['int'])
    if few:
        o = ['first' if D is not None else 'int', 'slice']
    form = S.choice(tag + 'axis', o)
    if form == 'named':
        return named(S, D, tag)
    if form == 'first':
        return Token(repr(D.keys[-1]), D.keys[-1], flat(Ref(D).get([D.keys[-1]])))
    if form == 'delayed':
        P = Pick(S, D, tag=tag + 'd', fns=False, extras=True, lean=True, few=True)
        k = P.choice('name', [k for k in D.keys if all(len(e.cells) == e.rc[0] * e.rc[1] and e.cells for c, e in D.leaf.items() if c[0] == k)])
        e = D.entries[k]
        idx = [k] + P.entry(e, e.dims)
        S.assume(not any(isinstance(t, dict) or t is Ellipsis or t is ND for t in idx))
        t = Ref(D).get(idx)
        f = flat(t)
        col = isinstance(t, np.ndarray) and (t.shape[1] == 1 or t.shape[0] == 1)
        which = S.choice(tag + 'delayed', ['flat', 'matrix'] if col and len(f) else ['flat'])
        d = (M.indexf if which == 'flat' else M.index)[native(idx, M)]
        return Token('%s%s' % ('indexf' if which == 'flat' else 'index', idx), d, f)
    if form == 'all':
        return Token(':', ALL, list(range(n)))
    if form == 'int':
        i = int(S.int(tag + 'i', -n, n - 1))
        return Token(str(i), i, [i % n])
    if form == 'slice':
        s = S.choice(tag + 'slice', [slice(0, 1), slice(1, n), slice(None, None, -1)])
        return Token(str(s), s, list(range(n))[s])
    l = S.choice(tag + 'list', [[n - 1, 0], [0]])
    return Token(str(l), l, [i % n for i in l])
