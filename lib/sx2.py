"""Interpretation of CasADi instruction lists (the IR produced by the real code) over symbolic values.

Arithmetic is exact over the rationals; every other operation is an uninterpreted function:
two applications are the same value iff their arguments agree (up to EPS in the box).
"""
import math
from fractions import Fraction

import casadi as cs
import numpy as np
import z3

import sym
from sym import SymReal, Poly, Vars, unsupported

EPS = Fraction(1, 10 ** 9)
UFBOX = 4

_arith = {
    cs.OP_ADD: lambda a, b: a + b,
    cs.OP_SUB: lambda a, b: a - b,
    cs.OP_MUL: lambda a, b: a * b,
    cs.OP_DIV: lambda a, b: a / b,
    cs.OP_NEG: lambda a: -a,
    cs.OP_SQ: lambda a: a * a,
    cs.OP_TWICE: lambda a: a + a,
    cs.OP_INV: lambda a: 1 / a,
    cs.OP_ASSIGN: lambda a: a,
}
_opname = {getattr(cs, n): n for n in dir(cs) if n.startswith('OP_')}


def _close(ctx, a, b):
    """a and b agree within EPS for all values in the box (solver verdict for candidates)."""
    d = a - b
    if d.nan:
        return False
    if d.is_const():
        return abs(d.c) <= EPS
    n, den = d.num_den()
    if not den.is_const():
        return False
    n = n.scale(1 / den.t[()])
    if any(abs(c) > EPS for c in n.t.values()):
        return False        # some coefficient differs: different functions of the inputs
    k = len(ctx.findings), len(ctx.inconclusive)
    ctx.stats.obligations += 1
    ok = ctx._eq_tol(a, b, 'uf', EPS * 1000)
    del ctx.findings[k[0]:]
    del ctx.inconclusive[k[1]:]
    return bool(ok)


def uf(ctx, op, args):
    for a in args:
        if a.nan:
            return SymReal.NaN()
    if all(a.is_const() for a in args):
        f = {cs.OP_SIN: math.sin, cs.OP_COS: math.cos, cs.OP_EXP: math.exp, cs.OP_TANH: math.tanh, cs.OP_ATAN: math.atan, cs.OP_ATAN2: math.atan2, cs.OP_SQRT: math.sqrt}.get(op)
        if f is not None:
            return SymReal.const(f(*[float(a.c) for a in args]))
    tab = ctx.uf.setdefault(op, [])
    for old, v in tab:
        if all(_close(ctx, x, y) for x, y in zip(old, args)):
            return v
    name = 'uf%d_%s' % (ctx.ufcount, _opname.get(op, op))
    ctx.ufcount += 1
    i = Vars.get(name)
    Vars.boxes[i] = UFBOX
    r = SymReal.poly(Poly.var(i))
    tab.append((list(args), r))
    return r


def _run(ctx, f, inputs):
    """f: SX Function, inputs: lists of values of the nonzeros. Returns lists of nonzeros."""
    n = f.n_instructions()
    w = {}
    out = [[SymReal.const(0)] * f.nnz_out(i) for i in range(f.n_out())]
    for k in range(n):
        op = f.instruction_id(k)
        o = f.instruction_output(k)
        i = f.instruction_input(k)
        if op == cs.OP_CONST:
            c = f.instruction_constant(k)
            w[o[0]] = SymReal.wrap(c)
        elif op == cs.OP_INPUT:
            w[o[0]] = inputs[i[0]][i[1]]
        elif op == cs.OP_OUTPUT:
            out[o[0]][o[1]] = w[i[0]]
        else:
            a = [w[j] for j in i]
            if op in _arith:
                w[o[0]] = _arith[op](*a)
            else:
                w[o[0]] = uf(ctx, op, a)
    return out


def _dense(sp, nz, zero=0):
    r = [SymReal.const(0)] * (sp.size1() * sp.size2())
    for v, i, j in zip(nz, sp.row(), sp.get_col()):
        r[j * sp.size1() + i] = v
    return r


def _as_sx(f):
    return f if f.is_a('SXFunction') else f.expand()


def interpret(ctx, f, args):
    """args: column-major dense element lists; results likewise."""
    g = _as_sx(f)
    ins = []
    for k, a in enumerate(args):
        sp = g.sparsity_in(k)
        a = [SymReal.wrap(x) for x in a]
        if len(a) != sp.size1() * sp.size2():
            raise ValueError('argument %d has %d elements, expected %d' % (k, len(a), sp.size1() * sp.size2()))
        ins.append([a[j * sp.size1() + i] for i, j in zip(sp.row(), sp.get_col())])
    outs = _run(ctx, g, ins)
    return [_dense(g.sparsity_out(k), outs[k]) for k in range(g.n_out())]


def interpret_sx(ctx, x):
    """Elements of an SX expression in the symbols of the context."""
    if x.is_constant():
        return _dense(x.sparsity(), [SymReal.wrap(float(v)) for v in cs.DM(x).nonzeros()])
    tab = {e.element_hash(): v for e, v in ctx.sxsyms}
    need = cs.symvar(x)
    vals = []
    for s in need:
        v = tab.get(s.element_hash())
        if v is None:
            unsupported('free symbol %s' % s)
        vals.append(v)
    if x.is_dense() and x.numel() == 1 and x.is_symbolic():
        return [vals[0]]
    f = cs.Function('f', need, [x])
    return _dense(x.sparsity(), _run(ctx, f, [[v] for v in vals])[0])
