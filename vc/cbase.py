"""Symbolic inputs and specification vocabulary shared by the contracts."""
import z3

import num as N
from num import (Num, num, ite, Unsupported, zint, zbool, And, Or, Not, fresh, opaque, opaque_int, pred, cmp, kmax, Sum, Lam, Sym,
                 Atom, Term, ONE, GQ, I, Fr, valid, unsat, check, bind, bind_perm, fresh_perm)
from val import *
import exe
import npm
from npm import chain_av, as_chain, av_T, av_conj, mm
from spec import Contract, Lemma, CONTRACTS, val_eq, Pred, ANY, Ob, prove_bool, prove_num

SQ2I = sinv(ssqrt(num(2)))          # 1/sqrt 2


def intvar(m, name, lo=None, hi=None):
    v = z3.Int(name)
    if lo is not None:
        m.pc.append(v >= zint(lo))
    if hi is not None:
        m.pc.append(v <= zint(hi))
    return v


def arr_av(name, shape, kind="c", **attrs):
    s = Sym(name, len(shape), real=kind != "c", attrs=attrs)
    return AV(shape, kind, lambda *i: Num([Term(ONE, (), (), [Atom(s, i)])], kind))


def arr(m, name, shape, kind="c", **attrs):
    return m.arr(arr_av(name, shape, kind, **attrs))


def scalar(name, kind="f"):
    s = Sym(name, 0, real=kind != "c")
    return Num([Term(ONE, (), (), [Atom(s)])], kind)


def arrlist(m, name, length, shape, kind="c"):
    """list of `length` arrays of one shape"""
    s = Sym(name, 1 + len(shape), real=kind != "c")
    return m.lst(LV(None, length, lambda k: AV(shape, kind, lambda *i: Num([Term(ONE, (), (), [Atom(s, (zint(k),) + tuple(i))])], kind))))


def intlist(m, name, length):
    f = z3.Function("L" + name, z3.IntSort(), z3.IntSort())
    return m.lst(LV(None, length, lambda k: f(zint(k))))


def mat(rows, kind="c"):
    rows = [[num(x) for x in r] for r in rows]
    return AV((len(rows), len(rows[0])), kind, lambda i, j: exe.sel(i, [exe.sel(j, r) for r in rows]))


SX, SY, SZ = mat([[0, 1], [1, 0]], "i"), mat([[0, -1j], [1j, 0]]), mat([[1, 0], [0, -1]], "i")
ID2, LOW = mat([[1, 0], [0, 1]], "f"), mat([[0, 1], [0, 0]])
RAISE = mat([[0, 0], [1, 0]])


def opb(name, rows, cols, kind="c"):
    return arr_av(name, (rows, cols), kind)


def jw_low(n, i):
    """a_i: sigma_z before i, lowering at i, identity after"""
    return chain_av(((simp(n), lambda p: merge_val(simp(zint(p) < zint(i)), SZ, merge_val(simp(zint(p) == zint(i)), LOW, ID2))),), num(1).with_kind("c"))


def jw_raise(n, i):
    return chain_av(((simp(n), lambda p: merge_val(simp(zint(p) < zint(i)), SZ, merge_val(simp(zint(p) == zint(i)), RAISE, ID2))),), num(1).with_kind("c"))


def jw_alphas(n):
    n = simp(n)
    return LV(None, simp(2 * zint(n)), lambda k: jw_alpha(n, k), fact=("car", n))


def jw_alpha(n, k):
    k = simp(k)
    c = simp(zint(k) < zint(n))
    if c is True:
        return jw_raise(n, k)
    if c is False:
        return jw_low(n, simp(zint(k) - zint(n)))
    return merge_val(c, jw_raise(n, k), jw_low(n, simp(zint(k) - zint(n))))


def ent(shape, fn, kind="c"):
    return AV(shape, kind, lambda *i: num(fn(*i)))


def delta(i, j):
    c = simp(zint(i) == zint(j))
    return num(c) if not isinstance(c, bool) else num(int(c))


def block2(n, a, b, c, d, kind="c"):
    """[[a,b],[c,d]] with n x n blocks, given as entry functions"""
    n2 = simp(2 * zint(n))

    def el(i, j):
        ti, tj = simp(i < zint(n)), simp(j < zint(n))
        i2, j2 = simp(zint(i) - zint(n)), simp(zint(j) - zint(n))
        return ite(ti, ite(tj, num(a(i, j)), num(b(i, j2))), ite(tj, num(c(i2, j)), num(d(i2, j2)))).with_kind(kind)
    return AV((n2, n2), kind, el)


def case(v):
    return [(True, ("return", v))]
