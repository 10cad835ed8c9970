"""Contracts of numpy / scipy / itertools functions used by the verifier (assumed, not proved: see trusted_base)."""
import ast
import z3

import num as N
from num import (Num, num, ite, Unsupported, zint, zbool, And, Or, Not, fresh, opaque, opaque_int, valid, unsat, cmp, kmax, bind,
                 Sum, Lam, Sym, Atom, Term, ONE, GQ, int_num, pred, I, Fr)
from val import *
import exe
from exe import Raised, sel, scale, as_int_opt, as_int, Enum, Zip, ItProd, tonum, KO, castnum

FUNCS, CONSTS, BUILTINS = {}, {}, {}
TRUSTED = {}

CONSTS.update({"numpy.pi": opaque("pi", (), real=True, nonneg=True), "math.pi": opaque("pi", (), real=True, nonneg=True),
               "numpy.inf": float("inf"), "math.inf": float("inf"), "numpy.newaxis": None,
               "numpy.e": opaque("e", (), real=True, nonneg=True)})
for nm in ("ndarray", "matrix", "integer", "floating", "complexfloating", "number", "generic", "int64", "int32", "int8", "int16", "uint8",
           "float64", "float32", "complex128", "complex64", "bool_"):
    CONSTS["numpy." + nm] = TypeRef("np." + nm)


def canon(n):
    for a, b in (("np.", "numpy."), ("numpy.linalg.linalg.", "numpy.linalg."), ("scipy.linalg.matfuncs", "scipy.linalg")):
        if n.startswith(a):
            n = b + n[len(a):]
    return n


def fn(*names, trusted=None):
    def deco(f):
        for n in names:
            FUNCS[n] = f
            if trusted:
                TRUSTED[n] = trusted
        return f
    return deco


def getk(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


def only(kw, *names):
    for k in kw:
        if k not in names:
            raise Unsupported(f"keyword {k}")


def dtype_kind(d):
    if isinstance(d, Dtype):
        return d.kind
    if isinstance(d, TypeRef):
        n = d.name.replace("np.", "")
        if n in ("int", "int64"):
            return "i"
        if n in ("float", "float64"):
            return "f"
        if n in ("complex", "complex128"):
            return "c"
        if n in ("bool", "bool_"):
            return "b"
        raise Unsupported(f"dtype {n}")
    if isinstance(d, str):
        r = {"int": "i", "float": "f", "complex": "c", "float64": "f", "complex128": "c", "int64": "i"}.get(d)
        if r:
            return r
    raise Unsupported("dtype")


def shape_of(m, s):
    if is_int(s):
        return (simp(s),)
    if isinstance(s, Num):
        return (as_int(s),)
    lv = m.to_lv(s) if not isinstance(s, tuple) else LV(list(s))
    if lv.items is None:
        raise Unsupported("symbolic shape")
    return tuple(as_int(x) for x in lv.items)


def check_shape(m, sh):
    for d in sh:
        if isinstance(d, int) and d < 0 or (not isinstance(d, int) and not valid(m.pc, zint(d) >= 0)):
            if m.branch(zint(d) < 0):
                raise Raised("ValueError")
    return sh


# ----------------------------------------------------------------------------------------------------- construction
def const_arr(val, kind):
    def f(m, a, kw):
        only(kw, "dtype", "shape")
        sh = check_shape(m, shape_of(m, getk(a, kw, 0, "shape")))
        dt = getk(a, kw, 1, "dtype")
        k = kind if dt is None else dtype_kind(dt)
        return m.arr(AV(sh, k, lambda *i: val if k != "b" else bool(val)))
    return f


fn("numpy.zeros", "numpy.empty")(const_arr(0, "f"))
fn("numpy.ones")(const_arr(1, "f"))


@fn("numpy.full")
def _full(m, a, kw):
    only(kw, "dtype", "shape", "fill_value")
    sh = check_shape(m, shape_of(m, getk(a, kw, 0, "shape")))
    v = getk(a, kw, 1, "fill_value")
    dt = getk(a, kw, 2, "dtype")
    k = kind_of(v) if dt is None else dtype_kind(dt)
    return m.arr(AV(sh, k, lambda *i: v))


@fn("numpy.zeros_like", "numpy.empty_like")
def _zeros_like(m, a, kw):
    only(kw, "dtype")
    if is_scalar(a[0]):
        return num(0).with_kind(kind_of(a[0]))
    x = m.av(a[0])
    k = x.kind if "dtype" not in kw or kw["dtype"] is None else dtype_kind(kw["dtype"])
    return m.arr(AV(x.shape, k, lambda *i: 0 if k != "b" else False))


@fn("numpy.ones_like")
def _ones_like(m, a, kw):
    only(kw, "dtype")
    x = m.av(a[0])
    k = x.kind if "dtype" not in kw else dtype_kind(kw["dtype"])
    return m.arr(AV(x.shape, k, lambda *i: 1))


@fn("numpy.eye", "numpy.identity")
def _eye(m, a, kw):
    only(kw, "dtype", "N", "M", "k")
    n = as_int(getk(a, kw, 0, "N"))
    mm = getk(a, kw, 1, "M") if len(a) > 1 else kw.get("M")
    mm = n if mm is None else as_int(mm)
    off = simp(as_int(kw.get("k", a[2] if len(a) > 2 else 0)))
    k = "f" if kw.get("dtype") is None else dtype_kind(kw["dtype"])
    check_shape(m, (n, mm))
    return m.arr(eye_av(n, mm, k, off))


def eye_av(n, mm=None, k="f", off=0):
    mm = n if mm is None else mm
    prov = None
    if same(n, mm) and same(off, 0):
        lg = log2_int(n)
        if lg is not None and not same(n, 2):
            id2 = eye_av(2, 2, k)
            prov = ("chain", ((lg, lambda p: id2),), num(1))
    return AV((n, mm), k, lambda i, j: num(simp(j - i == off) if not isinstance(simp(j - i == off), bool) else int(simp(j - i == off))), prov)


def log2_int(n):
    """e with n = 2**e syntactically"""
    n = simp(n)
    if isinstance(n, int):
        return n.bit_length() - 1 if n > 0 and n & (n - 1) == 0 else None
    c = 0
    if z3.is_mul(n):
        ch = n.children()
        if len(ch) == 2 and z3.is_int_value(ch[0]):
            q = ch[0].as_long()
            if q > 0 and q & (q - 1) == 0:
                c, n = q.bit_length() - 1, ch[1]
    tot = z3.IntVal(c)
    facs = n.children() if z3.is_mul(n) else [n]
    for f in facs:
        if z3.is_app(f) and f.decl().eq(POW2):
            tot = tot + f.children()[0]
        else:
            return None
    return simp(tot)


@fn("numpy.array", "numpy.asarray", "numpy.matrix", "numpy.ascontiguousarray")
def _array(m, a, kw):
    only(kw, "dtype", "copy")
    return mk_array(m, a[0], getk(a, kw, 1, "dtype"), True)


def mk_array(m, v, dt, copy):
    if is_scalar(v):
        k = kind_of(v) if dt is None else dtype_kind(dt)
        return m.arr(AV((), k, lambda: v))
    x = m.av(v)
    k = x.kind if dt is None else dtype_kind(dt)
    if KO[x.kind] > KO[k] and x.kind == "c":
        y = AV(x.shape, k, lambda *i: num(x.at(*i)).real())
        return m.arr(y)
    if k == "i" and x.kind == "f":
        return m.arr(AV(x.shape, k, lambda *i: castnum(num(x.at(*i)), "i")))
    if not copy and isinstance(v, Arr) and k == x.kind:
        return v
    return m.arr(x.with_kind(k))


@fn("numpy.asarray")
def _asarray(m, a, kw):
    only(kw, "dtype")
    return mk_array(m, a[0], getk(a, kw, 1, "dtype"), False)


@fn("numpy.copy")
def _copy(m, a, kw):
    return m.arr(m.av(a[0]))


@fn("numpy.result_type", "numpy.promote_types")
def _result_type(m, a, kw):
    ks = []
    for x in a:
        if isinstance(x, (TypeRef, Dtype)):
            ks.append(dtype_kind(x))
        elif is_scalar(x):
            ks.append(kind_of(x))
        else:
            ks.append(m.av(x).kind)
    return Dtype(kmax(*ks))


@fn("numpy.issubdtype")
def _issubdtype(m, a, kw):
    k = dtype_kind(a[0])
    n = a[1].name
    return {"np.integer": k == "i", "np.floating": k == "f", "np.complexfloating": k == "c", "np.number": k in "ifc"}[n]


@fn("numpy.iscomplexobj")
def _iscomplexobj(m, a, kw):
    return (kind_of(a[0]) if is_scalar(a[0]) else m.av(a[0]).kind) == "c"


@fn("numpy.isrealobj")
def _isrealobj(m, a, kw):
    return not _iscomplexobj(m, a, kw)


@fn("numpy.arange")
def _arange(m, a, kw):
    only(kw, "dtype")
    xs = [as_int(x) for x in a]
    r = exe.__dict__["Rng_"](m, xs) if False else (Rng(0, xs[0]) if len(xs) == 1 else Rng(xs[0], xs[1], simp(xs[2]) if len(xs) > 2 else 1))
    k = "i" if "dtype" not in kw else dtype_kind(kw["dtype"])
    return m.arr(AV((r.length(),), k, lambda i: int_num(zint(r.at(i)))))


def diag_tags(m, x):
    """facts about diag(x)"""
    if x.kind == "c":
        return ()
    t = {"herm"}
    i = fresh("a")
    try:
        g = list(m.pc) + [i >= 0, i < zint(x.shape[0])]
        if valid(g, zbool(cmp(">=", num(x.at(i)), 0))):
            t.add("psd")
        if N.prove_equal(Sum(0, x.shape[0], lambda s: num(x.at(s))), num(1), m.pc)[0] == "proved":
            t.add("trace1")
    except Unsupported:
        pass
    return t


@fn("numpy.diag")
def _diag(m, a, kw):
    only(kw, "k")
    off = simp(as_int(getk(a, kw, 1, "k", 0)))
    x = m.av(a[0])
    if x.ndim == 1:
        n = simp(zint(x.shape[0]) + sabs(off))
        if isinstance(off, int):
            def el(i, j):
                c = simp(j - i == off)
                if c is False:
                    return num(0)
                b = x.at(i if off >= 0 else j)
                return ite(c, b, num(0)) if c is not True else b
            return m.arr(AV((n, n), x.kind, el, tags=diag_tags(m, x) if off == 0 else ()))
        raise Unsupported("diag offset")
    if x.ndim == 2 and off == 0:
        n = x.shape[0] if m.same_dim(x.shape[0], x.shape[1]) else simp(z3.If(zint(x.shape[0]) <= zint(x.shape[1]), zint(x.shape[0]), zint(x.shape[1])))
        r = AV((n,), x.kind, lambda i: x.at(i, i))
        return m.viewof(a[0], r) if isinstance(a[0], Arr) else m.arr(r)
    raise Unsupported("diag")


@fn("numpy.diagonal")
def _diagonal(m, a, kw):
    return _diag(m, a[:1], {})


@fn("numpy.triu", "numpy.tril")
def _triu(m, a, kw):
    raise Unsupported("triu")


def _triu_(m, a, kw):
    x = m.av(a[0])
    k = simp(as_int(getk(a, kw, 1, "k", 0)))
    return m.arr(AV(x.shape, x.kind, lambda i, j: num(x.at(i, j)).guard(simp(j - i >= k))))


def _tril_(m, a, kw):
    x = m.av(a[0])
    k = simp(as_int(getk(a, kw, 1, "k", 0)))
    return m.arr(AV(x.shape, x.kind, lambda i, j: num(x.at(i, j)).guard(simp(j - i <= k))))


FUNCS["numpy.triu"], FUNCS["numpy.tril"] = _triu_, _tril_


def concat2(m, x, y, axis):
    d = x.shape[axis]
    other = [i for i in range(x.ndim) if i != axis]
    for i in other:
        if not m.same_dim(x.shape[i], y.shape[i]):
            if not m.branch(zint(x.shape[i]) == zint(y.shape[i])):
                raise Raised("ValueError")
    sh = list(x.shape)
    sh[axis] = simp(zint(d) + zint(y.shape[axis]))
    k = kmax(x.kind, y.kind)

    def el(*i):
        c = simp(i[axis] < zint(d))
        j = list(i)
        j[axis] = simp(i[axis] - zint(d))
        if c is True:
            return x.at(*i)
        if c is False:
            return y.at(*j)
        return ite(c, tonum(x.at(*i)), tonum(y.at(*j)))
    return AV(sh, k, el)


@fn("numpy.block")
def _block(m, a, kw):
    rows = m.to_lv(a[0])
    if rows.items is None:
        raise Unsupported("block of a symbolic list")
    out = None
    for r in rows.items:
        if isinstance(r, Arr):
            row = m.av(r)
        else:
            rl = m.to_lv(r)
            if rl.items is None:
                raise Unsupported("block of a symbolic list")
            row = None
            for b in rl.items:
                if is_scalar(b):
                    raise Unsupported("scalar block")
                x = m.av(b)
                if x.ndim != 2:
                    raise Unsupported("block of vectors")
                row = x if row is None else concat2(m, row, x, 1)
        out = row if out is None else concat2(m, out, row, 0)
    return m.arr(out)


def stack_fn(axis):
    def f(m, a, kw):
        lv = m.to_lv(a[0])
        ax = axis if axis is not None else simp(as_int(getk(a, kw, 1, "axis", 0)))
        if lv.items is None:
            raise Unsupported("stack of a symbolic list")
        out = None
        for b in lv.items:
            x = m.av(b)
            if axis == 1 and x.ndim == 1:
                ax = 0
            if axis == 0 and x.ndim == 1 and f is FUNCS.get("numpy.vstack"):
                x0 = x
                x = AV((1,) + x0.shape, x0.kind, lambda i, j, x0=x0: x0.at(j))
            if out is None:
                out = x
            else:
                t = completion_tags(m, out, x) if ax == 1 else ()
                out = concat2(m, out, x, ax)
                if t:
                    out = with_tags(out, t)
        return m.arr(out)
    return f


fn("numpy.hstack")(stack_fn(1))
fn("numpy.vstack")(stack_fn(0))
fn("numpy.concatenate")(stack_fn(None))


@fn("numpy.append")
def _append(m, a, kw):
    x, y = m.av(a[0]) if not is_scalar(a[0]) else AV((1,), kind_of(a[0]), lambda i: a[0]), \
        m.av(a[1]) if not is_scalar(a[1]) else AV((1,), kind_of(a[1]), lambda i: a[1])
    if x.ndim != 1 or y.ndim != 1 or kw:
        raise Unsupported("append")
    return m.arr(concat2(m, x, y, 0))


@fn("numpy.flip")
def _flip(m, a, kw):
    if kw or len(a) > 1:
        raise Unsupported("flip axis")
    x = m.av(a[0])
    sh = x.shape
    return m.arr(AV(sh, x.kind, lambda *i: x.at(*[simp(zint(d) - 1 - j) for d, j in zip(sh, i)])))


@fn("numpy.kron")
def _kron(m, a, kw):
    return m_kron(m, a[0], a[1])


def m_kron(m, p, q):
    if is_scalar(p) and is_scalar(q):
        return num(p) * num(q)
    if is_scalar(p):
        y = m.av(q)
        y = with_chain(y)
        return m.arr(scale(y, num(p), kmax(kind_of(p), y.kind, "i")))
    if is_scalar(q):
        x = with_chain(m.av(p))
        return m.arr(scale(x, num(q), kmax(kind_of(q), x.kind, "i")))
    x, y = m.av(p), m.av(q)
    if x.ndim != 2 or y.ndim != 2:
        if x.ndim == 0:
            return m_kron(m, x.at(), q)
        if x.ndim == 1 and y.ndim == 1:
            n = y.shape[0]
            return m.arr(AV((simp(zint(x.shape[0]) * zint(n)),), kmax(x.kind, y.kind), lambda i: num(x.at(idiv(i, n))) * num(y.at(imod(i, n)))))
        raise Unsupported("kron of vectors")
    k = kmax(x.kind, y.kind)
    cx, cy = as_chain(x), as_chain(y)
    if cx is not None and cy is not None:
        base = None
        if isinstance(cx[1], Num) and isinstance(cy[1], Num):
            base = cx[1] * cy[1]
        elif isinstance(cy[1], Num) and cy[1].const() == GQ(1):
            base = cx[1]
        elif isinstance(cx[1], Num) and cx[1].const() == GQ(1) and not cx[0]:
            base = cy[1]
        elif isinstance(cx[1], Num) and cx[1].const() == GQ(1) and not cy[0]:
            # factors put in front of a carried array
            sh = tuple(simp(zint(u) * zint(v)) for u, v in zip(x.shape, y.shape))
            return m.arr(AV(sh, k, kron_el(x, y), ("prechain", tuple(cx[0]), cy[1])))
        if base is not None:
            segs = tuple(cx[0]) + tuple(cy[0])
            if isinstance(base, Num):
                r = chain_av(segs, base)
                return m.arr(AV(r.shape, k if r.kind != "c" else "c", r.elem, r.prov))
            sh = tuple(simp(zint(u) * zint(v)) for u, v in zip(x.shape, y.shape))
            return m.arr(AV(sh, k, kron_el(x, y), ("chain", segs, base)))
    sh = tuple(simp(zint(u) * zint(v)) for u, v in zip(x.shape, y.shape))
    return m.arr(AV(sh, k, kron_el(x, y)))


def kron_el(x, y):
    r, c = y.shape

    def el(i, j):
        return num(tonum(x.at(idiv(i, r), idiv(j, c)))) * num(tonum(y.at(imod(i, r), imod(j, c))))
    return el


def idiv(i, n):
    return simp(zint(i) / zint(n))


def imod(i, n):
    return simp(zint(i) % zint(n))


def with_chain(x):
    c = as_chain(x)
    if c is None or x.prov is not None:
        return x
    return AV(x.shape, x.kind, x.at, ("chain", tuple(c[0]), c[1]))


def as_chain(x):
    """(segments, base) of a Kronecker chain of 2x2 matrices"""
    if is_scalar(x):
        return ((), num(x))
    if not isinstance(x, AV):
        return None
    if x.prov is not None and x.prov[0] == "chain":
        return x.prov[1], x.prov[2]
    if x.ndim == 2 and same(x.shape[0], 2) and same(x.shape[1], 2):
        return (((1, lambda p: x)),), num(1)
    if x.ndim == 2 and same(x.shape[0], 1) and same(x.shape[1], 1):
        return (), num(x.at(0, 0))
    return None


def chain_len(segs):
    t = 0
    for ln, f in segs:
        t = simp(zint(t) + zint(ln))
    return t


def chain_at(segs, p):
    """2x2 matrix at position p of the chain"""
    off = 0
    out = None
    parts = []
    for ln, f in segs:
        o2 = simp(zint(off) + zint(ln))
        parts.append((off, o2, f))
        off = o2
    r = None
    for lo, hi, f in reversed(parts):
        v = f(simp(zint(p) - zint(lo)))
        r = v if r is None else merge_val(simp(zint(p) < zint(hi)), v, r)
    return r


def chain_kind(segs, base):
    k = base.kind if isinstance(base, Num) else "c"
    q = fresh("q")
    for ln, f in segs:
        k = kmax(k, f(q).kind)
    return k


def chain_av(segs, base):
    L = chain_len(segs)
    k = chain_kind(segs, base)
    n = pow2(L)
    if isinstance(L, int) and L <= 1:
        if L == 0:
            return AV((1, 1), k, lambda i, j: base, ("chain", segs, base))
        x = chain_at(segs, 0)
        return AV((2, 2), k, lambda i, j: base * num(x.at(i, j)), ("chain", segs, base))

    def el(i, j):
        lam = Lam(1, lambda p: num(chain_at(segs, p).at(digit(p, L, i), digit(p, L, j))), (L,))
        return base * opaque("prod", (zint(L), lam), real=(k != "c"), kind=k)
    return AV((n, n), k, el, ("chain", segs, base))


def map_chain(x, f, basef=None):
    """apply a 2x2 operation to every factor"""
    c = as_chain(x) if (x.prov is not None and x.prov[0] == "chain") else None
    if c is None or not isinstance(c[1], Num):
        return None
    segs = tuple((ln, (lambda g: lambda p: f(g(p)))(g)) for ln, g in c[0])
    return chain_av(segs, basef(c[1]) if basef else c[1])


# --------------------------------------------------------------------------------------------------------- algebra
def linked(name):
    """x -> f(x) for an involution f, computed once"""
    def deco(f):
        def g(x):
            if name not in x._memo:
                r = f(x)
                if r is x:
                    return x
                x._memo[name] = r
                r._memo[name] = x
            return x._memo[name]
        return g
    return deco


@linked("T")
def av_T(x):
    if x.ndim < 2:
        return x
    if x.ndim != 2:
        raise Unsupported("transpose of a tensor")
    c = map_chain(x, av_T)
    if c is not None:
        return AV(c.shape, x.kind, c.elem, c.prov, x.tags)
    r = AV((x.shape[1], x.shape[0]), x.kind, lambda i, j: x.at(j, i), tags=x.tags)
    if x.mm is not None:
        r.mm = (av_T(x.mm[1]), av_T(x.mm[0]))
    return r


@linked("conj")
def av_conj(x):
    if x.kind != "c":
        return x
    c = map_chain(x, av_conj, lambda b: b.conj())
    if c is not None:
        return AV(c.shape, x.kind, c.elem, c.prov, x.tags)
    r = AV(x.shape, "c", lambda *i: x.at(*i).conj(), tags=x.tags)
    if x.mm is not None:
        r.mm = (av_conj(x.mm[0]), av_conj(x.mm[1]))
    return r


def matmul(m, a, b):
    if is_scalar(a) or is_scalar(b):
        raise Raised("ValueError")
    x, y = m.av(a), m.av(b)
    if x.ndim == 0 or y.ndim == 0:
        raise Raised("ValueError")
    d, e = x.shape[-1], y.shape[0 if y.ndim == 1 else -2]
    if not m.same_dim(d, e):
        if not m.branch(zint(d) == zint(e)):
            raise Raised("ValueError")
    k = kmax(x.kind, y.kind, "i")
    if x.ndim == 2 and y.ndim == 2:
        r, h = tag_mm(m, x, y, mm(x, y, k)), m.ghost.get("abstract")
        return m.arr(r if h is None else h(m, r))
    if x.ndim == 2 and y.ndim == 1:
        return m.arr(AV((x.shape[0],), k, lambda i: Sum(0, d, lambda s: num(x.at(i, s)) * num(y.at(s)))))
    if x.ndim == 1 and y.ndim == 2:
        return m.arr(AV((y.shape[1],), k, lambda j: Sum(0, d, lambda s: num(x.at(s)) * num(y.at(s, j)))))
    if x.ndim == 1 and y.ndim == 1:
        return Sum(0, d, lambda s: num(x.at(s)) * num(y.at(s)))
    raise Unsupported("matmul of tensors")


def mm(x, y, k=None):
    d = x.shape[1]
    r = AV((x.shape[0], y.shape[1]), k or kmax(x.kind, y.kind), lambda i, j: Sum(0, d, lambda s: num(x.at(i, s)) * num(y.at(s, j))))
    r.mm = (x, y)
    return r


# ----------------------------------------------------------------------------------------- products as words of matrices
def word(x):
    """the factors of a square matrix computed as a product of square matrices"""
    if x.mm is None or not all(f.ndim == 2 and same(f.shape[0], f.shape[1]) for f in x.mm):
        return [x]
    return word(x.mm[0]) + word(x.mm[1])


def concrete(m, x):
    """entry at fresh indices without sums and symbols (guards and constants only), else None"""
    if x.conc is None:
        x.conc = next((y.conc for y in (x._memo.get("T"), x._memo.get("conj")) if y is not None and y.conc is not None), None)
    if x.conc is None:
        x.conc = concrete_(m, x)
    return x.conc


def concrete_(m, x):
    i, j = fresh("a"), fresh("a")

    def plain(t):
        return all(a.sym.attrs.get("sqrt") for a in t.atoms) and not any(N.walk_apps(g)[2] for g in t.guards)
    try:
        e = num(x.at(i, j))
        if not all(plain(t) for t in e.terms):
            return False
        e = N.simplify(e, list(m.pc) + [i >= 0, i < zint(x.shape[0]), j >= 0, j < zint(x.shape[1])])
    except Unsupported:
        return False
    return all(not t.binders and plain(t) for t in e.terms)


def reduce_word(m, w):
    """multiplies adjacent constant factors and removes U U^dagger"""
    w = [(x, concrete(m, x)) for x in w]
    for k in range(len(w) - 1, -1, -1):             # c 1 is absorbed by a factor that is not unitary
        c = scalar_matrix(m, w[k][0]) if w[k][1] and len(w) > 1 else None
        q = None if c is None or c == ONE else next((q for q, (f, cf) in enumerate(w) if q != k and not cf and "unitary" not in f.tags), None)
        if c is not None and (c == ONE or q is not None):
            if q is not None:
                w[q] = (exe_scale(w[q][0], Num([Term(c)], "f" if c.im == 0 else "c")), False)
            del w[k]
    changed = True
    while changed and len(w) > 1:
        changed = False
        for k in range(len(w) - 1):
            (x, cx), (y, cy) = w[k], w[k + 1]
            if not cx and not cy and "unitary" in x.tags and "unitary" in y.tags and is_adjoint(m, x, y):
                w[k:k + 2] = [(eye_av(x.shape[0], k=kmax(x.kind, y.kind)), True)] if len(w) == 2 else []
                changed = True
                break
            if cx and cy:
                z = x._memo.get(("mm", id(y)), (None, None))[1]
                if z is None:
                    z = mm(x, y)
                    z.mm = None
                    x._memo["mm", id(y)] = (y, z)
                if not concrete(m, z):
                    continue
                c = scalar_matrix(m, z) if len(w) > 2 else None
                q = None if c is None or c == ONE else next((q for q, (f, cf) in enumerate(w) if q not in (k, k + 1) and not cf and "unitary" not in f.tags), None)
                if c is not None and (c == ONE or q is not None):
                    if q is not None:
                        w[q] = (exe_scale(w[q][0], Num([Term(c)], "f" if c.im == 0 else "c")), False)
                    w[k:k + 2] = []
                else:
                    w[k:k + 2] = [(z, True)]
                changed = True
                break
    return [x for x, _ in w]


def scalar_matrix(m, z):
    """c if z = c 1 with a constant c"""
    pc, r = z._memo.get("scalar", (None, None))
    if pc is None or len(pc) > len(m.pc) or not all(a is b or a.eq(b) for a, b in zip(pc, m.pc)):
        pc, r = z._memo["scalar"] = list(m.pc), scalar_matrix_(m, z)
    return r


def scalar_matrix_(m, z):
    try:
        e = N.simplify(num(z.at(z3.IntVal(0), z3.IntVal(0))), list(m.pc) + [zint(z.shape[0]) >= 1])
    except Unsupported:
        return None
    c = GQ(0)
    for t in e.terms:
        if t.atoms or t.binders:
            return None
        c = c + t.coef
    if c.zero():
        return None
    return c if entries_equal(m, z, exe_scale(eye_av(z.shape[0]), Num([Term(c)], "c"))) else None


def exe_scale(x, c):
    return exe.scale(x, c)


def reduced(m, x):
    """the same matrix with the constant factors multiplied out and U U^dagger removed"""
    if x.mm is None:
        return x
    w = word(x)
    if len(w) > 16:
        return x
    w = reduce_word(m, w)
    r = w[0]
    for f in w[1:]:
        r = mm(r, f)
    return with_tags(r, x.tags) if r.shape == x.shape else r


def real_word(m, x):
    """the reduced product if all its factors are real"""
    if x.mm is None:
        return None
    w = []
    for f in reduce_word(m, word(x)):
        if f.kind == "c":
            if not entries_equal(m, f, av_conj(f)):
                return None
            f = with_tags(AV(f.shape, "f", lambda *i, f=f: num(f.at(*i)).with_kind("f")), f.tags)
        w.append(f)
    r = w[0]
    for f in w[1:]:
        r = mm(r, f)
    return r


def scaled_word(x, c, r):
    """r = c x keeps the factors of the square matrix x"""
    if x.ndim == 2 and x.mm is not None and same(x.shape[0], x.shape[1]) and num(c).const() is not None:
        r.mm = (exe_scale(eye_av(x.shape[0]), num(c)), x)
    return r


def words_equal(m, x, y):
    if x.ndim != 2 or y.ndim != 2 or x.mm is None and y.mm is None:
        return False
    if not m.same_dim(x.shape[0], x.shape[1]) or not all(m.same_dim(p, q) for p, q in zip(x.shape, y.shape)):
        return False
    a, b = word(x), word(y)
    if len(a) + len(b) < 3:
        return False
    while a and b and a[0] is b[0]:
        a, b = a[1:], b[1:]
    while a and b and a[-1] is b[-1]:
        a, b = a[:-1], b[:-1]
    if not a and not b:
        return True
    if not a or not b or len(a) > 16 or len(b) > 16:
        return False
    a, b = reduce_word(m, a), reduce_word(m, b)
    return len(a) == len(b) and all(entries_equal(m, p, q) for p, q in zip(a, b))


# ------------------------------------------------------------------------------------------ facts about matrices
def entries_equal(m, x, y):
    """x and y have provably equal shapes and entries"""
    if x.ndim != y.ndim or not all(m.same_dim(p, q) for p, q in zip(x.shape, y.shape)):
        return False
    vs = [fresh("a") for _ in x.shape]
    g = list(m.pc) + [z3.And(v >= 0, v < zint(d)) for v, d in zip(vs, x.shape)]
    try:
        return N.prove_equal(num(x.at(*vs)), num(y.at(*vs)), g)[0] == "proved"
    except Unsupported:
        return False


def is_adjoint(m, x, y):
    return x.ndim == 2 == y.ndim and (av_T(av_conj(x)) is y or entries_equal(m, y, av_T(av_conj(x))))


def with_tags(av, tags):
    if frozenset(tags) <= av.tags:
        return av
    r = AV(av.shape, av.kind, av.at, av.prov, av.tags | frozenset(tags))
    r.mm = av.mm
    return r


def tag_mm(m, x, y, r):
    r.mm = (x, y)
    sq = same(x.shape[0], x.shape[1]) and same(y.shape[0], y.shape[1])
    if not sq:
        return r
    if "unitary" in x.tags and "unitary" in y.tags:
        if is_adjoint(m, x, y):
            r2 = eye_av(x.shape[0], k=r.kind)
            r2.tags = frozenset({"unitary", "herm", "psd"})
            return r2
        r = with_tags(r, {"unitary"})
    f = x.mm
    if f is not None and f[1].tags & {"herm", "psd", "anti"} and is_adjoint(m, f[0], y):
        t = f[1].tags & {"herm", "psd", "anti"}
        if "trace1" in f[1].tags and "unitary" in f[0].tags:
            t = t | {"trace1"}
        r = with_tags(r, t)
    return r


def struct_tags(m, x):
    """facts proved from the entries"""
    t = set(x.tags)
    if x.ndim != 2 or not m.same_dim(x.shape[0], x.shape[1]):
        return t
    if not t & {"herm", "anti"}:
        h = av_T(av_conj(x))
        if entries_equal(m, x, h):
            t.add("herm")
        elif entries_equal(m, x, AV(h.shape, h.kind, lambda i, j: -num(h.at(i, j)))):
            t.add("anti")
    return t


def gram_tags(m, x):
    """facts proved from the entries: Hermitian, unit trace, and positive semidefinite when entry (i, j) has the form
    sum over s of w(s) f(i, s) conj f(j, s) with w >= 0"""
    t = struct_tags(m, x)
    if x.ndim != 2 or not m.same_dim(x.shape[0], x.shape[1]):
        return t
    i, j = fresh("i"), fresh("j")
    try:
        e = N.simplify(num(x.at(i, j)), m.pc + [i >= 0, j >= 0, i < zint(x.shape[0]), j < zint(x.shape[0])])
    except Unsupported:
        return t
    if "herm" in t and all(gram_term(u, i, j) for u in e.terms):
        t.add("psd")
    if "trace1" not in t and N.prove_equal(tr(m, x), num(1), m.pc)[0] == "proved":
        t.add("trace1")
    return t


def gram_term(u, i, j):
    if u.coef.im != 0 or u.coef.re < 0 or any(b.perm for b in u.binders):
        return False
    if any(N.occurs(v, g) for v in (i, j) for g in list(u.guards) + [e for b in u.binders for e in (b.lo, b.hi)]):
        return False
    left = []
    for a in u.atoms:
        oi, oj = any(N.occurs(i, e) for e in a.idx), any(N.occurs(j, e) for e in a.idx)
        if oi and oj or a.fidx:
            return False
        if not oi and not oj:
            if not (a.sym.real and a.sym.nonneg):
                return False
        else:
            left.append((oi, a))
    fi = [a for s, a in left if s]
    fj = [a for s, a in left if not s]
    for a in fi:
        k = next((n for n, b in enumerate(fj) if b.sym is a.sym and (a.sym.real or a.conj != b.conj)
                  and all(z3.simplify(z3.substitute(p, (i, j))).eq(z3.simplify(q)) for p, q in zip(a.idx, b.idx))), None)
        if k is None:
            return False
        del fj[k]
    return not fj


def scale_tags(m, x, c):
    """facts about c*x"""
    t = set()
    if not x.tags:
        return t
    re = N.is_real(c)
    im = not re and N.is_real(num(c) * num(-1j))
    if re:
        t |= x.tags & {"herm", "anti"}
        if "psd" in x.tags and valid(m.pc, cmp(">=", c, 0)):
            t |= {"psd"}
    elif im:
        t |= ({"anti"} if "herm" in x.tags else set()) | ({"herm"} if "anti" in x.tags else set())
    return t


@fn("numpy.matmul")
def _matmul(m, a, kw):
    return matmul(m, a[0], a[1])


@fn("numpy.dot")
def _dot(m, a, kw):
    if is_scalar(a[0]) or is_scalar(a[1]):
        return m.binop(ast.Mult(), a[0], a[1])
    return matmul(m, a[0], a[1])


@fn("numpy.outer")
def _outer(m, a, kw):
    x, y = m.av(a[0]), m.av(a[1])
    if x.ndim != 1 or y.ndim != 1:
        raise Unsupported("outer")
    return m.arr(AV((x.shape[0], y.shape[0]), kmax(x.kind, y.kind), lambda i, j: num(x.at(i)) * num(y.at(j))))


@fn("numpy.vdot")
def _vdot(m, a, kw):
    x, y = m.av(a[0]), m.av(a[1])
    if x.ndim != 1 or y.ndim != 1:
        raise Unsupported("vdot")
    return Sum(0, x.shape[0], lambda s: num(x.at(s)).conj() * num(y.at(s)))


@fn("numpy.trace")
def _trace(m, a, kw):
    if kw or len(a) > 1:
        raise Unsupported("trace offset")
    return tr(m, m.av(a[0]))


def tr(m, x):
    if x.ndim != 2:
        raise Unsupported("trace")
    n = x.shape[0]
    if not m.same_dim(n, x.shape[1]):
        n = simp(z3.If(zint(n) <= zint(x.shape[1]), zint(n), zint(x.shape[1])))
    return Sum(0, n, lambda i: num(x.at(i, i))).with_kind(kmax(x.kind, "i"))


def axis_of(a, kw, pos):
    return getk(a, kw, pos, "axis")


@fn("numpy.sum")
def _sum(m, a, kw):
    only(kw, "axis")
    if is_scalar(a[0]):
        return num(a[0])
    x = m.av(a[0])
    ax = axis_of(a, kw, 1)
    k = kmax(x.kind, "i")
    if piece_of(x) is not None:
        return piece_of(x).total(tonum).with_kind(k)
    if ax is None:
        def go(pre):
            d = len(pre)
            if d == x.ndim:
                return tonum(x.at(*pre))
            return Sum(0, x.shape[d], lambda s: go(pre + [zint(s)]))
        return go([]).with_kind(k)
    ax = simp(as_int(ax))
    ax = ax + x.ndim if ax < 0 else ax
    sh = x.shape[:ax] + x.shape[ax + 1:]
    r = AV(sh, k, lambda *i: Sum(0, x.shape[ax], lambda s: tonum(x.at(*i[:ax], zint(s), *i[ax:]))))
    return m.arr(r) if sh else r.at()


@fn("numpy.prod")
def _prod(m, a, kw):
    if kw or len(a) > 1:
        raise Unsupported("prod axis")
    x = m.av(a[0])
    if x.ndim != 1:
        raise Unsupported("prod")
    k = fresh("k")
    return exe.prod(k, x.shape[0], num(x.at(k)))


def ew(name, f):
    """element-wise function"""
    def g(m, a, kw):
        if kw:
            raise Unsupported("keyword of an element-wise function")
        if is_scalar(a[0]):
            return f(a[0])
        x = m.av(a[0])
        if piece_of(x) is not None:
            return m.arr(piece_av(piece_of(x).map(lambda v: num(f(tonum(v))))))
        probe = f(num(x.at(*[fresh("y") for _ in x.shape])))
        return m.arr(AV(x.shape, kind_of(probe), lambda *i: num(f(tonum(x.at(*i))))))
    fn(name)(g)
    return g


ew("numpy.abs", sabs)
FUNCS["numpy.absolute"] = FUNCS["numpy.fabs"] = FUNCS["numpy.abs"]
ew("numpy.sqrt", ssqrt)
ew("math.sqrt", ssqrt)
ew("numpy.exp", lambda x: sfun("exp", x))
ew("math.exp", lambda x: sfun("exp", x))
ew("numpy.square", lambda x: num(x) * num(x))
ew("numpy.sign", lambda x: sgn_(x))
ew("numpy.cos", lambda x: sfun("cos", x))
ew("numpy.sin", lambda x: sfun("sin", x))


def sgn_(x):
    x = num(x)
    c = x.const()
    if c is not None and c.im == 0:
        return num((c.re > 0) - (c.re < 0)).with_kind(x.kind)
    return opaque("sign", (x,), real=x.kind != "c", kind=x.kind)


def slog(x):
    x = num(x)
    c = x.const()
    if c is not None and c == GQ(1):
        return num(0).with_kind("f")
    r = sole_arg(x, "exp")
    if r is not None and len(r.terms) == 1 and r.terms[0].coef == GQ(0, 1) and len(r.terms[0].atoms) == 1 and r.terms[0].atoms[0].sym.fname == "schurarg":
        return r            # the logarithm of exp(i a), -pi < a <= pi
    if len(x.terms) == 1:
        t = x.terms[0]
        if t.coef == GQ(1) and not t.binders and not t.guards and len(t.atoms) == 1 and t.atoms[0].sym.args is not None \
                and t.atoms[0].sym.fname in ("pow", "sqrt") and t.atoms[0].sym.real:
            # log(x**b) = b log x and log(sqrt x) = log(x)/2 for x >= 0 (a real power is only taken of such numbers)
            s = t.atoms[0]
            y = N.subst_holes(s.sym.args, s.sym, s.idx[:len(s.sym.holes)], s.fidx)
            return (num(y[1]) if s.sym.fname == "pow" else num(Fr(1, 2))) * slog(num(y[0]))
        if t.coef == GQ(1) and not t.guards and not t.binders and len(t.atoms) == 1 and N.inverse_of(t.atoms[0]) is not None:
            return num(-1) * slog(Num([Term(GQ(1), (), (), [N.inverse_of(t.atoms[0])])], "f"))
    free, rest = pull(x)
    if free and not (rest.const() is not None and len(free) == 1):
        # log(x y) = log x + log y for positive factors (the argument of a logarithm is positive)
        r = slog(rest)
        for f in free:
            r = r + slog(Num([Term(GQ(1), (), (), [f])], "f"))
        return r
    return opaque("log", (x,), real=x.kind != "c")


def slog2(x):
    if isinstance(x, Num):
        i = as_int_opt(x)
        if i is not None:
            x = i
    if is_int(x):
        e = log2_int(x)
        if e is not None:
            return Num(num(e).terms, "f")
        return opaque("log2i", (zint(x),), real=True)
    x = num(x)
    return opaque("log2", (x,), real=x.kind != "c")


ew("numpy.log", slog)
ew("math.log", slog)
ew("numpy.log2", slog2)
ew("math.log2", slog2)


def slog10(x):
    x = num(x)
    c = x.const()
    if c is not None and c.im == 0 and c.re > 0:
        p, q = c.re.numerator, c.re.denominator
        for e in range(-20, 21):
            if c.re == Fr(10) ** e:
                return num(e).with_kind("f")
    return opaque("log10", (x,), real=x.kind != "c")


ew("numpy.log10", slog10)
ew("math.log10", slog10)
ew("numpy.isfinite", lambda x: True)


def sround(x, d=0, kind=None):
    if is_int(x) or kind == "i":
        if isinstance(d, int) and d >= 0:
            return x
        return opaque("roundi", (num(x), d if isinstance(d, int) else zint(d)), real=True, kind="i")
    x = num(x)
    if d == 0:
        i = as_int_opt(x)
        if i is not None:
            return Num(num(i).terms, "f")
    c = x.const()
    return opaque("round", (x, d if isinstance(d, int) else zint(d)), real=x.kind != "c", kind=x.kind if x.kind != "i" else "f")


@fn("numpy.round", "numpy.around")
def _round(m, a, kw):
    d = getk(a, kw, 1, "decimals", 0)
    d = simp(as_int(d))
    if is_scalar(a[0]):
        return sround(a[0], d)
    x = m.av(a[0])
    if x.kind == "i":
        if isinstance(d, int) and d >= 0:
            return m.arr(x)
        return m.arr(AV(x.shape, "i", lambda *i: sround(x.at(*i), d, "i")))
    return m.arr(AV(x.shape, x.kind, lambda *i: sround(num(x.at(*i)), d)))


@fn("numpy.real")
def _real(m, a, kw):
    return attribute(m, a[0], "real")


@fn("numpy.imag")
def _imag(m, a, kw):
    return attribute(m, a[0], "imag")


@fn("numpy.conj", "numpy.conjugate")
def _conj(m, a, kw):
    only(kw)
    if is_scalar(a[0]):
        return num(a[0]).conj()
    return m.arr(av_conj(m.av(a[0])))


@fn("numpy.transpose")
def _transpose(m, a, kw):
    return attribute(m, a[0], "T") if isinstance(a[0], Arr) else m.arr(av_T(m.av(a[0])))


for nm, op in (("add", ast.Add), ("subtract", ast.Sub), ("multiply", ast.Mult), ("divide", ast.Div), ("true_divide", ast.Div), ("power", ast.Pow)):
    def _b(m, a, kw, op=op):
        only(kw)
        return m.binop(op(), a[0], a[1])
    FUNCS["numpy." + nm] = _b


@fn("numpy.where")
def _where(m, a, kw):
    if len(a) != 3:
        raise Unsupported("where")
    xs = [m.av(x) if not is_scalar(x) else AV((), kind_of(x), lambda x=x: x) for x in a]
    c, x = m.broadcast(xs[0], xs[1])
    c, y = m.broadcast(c, xs[2])
    x, y = m.broadcast(x, y)
    return m.arr(AV(x.shape, kmax(x.kind, y.kind), lambda *i: ite(c.at(*i), tonum(x.at(*i)), tonum(y.at(*i)))))


# ------------------------------------------------------------------------------------------------------- predicates
TOL = {"rtol": Fr("1e-5"), "atol": Fr("1e-8")}


def scalar_av(m, x):
    return AV((), kind_of(x), lambda: x) if is_scalar(x) else m.av(x)


@fn("numpy.allclose", trusted="allclose(a,b): all |a-b| <= atol + rtol*|b|; in particular true when a = b")
def _allclose(m, a, kw):
    only(kw, "rtol", "atol")
    rt, at = getk(a, kw, 2, "rtol", 1e-5), getk(a, kw, 3, "atol", 1e-8)
    x, y = scalar_av(m, a[0]), scalar_av(m, a[1])
    return allclose(m, x, y, rt, at)


def close_pieces(x, y, rt, at):
    """|x - y| <= atol + rtol |y| for a constant real y and an x that is a real constant under each of several exclusive guards"""
    y = y.const()
    if y is None or rt is None or at is None or y.im or any(t.binders or t.atoms or t.coef.im for t in x.terms) or len(x.terms) > 4:
        return None
    for i, t in enumerate(x.terms):
        for u in x.terms[:i]:
            if not N.unsat([*t.guards, *u.guards]):
                return None
    near = lambda c: abs(c - y.re) <= at.re + rt.re * abs(y.re)
    gs = [And(*t.guards) for t in x.terms]
    return simp(Or(And(near(Fr(0)), *[Not(g) for g in gs]), *[g for g, t in zip(gs, x.terms) if near(t.coef.re)]))


def allclose(m, x, y, rt=1e-5, at=1e-8):
    x, y = m.broadcast(x, y)
    # equal arrays are close
    if words_equal(m, x, y):
        return True
    vs = [fresh("a") for _ in x.shape]
    g = list(m.pc) + [z3.And(v >= 0, v < zint(d)) for v, d in zip(vs, x.shape)]
    try:
        if N.prove_equal(tonum(x.at(*vs)), tonum(y.at(*vs)), g)[0] == "proved":
            return True
    except Unsupported:
        pass
    if x.ndim == 0:
        r = close_pieces(num(x.at()), num(y.at()), num(rt).const(), num(at).const())
        return r if r is not None else pred("close", (num(x.at()), num(y.at()), num(rt), num(at)))
    return pred("allclose", (tuple(zint(d) for d in x.shape), x.lam(), y.lam(), num(rt), num(at)))


@fn("numpy.isclose")
def _isclose(m, a, kw):
    only(kw, "rtol", "atol")
    rt, at = getk(a, kw, 2, "rtol", 1e-5), getk(a, kw, 3, "atol", 1e-8)
    x, y = scalar_av(m, a[0]), scalar_av(m, a[1])
    x, y = m.broadcast(x, y)
    if x.ndim == 0:
        return allclose(m, x, y, rt, at)
    return m.arr(AV(x.shape, "b", lambda *i: pred("close", (num(x.at(*i)), num(y.at(*i)), num(rt), num(at)))))


@fn("numpy.array_equal")
def _array_equal(m, a, kw):
    x, y = scalar_av(m, a[0]), scalar_av(m, a[1])
    if x.ndim != y.ndim:
        return False
    for d, e in zip(x.shape, y.shape):
        if not m.same_dim(d, e) and not m.branch(zint(d) == zint(e)):
            return False
    return b_all(m, AV(x.shape, "b", lambda *i: simp(cmp("==", tonum(x.at(*i)), tonum(y.at(*i))))))


def b_all(m, x):
    if all(isinstance(d, int) for d in x.shape):
        tot = 1
        for d in x.shape:
            tot *= d
        if tot <= 16:
            import itertools
            return simp(And(*[x.at(*i) for i in itertools.product(*[range(d) for d in x.shape])]))
    vs = [fresh("a") for _ in x.shape]
    b = x.at(*vs)
    if isinstance(b, bool):
        if b:
            return True
        return simp(Or(*[zint(d) == 0 for d in x.shape]))
    rng = [z3.And(v >= 0, v < zint(d)) for v, d in zip(vs, x.shape)]
    if valid(list(m.pc) + rng, b):
        return True
    return simp(z3.ForAll(vs, z3.Implies(z3.And(*rng), b)))


def tobool_av(x):
    if x.kind == "b":
        return x
    return AV(x.shape, "b", lambda *i: simp(cmp("!=", num(x.at(*i)), 0)))


@fn("numpy.all")
def _all(m, a, kw):
    if kw:
        raise Unsupported("all axis")
    if is_bool(a[0]):
        return a[0]
    return b_all(m, tobool_av(m.av(a[0])))


@fn("numpy.any")
def _any(m, a, kw):
    if kw:
        raise Unsupported("any axis")
    if is_bool(a[0]):
        return a[0]
    x = tobool_av(m.av(a[0]))
    return simp(Not(b_all(m, AV(x.shape, "b", lambda *i: simp(Not(x.at(*i)))))))


# ------------------------------------------------------------------------------------------------------ linear algebra
def sq_lam(x):
    return (tuple(zint(d) for d in x.shape), x.lam())


def sqrt_of(m, e):
    """square root; of a sum that is provably one or zero the value itself"""
    if num(e).const() is None:
        for c in (1, 0):
            if N.prove_equal(num(e), num(c), m.pc)[0] == "proved":
                return num(c).with_kind("f")
        com, rest = pull(num(e))
        if com and N.prove_equal(rest, num(1), m.pc)[0] == "proved":
            e = Num([Term(ONE, (), (), com)], "f")
    return ssqrt(e)


@fn("numpy.linalg.norm", trusted="linalg.norm: p-norm of the entries of a vector / Frobenius norm of a matrix")
def _norm(m, a, kw):
    only(kw, "ord")
    x = m.av(a[0])
    o = getk(a, kw, 1, "ord")
    if isinstance(o, Num) and o.const() is None and not valid(m.pc, zbool(cmp("!=", o, 0))) or is_int(o) and not valid(m.pc, zint(o) != 0):
        raise Unsupported("norm of order zero")
    if piece_of(x) is not None:
        q = piece_of(x)
        if o is None or is_int(o) and simp(o) == 2:
            return ssqrt(q.total(lambda v: num(v) * num(v).conj()).with_kind("f"))
        if is_int(o) and simp(o) == 1:
            return q.total(lambda v: sabs(num(v))).with_kind("f")
        if not inf(o) and (is_int(o) or isinstance(o, (float, Num))):
            return spow(q.total(lambda v: num(spow(sabs(num(v)), num(o)))).with_kind("f"), sinv(num(o)))
        raise Unsupported("norm order")
    if o is None:
        def go(pre):
            d = len(pre)
            if d == x.ndim:
                e = tonum(x.at(*pre))
                return e * e.conj()
            if isinstance(x.shape[d], int) and x.shape[d] == 1:
                return go(pre + [zint(0)])
            return Sum(0, x.shape[d], lambda s: go(pre + [zint(s)]))
        return sqrt_of(m, go([]).with_kind("f"))
    if x.ndim != 1:
        raise Unsupported("matrix norm")
    n = x.shape[0]
    if is_int(o) and simp(o) == 1:
        return Sum(0, n, lambda s: sabs(num(x.at(s)))).with_kind("f")
    if is_int(o) and simp(o) == 2:
        return ssqrt(Sum(0, n, lambda s: num(x.at(s)) * num(x.at(s)).conj()).with_kind("f"))
    if inf(o):
        return opaque("maxabs", sq_lam(x), real=True, nonneg=True)
    if is_int(o) or isinstance(o, (float, Num)):
        return spow(Sum(0, n, lambda s: spow(sabs(num(x.at(s))), num(o))).with_kind("f"), sinv(num(o)))
    raise Unsupported("norm order")


def inf(o):
    return isinstance(o, float) and o in (float("inf"), float("-inf"))


def need_square(m, x, exc="LinAlgError"):
    if x.ndim != 2:
        raise Raised(exc)
    if not m.same_dim(x.shape[0], x.shape[1]):
        if not m.branch(zint(x.shape[0]) == zint(x.shape[1])):
            raise Raised(exc)


def det_small(x, n):
    import itertools
    r = num(0)
    for p in itertools.permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i):
                if p[j] > p[i]:
                    s = -s
        t = num(s)
        for i in range(n):
            t = t * num(x.at(i, p[i]))
        r = r + t
    return r.with_kind(kmax(x.kind, "f"))


@fn("numpy.linalg.det", trusted="linalg.det: determinant")
def _det(m, a, kw):
    x = m.av(a[0])
    need_square(m, x)
    if isinstance(x.shape[0], int) and x.shape[0] <= 3:
        return det_small(x, x.shape[0])
    return opaque("det", sq_lam(x), real=x.kind != "c", kind=kmax(x.kind, "f"))


def family(nidx, mk):
    """the opaque function mk of nidx indices; its arguments are processed once"""
    vs = [fresh("o") for _ in range(nidx)]
    base = []

    def at(*i):
        if not base:
            base.append(mk(*vs))
        sb = [(v, zint(j)) for v, j in zip(vs, i)]
        return base[0].subst(sb) if isinstance(base[0], Num) else z3.substitute(base[0], *sb)
    return at


def eig_fn(name, real, trusted):
    @fn("numpy.linalg." + name, trusted=trusted)
    def f(m, a, kw):
        x = m.av(a[0])
        need_square(m, x)
        n = x.shape[0]
        if name == "eigh":
            w = AV((n,), "f", family(1, lambda i: opaque("eigvalsh", sq_lam(x), (i,), real=True)))
            return (m.arr(w), m.arr(AV((n, n), x.kind, family(2, lambda i, j: opaque("eighvec", sq_lam(x), (i, j), real=x.kind != "c")))))
        k = "f" if real else "c"
        return m.arr(AV((n,), k, family(1, lambda i: opaque(name, sq_lam(x), (i,), real=real))))
    return f


eig_fn("eigvals", False, "linalg.eigvals: the eigenvalues with multiplicity")
eig_fn("eigvalsh", True, "linalg.eigvalsh: the eigenvalues of a Hermitian matrix in ascending order")
eig_fn("eigh", True, "linalg.eigh: eigenvalues and eigenvectors of a Hermitian matrix")


@fn("scipy.linalg.schur", trusted="linalg.schur(A): A = Z T Z^dagger with Z unitary, and real if A is real (with output='real')")
def _schur(m, a, kw):
    only(kw, "output", "sort")
    x = m.av(a[0])
    need_square(m, x, "ValueError")
    out, srt = getk(a, kw, 1, "output", "real"), kw.get("sort")
    if out not in ("real", "r", "complex", "c"):
        raise Unsupported("schur output")
    k = "c" if out[0] == "c" else kmax(x.kind, "f")
    if k != x.kind:
        x = x.with_kind(k)
    n, w = x.shape[0], "s" if srt is not None else ""
    g = m.ghost.get("schur")
    if g is not None and srt is not None and k != "c" and m.same_dim(n, g[0].shape[0]) and (words_equal(m, x, g[0]) or entries_equal(m, reduced(m, x), reduced(m, g[0]))) \
            and nonzero_first(m, srt):
        m.assumed.add(SCHUR_CANON)
        return (m.arr(g[1]), m.arr(g[2]), opaque_int("schurdim", sq_lam(x)))
    sl = sq_lam(x)
    Z = AV((n, n), k, lambda i, j: opaque("schurZ" + w, sl, (i, j), real=k != "c", attrs={"unitary": n}), tags={"unitary"})
    T = AV((n, n), k, lambda i, j: opaque("schurT" + w, sl, (i, j), real=k != "c"))
    if k == "c" and srt is None and unitary_tag(m, x):
        m.assumed.add(SCHUR_UNITARY)
        SCHUR_ARG[sym_key(opaque("schurarg", sl, (z3.IntVal(0),), real=True))] = (with_tags(x, {"unitary"}), Z, lambda s: opaque("schurarg", sl, (s,), real=True))
        T = AV((n, n), k, lambda i, j: sfun("exp", num(1j) * opaque("schurarg", sl, (i,), real=True)).guard(simp(i == j)), tags={"unitary"})
    r = (m.arr(T), m.arr(Z))
    return r + (opaque_int("schurdim", sl),) if srt is not None else r


SCHUR_ARG = {}
SCHUR_UNITARY = ("linalg.schur(U, output='complex') of a unitary matrix: T is diagonal with entries exp(i a_k), a_k real in (-pi, pi] (a normal "
                 "triangular matrix is diagonal)")
SCHUR_CANON = ("linalg.schur(A, sort=|z| > 1e-10) of a real antisymmetric matrix of even size: T is a direct sum of 2x2 antisymmetric blocks "
               "(non-zero eigenvalues come first, so that no block starts at an odd position)")


def nonzero_first(m, f):
    """the sort function selects the eigenvalues x + iy with |x + iy| > 1e-10"""
    if not isinstance(f, exe.Func):
        return False
    x, y = [Num([Term(ONE, (), (), [Atom(Sym(q, 0, real=True))])], "f") for q in ("re", "im")]
    r = m.call_func(f, [x, y], {})
    w = cmp(">", sabs(x + y * num(1j)), 1e-10)
    return is_bool(r) and valid([], zbool(r) == zbool(w))


@fn("numpy.argsort", trusted="argsort(x): a permutation of 0 .. n-1 (the order it puts the entries in is not modelled)")
def _argsort(m, a, kw):
    only(kw)
    x = m.av(a[0])
    if x.ndim != 1 or len(a) > 1:
        raise Unsupported("argsort")
    n = x.shape[0]
    p = family(1, lambda i: opaque_int("argsort", (zint(n), x.lam(), zint(i))))
    i, j = fresh("i"), fresh("j")
    m.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(n)), z3.And(p(i) >= 0, p(i) < zint(n)))))
    m.pc.append(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < zint(n), j >= 0, j < zint(n), i != j), p(i) != p(j))))
    return m.arr(AV((n,), "i", p))


@fn("numpy.sort", trusted="sort(x), 1-D: the entries of x in an order that is not modelled")
def _sort(m, a, kw):
    only(kw)
    x = m.av(a[0])
    if x.ndim != 1 or len(a) > 1:
        raise Unsupported("sort")
    p = m.read(_argsort(m, [a[0]], {}))
    return m.arr(AV(x.shape, x.kind, lambda i: x.at(zint(p.at(i)))))


@fn("numpy.linalg.matrix_rank")
def _rank(m, a, kw):
    only(kw, "tol", "hermitian")
    if kw or len(a) > 1:
        raise Unsupported("rank")
    x = m.av(a[0])
    return opaque_int("rank", tuple(zint(d) for d in x.shape) + (x.lam(),))


@fn("numpy.linalg.qr", trusted="linalg.qr(A), A square: A = Q R with Q unitary and R upper triangular")
def _qr(m, a, kw):
    only(kw)
    if len(a) > 1:
        raise Unsupported("qr mode")
    x = m.av(a[0])
    if x.ndim != 2 or not m.same_dim(x.shape[0], x.shape[1]):
        raise Unsupported("qr of a matrix that is not square")
    n, k = x.shape[0], kmax(x.kind, "f")
    sl = sq_lam(x)
    QR_OF[sym_key(opaque("qrQ", sl, (z3.IntVal(0), z3.IntVal(0)), real=k != "c", attrs={"unitary": n}))] = x
    Q = AV((n, n), k, lambda i, j: opaque("qrQ", sl, (i, j), real=k != "c", attrs={"unitary": n}), tags={"unitary"})
    R = AV((n, n), k, lambda i, j: opaque("qrR", sl, (i, j), real=k != "c").guard(simp(i <= j)))
    return (m.arr(Q), m.arr(R))


QR_OF = {}


def sym_key(e):
    return e.terms[0].atoms[0].sym.id


def completion_tags(m, x, y):
    """[x, Q[:, 1:]] is unitary if Q comes from the QR factorisation of a square matrix whose first column x is a unit vector
    (then x = Q[:, 0] R[0, 0] with |R[0, 0]| = 1)"""
    if x.ndim != 2 or y.ndim != 2 or not same(x.shape[1], 1):
        return set()
    i, j = fresh("i"), fresh("j")
    e = num(y.at(i, j))
    if len(e.terms) != 1 or e.terms[0].binders or e.terms[0].guards or e.terms[0].coef != ONE or len(e.terms[0].atoms) != 1:
        return set()
    at = e.terms[0].atoms[0]
    A = QR_OF.get(at.sym.id)
    if A is None or at.sym.fname != "qrQ" or at.conj or not same(at.idx[-2], i) or not same(at.idx[-1], j + 1):
        return set()
    if not m.same_dim(zint(y.shape[1]) + 1, A.shape[1]) or not m.same_dim(x.shape[0], A.shape[0]):
        return set()
    if not entries_equal(m, x, AV(x.shape, A.kind, lambda r, c: A.at(r, c))):
        return set()
    nrm = Sum(0, x.shape[0], lambda r: num(x.at(r, 0)).conj() * num(x.at(r, 0)))
    return {"unitary"} if N.prove_equal(nrm, num(1), m.pc)[0] == "proved" or normalised(m, nrm) else set()


def normalised(m, e):
    """e is (1/|v|)^2 sum v v* for a |v| that is not 0"""
    com, rest = pull(N.simplify(e.with_kind("f"), m.pc))
    if len(com) != 2 or com[0].key() != com[1].key() or com[0].sym.fname != "inv":
        return False
    r = sole_arg(Num([Term(ONE, (), (), [com[0]])], "f"), "inv")
    if r is None:
        return False
    s = sole_arg(r, "sqrt")
    return s is not None and N.prove_equal(rest, num(s), m.pc)[0] == "proved" and valid(m.pc, Not(zbool(allclose(m, scalar_av(m, r), scalar_av(m, num(0))))))


@fn("scipy.linalg.expm", trusted="linalg.expm: matrix exponential")
def _expm(m, a, kw):
    x = m.av(a[0])
    need_square(m, x, "ValueError")
    u = exp_known(m, x)
    if u is not None:
        return m.arr(u)
    t = struct_tags(m, x)
    tags = ({"unitary"} if "anti" in t else set()) | ({"herm", "psd", "pd"} if "herm" in t else set())
    at = {"unitary": x.shape[0]} if "unitary" in tags else {}
    if "herm" in tags:
        at["hermitian"] = True
    return m.arr(AV(x.shape, kmax(x.kind, "f"), lambda i, j: opaque("expm", sq_lam(x), (i, j), real=x.kind != "c", attrs=at), tags=tags))


def exp_known(m, x):
    """exp 0 = 1, exp(log U) = U, exp(Z diag(i a) Z^dagger) = U for the Schur form U = Z diag(exp(i a)) Z^dagger"""
    for U, Z, th in SCHUR_ARG.values():
        n = U.shape[0]
        if m.same_dim(n, x.shape[0]):
            for c, r in ((1j, U), (-1j, av_T(av_conj(U)))):
                if entries_equal(m, x, AV((n, n), "c", lambda i, j: Sum(0, n, lambda s: num(c) * th(s) * num(Z.at(i, s)) * num(Z.at(j, s)).conj()))):
                    return with_tags(r, {"unitary"})
    if entries_equal(m, x, AV(x.shape, "c", lambda i, j: num(0))):
        return eye_av(x.shape[0], k=kmax(x.kind, "f"))
    i, j = fresh("i"), fresh("j")
    try:
        e = N.simplify(num(x.at(i, j)), m.pc + [i >= 0, j >= 0, i < zint(x.shape[0]), j < zint(x.shape[0])])
    except Unsupported:
        return None
    if len(e.terms) != 1 or e.terms[0].binders or e.terms[0].guards or e.terms[0].coef != GQ(0, 1) or len(e.terms[0].atoms) != 1:
        return None
    at = e.terms[0].atoms[0]
    U = LOG_OF.get(at.sym.id)
    if U is None or at.conj or not same(at.idx[-2], i) or not same(at.idx[-1], j):
        return None
    return U


LOG_OF = {}


def unitary_tag(m, x):
    """the tag, or a proof from the entries that x x^dagger = 1"""
    if "unitary" in x.tags:
        return True
    if x.ndim != 2 or not m.same_dim(x.shape[0], x.shape[1]):
        return False
    y = av_T(av_conj(x))
    n = x.shape[0]
    return entries_equal(m, AV((n, n), "c", lambda i, j: Sum(0, n, lambda s: num(x.at(i, s)) * num(y.at(s, j)))), eye_av(n))


@fn("scipy.linalg.logm", trusted="linalg.logm: principal matrix logarithm; of a unitary matrix i times a Hermitian one, and expm(logm(U)) = U")
def _logm(m, a, kw):
    x = m.av(a[0])
    need_square(m, x, "ValueError")
    if unitary_tag(m, x):          # log of a unitary is i times a Hermitian matrix
        LOG_OF[sym_key(opaque("argm", sq_lam(x), (z3.IntVal(0), z3.IntVal(0)), attrs={"hermitian": True}))] = with_tags(x, {"unitary"})
        return m.arr(AV(x.shape, "c", lambda i, j: num(1j) * opaque("argm", sq_lam(x), (i, j), attrs={"hermitian": True}), tags={"anti"}))
    return m.arr(AV(x.shape, "c", lambda i, j: opaque("logm", sq_lam(x), (i, j))))


@fn("scipy.stats.entropy", trusted="stats.entropy(p,qk): sum p log(p/q) of the normalised vectors, -sum p log p without qk, with 0 log 0 = 0")
def _entropy(m, a, kw):
    only(kw, "qk")
    p = m.av(a[0])
    q = getk(a, kw, 1, "qk")
    if p.ndim != 1:
        raise Unsupported("entropy")
    if q is None:
        return opaque("entropy", (zint(p.shape[0]), p.lam()), real=True)
    q = m.av(q)
    p, q = m.broadcast(p, q)
    return opaque("relent", (zint(p.shape[0]), p.lam(), q.lam()), real=True)


@fn("numpy.max", "numpy.amax")
def _max(m, a, kw):
    if kw or len(a) > 1:
        raise Unsupported("max axis")
    x = m.av(a[0])
    return opaque("max", sq_lam(x), real=True, kind=x.kind)


@fn("numpy.min", "numpy.amin")
def _min(m, a, kw):
    if kw or len(a) > 1:
        raise Unsupported("min axis")
    x = m.av(a[0])
    return opaque("min", sq_lam(x), real=True, kind=x.kind)


@fn("numpy.count_nonzero")
def _cnz(m, a, kw):
    x = tobool_av(m.av(a[0]))
    tot = _sum(m, [m.arr(x)], {})
    r = as_int_opt(tot)
    return r if r is not None else opaque_int("count", (tot,))


@fn("numpy.nonzero")
def _nonzero(m, a, kw):
    x = m.av(a[0])
    if x.ndim != 1:
        raise Unsupported("nonzero")
    n = _cnz(m, [a[0]], {})
    return (m.arr(AV((n,), "i", lambda i: opaque("nonzero", sq_lam(x), (i,), real=True))),)


@fn("numpy.isscalar")
def _isscalar(m, a, kw):
    return is_scalar(a[0]) or isinstance(a[0], str)


@fn("math.factorial")
def _factorial(m, a, kw):
    n = as_int(a[0])
    return factorial(n)


@fn("numpy.set_printoptions", "numpy.get_printoptions")
def _po(m, a, kw):
    raise Unsupported("print options")


@fn("itertools.permutations")
def _perms(m, a, kw):
    if len(a) != 1 or kw:
        raise Unsupported("permutations")
    if isinstance(a[0], Rng) and a[0].step == 1 and same(a[0].lo, 0):
        return Perms(a[0].hi)
    raise Unsupported("permutations")


@fn("itertools.chain.from_iterable")
def _chain(m, a, kw):
    if len(a) != 1 or kw:
        raise Unsupported("chain")
    n, item, perm = m.iterable(a[0])
    if perm is not None:
        raise Unsupported("chain")

    def unpacked(k):
        c, it, p = m.iterable(item(k))
        if p is not None or not (isinstance(c, int) and c <= 64):
            raise Unsupported("chain of sequences of unknown length")
        return [m.freeze(it(q)) for q in range(c)]
    if isinstance(n, int) and n <= 64:
        return m.lst(LV([x for k in range(n) for x in unpacked(k)]))
    k = fresh("c")
    m.pc.append(z3.And(k >= 0, k < zint(n)))
    try:
        vs = m.pure_eval(lambda: tuple(unpacked(k)))
    finally:
        m.pc.pop()
    if not isinstance(vs, tuple) or not vs:
        raise Unsupported("chain")
    return m.lst(m.repeated(vs, k, n))


@fn("itertools.product")
def _product(m, a, kw):
    if len(a) == 1 and set(kw) == {"repeat"}:
        lv = m.to_lv(a[0])
        if lv.items is None:
            raise Unsupported("product")
        n = simp(kw["repeat"])
        items = [m.freeze(x) for x in lv.items]
        if isinstance(n, int) and len(items) ** n <= 64:
            import itertools
            return m.lst(LV([tuple(m.thaw(y) for y in t) for t in itertools.product(items, repeat=n)]))
        return ItProd(items, n)
    if len(a) == 2 and not kw:
        x, y = m.to_lv(a[0]), m.to_lv(a[1])
        if x.items is not None and y.items is not None:
            return m.lst(LV([(p, q) for p in x.items for q in y.items]))
        if isinstance(a[0], Rng) and isinstance(a[1], Rng) and a[0].step == a[1].step == 1:
            return exe.Prod2(a[0], a[1])
    raise Unsupported("product")


@fn("numpy.identity")
def _identity(m, a, kw):
    return _eye(m, a, kw)


@fn("numpy.ndindex")
def _ndindex(m, a, kw):
    if len(a) == 2:
        return exe.Prod2(Rng(0, as_int(a[0])), Rng(0, as_int(a[1])))
    raise Unsupported("ndindex")


@fn("numpy.ix_")
def _ix(m, a, kw):
    return LV(list(a), prov=("mesh",))


@fn("numpy.einsum")
def _einsum(m, a, kw):
    if kw or not isinstance(a[0], str):
        raise Unsupported("einsum")
    spec = a[0].replace(" ", "")
    if "..." in spec or "->" not in spec:
        raise Unsupported("einsum")
    ins, out = spec.split("->")
    ins = ins.split(",")
    xs = [m.av(x) for x in a[1:]]
    dims = {}
    for s, x in zip(ins, xs):
        if len(s) != x.ndim:
            raise Unsupported("einsum")
        for ch, d in zip(s, x.shape):
            if ch in dims and not m.same_dim(dims[ch], d):
                raise Unsupported("einsum dimensions")
            dims.setdefault(ch, d)
    summed = [c for c in dims if c not in out]
    k = kmax(*[x.kind for x in xs])

    def el(*i):
        env = dict(zip(out, i))

        def go(rest, env):
            if not rest:
                r = num(1)
                for s, x in zip(ins, xs):
                    r = r * tonum(x.at(*[env[c] for c in s]))
                return r
            return Sum(0, dims[rest[0]], lambda v: go(rest[1:], {**env, rest[0]: zint(v)}))
        return go(summed, env)
    r = AV(tuple(dims[c] for c in out), k, el)
    return m.arr(r) if out else r.at()


# -------------------------------------------------------------------------------------------------------- builtins
def b_len(m, a, kw):
    v = a[0]
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, Lst):
        return m.heap[v.box].length
    if isinstance(v, LV):
        return v.length
    if isinstance(v, Arr):
        x = m.read(v)
        if x.ndim == 0:
            raise Raised("TypeError")
        return x.shape[0]
    if isinstance(v, Rng):
        return v.length()
    if isinstance(v, ItProd):
        return v.length()
    if isinstance(v, SetH):
        return graphs.card(m.heap[v.box])
    if isinstance(v, graphs.GraphV):
        return graphs.nat(graphs.NODES(v.g))
    if is_scalar(v) or v is None:
        raise Raised("TypeError")
    raise Unsupported(f"len of {type(v).__name__}")


def b_range(m, a, kw):
    xs = []
    for x in a:
        if isinstance(x, Num) or isinstance(x, float):
            raise Raised("TypeError")
        if not (is_int(x) or isinstance(x, bool)):
            raise Raised("TypeError")
        xs.append(simp(x))
    if len(xs) == 1:
        return Rng(0, xs[0])
    if len(xs) == 2:
        return Rng(xs[0], xs[1])
    if not isinstance(xs[2], int) or xs[2] == 0:
        raise Unsupported("range step")
    return Rng(*xs)


def b_abs(m, a, kw):
    return FUNCS["numpy.abs"](m, a, kw)


def type_names(v, m):
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return {"bool", "int"}
    if is_int(v):
        return {"int"}
    if isinstance(v, float):
        return {"float"}
    if isinstance(v, complex):
        return {"complex"}
    if isinstance(v, Num):
        if getattr(m, "npscalars", False):
            raise Unsupported("type of a number")
        return {"i": {"int", "np.integer", "np.number"}, "f": {"float", "np.floating", "np.number"}, "c": {"complex", "np.complexfloating", "np.number"}}[v.kind]
    if isinstance(v, (Lst, LV)):
        return {"list"}
    if isinstance(v, tuple):
        return {"tuple"}
    if isinstance(v, Arr):
        return {"np.ndarray"}
    if isinstance(v, (str, Str)):
        return {"str"}
    if v is None:
        return {"NoneType"}
    if isinstance(v, DictV_):
        return {"dict"}
    raise Unsupported(f"type of {type(v).__name__}")


DictV_ = exe.DictV


def b_isinstance(m, a, kw):
    v, t = a
    ts = list(t) if isinstance(t, tuple) else [t]
    names = type_names(v, m)
    for x in ts:
        if isinstance(x, tuple):
            if b_isinstance(m, [v, x], {}):
                return True
        elif isinstance(x, TypeRef):
            if x.name in names:
                return True
        elif isinstance(x, ModRef):
            n = canon(x.name)
            if n.startswith("networkx."):
                continue
            raise Unsupported(f"isinstance {n}")
        else:
            raise Unsupported("isinstance")
    return False


def b_int(m, a, kw):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, str):
        raise Unsupported("int of a string")
    if isinstance(v, Arr):
        x = m.read(v)
        v = x.at(*([0] * x.ndim))
    r = as_int_opt(v)
    if r is not None:
        return r
    v = num(v)
    c = v.const()
    if c is not None and c.im == 0:
        import math
        return math.trunc(c.re)
    if v.kind == "c":
        raise Raised("TypeError")
    q = int_quotient(v)
    if q is not None:
        x, y = q
        if valid(m.pc, zint(x) >= 0) and valid(m.pc, zint(y) > 0):
            return pick(m.pc, simp(zint(x) / zint(y)))
    t = opaque_int("trunc", (v,))
    try:
        rv = N.to_real(v)
        N.add_fact(z3.Implies(rv >= 0, z3.And(z3.ToReal(t) <= rv, rv < z3.ToReal(t) + 1)))
        N.add_fact(z3.Implies(rv <= 0, z3.And(z3.ToReal(t) >= rv, rv > z3.ToReal(t) - 1)))
    except Unsupported:
        pass
    return t


def pick(gamma, e):
    """the branch of a conditional integer that the hypotheses select"""
    while isinstance(e, z3.ExprRef) and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        if valid(gamma, c):
            e = simp(a)
        elif valid(gamma, z3.Not(c)):
            e = simp(b)
        else:
            break
    return e


def quotient_eq(m, a, b):
    """a == b where one side is a quotient of integers and the other its integer part; None if not of this form"""
    for p, q in ((a, b), (b, a)):
        if is_int(p) and isinstance(q, Num):
            r = int_quotient(q)
            if r is None:
                continue
            x, y = zint(r[0]), zint(r[1])
            if not valid(m.pc, y > 0):
                continue
            fl = pick(m.pc, simp(x / y))
            if zint(fl).eq(zint(simp(p))):
                return pick(m.pc, simp(x % y == 0)) if not isinstance(fl, int) else simp(x == fl * y)
            return simp(zint(p) * y == x)
    return None


def int_quotient(v):
    """(x, y) with v = x / y for integers"""
    if len(v.terms) >= 1 and all(t.coef.im == 0 and not t.binders for t in v.terms):
        dens = 1
        for t in v.terms:
            dens = dens * t.coef.re.denominator // __import__("math").gcd(dens, t.coef.re.denominator)
        w = v * num(dens)
        i = as_int_opt(w)
        if i is not None:
            return i, dens
    if len(v.terms) == 1 and len(v.terms[0].atoms) == 1 and v.terms[0].coef == GQ(1) and not v.terms[0].guards:
        s = v.terms[0].atoms[0]
        if s.sym.fname == "idiv":
            h = list(zip(s.sym.holes, s.idx))
            return tuple(z3.substitute(zint(x), *h) if h else x for x in s.sym.args)
    return None


def b_float(m, a, kw):
    v = a[0]
    if isinstance(v, (str, Str)):
        raise Unsupported("float of a string")
    v = num(v)
    if v.kind == "c":
        raise Raised("TypeError")
    return v.with_kind("f")


def b_complex(m, a, kw):
    v = num(a[0])
    if len(a) > 1:
        v = v + num(a[1]) * I
    return v.with_kind("c")


def b_minmax(small):
    def f(m, a, kw):
        if len(a) == 1:
            v = a[0]
            if isinstance(v, Arr):
                x = m.read(v)
                return opaque("min" if small else "max", sq_lam(x), real=True, kind=x.kind)
            lv = m.to_lv(v)
            if lv.items is None or not lv.items:
                raise Unsupported("min/max of a symbolic list")
            xs = lv.items
        else:
            xs = list(a)
        r = xs[0]
        for x in xs[1:]:
            c = m.cmpop(ast.Lt() if small else ast.Gt(), x, r)
            r = merge_val(c, x, r)
        return r
    return f


def b_sum(m, a, kw):
    v = a[0]
    start = a[1] if len(a) > 1 else 0
    if isinstance(v, Arr):
        return m.binop(ast.Add(), start, _sum(m, [v], {})) if m.read(v).ndim == 1 else _nosum()
    if isinstance(v, Rng) and not isinstance(v.length(), int):
        raise Unsupported("sum of a range")
    lv = m.to_lv(v)
    if lv.items is not None:
        r = start
        for x in lv.items:
            r = m.binop(ast.Add(), r, x)
        return r
    if piece_of(lv) is not None:
        v = piece_of(lv).value
        if not is_scalar(v):
            raise Unsupported("sum of filtered items")
        tot = piece_of(lv).total(tonum)
        if kind_of(v) in "bi" and is_int(start):
            return simp(zint(start) + opaque_int("isum", (tot,)))
        return m.binop(ast.Add(), start, tot)
    x = m.freeze(lv.at(fresh("p")))
    if isinstance(x, AV):
        n = lv.length
        y = AV(x.shape, x.kind, lambda *i: Sum(0, n, lambda s: num(m.av(m.freeze(lv.at(zint(s)))).at(*i))))
        if valid(m.pc, zint(n) >= 1) and is_int(start) and same(start, 0):
            return m.arr(y)
        raise Unsupported("sum of a possibly empty list of arrays")
    if not is_scalar(x):
        raise Unsupported("sum")
    tot = Sum(0, lv.length, lambda s: num(lv.at(zint(s))))
    if kind_of(x) in "bi" and is_int(start):
        i = as_int_opt(tot)
        return simp(zint(start) + (zint(i) if i is not None else opaque_int("isum", (tot,))))
    return num(start) + tot


def _nosum():
    raise Unsupported("sum over rows")


def b_all_(m, a, kw):
    lv = m.to_lv(a[0])
    if lv.items is not None:
        r = [x if is_bool(x) else m.truth(x) for x in lv.items]
        return simp(And(*r))
    j = fresh("j")
    b = lv.at(j)
    if not is_bool(b):
        raise Unsupported("all")
    return simp(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(lv.length)), zbool(b))))


def b_any_(m, a, kw):
    lv = m.to_lv(a[0])
    if lv.items is not None:
        r = [x if is_bool(x) else m.truth(x) for x in lv.items]
        return simp(Or(*r))
    j = fresh("j")
    b = lv.at(j)
    if not is_bool(b):
        raise Unsupported("any")
    return simp(z3.Exists([j], z3.And(j >= 0, j < zint(lv.length), zbool(b))))


def b_round(m, a, kw):
    v = a[0]
    d = getk(a, kw, 1, "ndigits")
    if isinstance(v, (int, float)) and (d is None or isinstance(d, int)):
        return round(v) if d is None else round(v, d)
    if is_int(v):
        return v
    v = num(v)
    if d is None:
        i = as_int_opt(v)
        if i is not None:
            return i
        return opaque_int("rint", (v,))
    return sround(v, simp(as_int(d)))


def b_enumerate(m, a, kw):
    return Enum(a[0], getk(a, kw, 1, "start", 0))


def b_reversed(m, a, kw):
    v = a[0]
    lv = m.to_lv(v) if not isinstance(v, Rng) else None
    if lv is not None and lv.items is not None:
        return LV(list(reversed(lv.items)))
    n = v.length() if isinstance(v, Rng) else lv.length
    at = v.at if isinstance(v, Rng) else lv.at
    return LV(None, n, lambda k: at(simp(zint(n) - 1 - zint(k))))


def b_list(m, a, kw):
    if not a:
        return m.lst(LV([]))
    v = a[0]
    if isinstance(v, ItProd):
        return m.lst(LV(None, v.length(), v.at))
    if isinstance(v, Perms):
        return v
    return m.lst(m.to_lv(v))


def b_tuple(m, a, kw):
    if not a:
        return ()
    lv = m.to_lv(a[0])
    if lv.items is None:
        return lv
    return tuple(lv.items)


def b_hasattr(m, a, kw):
    v, n = a
    if isinstance(v, Arr) and n in ("imag", "real", "shape", "dtype", "T"):
        return True
    raise Unsupported("hasattr")


def b_sorted(m, a, kw):
    raise Unsupported("sorted")


BUILTINS.update({"len": b_len, "range": b_range, "abs": b_abs, "isinstance": b_isinstance, "min": b_minmax(True), "max": b_minmax(False),
                 "sum": b_sum, "all": b_all_, "any": b_any_, "round": b_round, "enumerate": b_enumerate, "reversed": b_reversed,
                 "hasattr": b_hasattr, "sorted": b_sorted, "zip": lambda m, a, kw: Zip(list(a)),
                 "pow": lambda m, a, kw: m.binop(ast.Pow(), a[0], a[1]), "callable": lambda m, a, kw: isinstance(a[0], (exe.Func, exe.Builtin)),
                 "type": lambda m, a, kw: TypeOf(type_names(a[0], m)), "print": lambda m, a, kw: None,
                 "divmod": lambda m, a, kw: (m.binop(ast.FloorDiv(), *a), m.binop(ast.Mod(), *a)),
                 "slice": lambda m, a, kw: ("slice", *([None] + list(a) if len(a) == 1 else list(a)), *([None] * (3 - max(2, len(a))))),
                 "repr": lambda m, a, kw: Str()})


class TypeOf:
    def __init__(self, names):
        self.names = names


def construct(m, name, a, kw):
    if name == "int":
        return b_int(m, a, kw)
    if name == "float":
        return b_float(m, a, kw)
    if name == "complex":
        return b_complex(m, a, kw)
    if name == "bool":
        v = a[0]
        return v if is_bool(v) else m.truth(v)
    if name == "list":
        return b_list(m, a, kw)
    if name == "set":
        return graphs.new_set(m, a, kw)
    if name == "tuple":
        return b_tuple(m, a, kw)
    if name == "str":
        if len(a) == 1 and isinstance(a[0], str):
            return a[0]
        return Str(parts=[("fmt", m.freeze(a[0]), ("str",))]) if len(a) == 1 and not isinstance(a[0], Str) else a[0] if a else ""
    if name.startswith("np."):
        t = name[3:]
        if t in ("int64", "int32"):
            return b_int(m, a, kw)
        if t in ("float64",):
            return b_float(m, a, kw)
        if t in ("complex128",):
            return b_complex(m, a, kw)
        if t == "matrix":
            return mk_array(m, a[0], None, True)
    if name in exe.BUILTIN_EXC:
        return TypeRef(name)
    raise Unsupported(f"constructor {name}")


# -------------------------------------------------------------------------------------------------- attributes, methods
def attribute(m, v, name):
    if isinstance(v, graphs.GraphV):
        return graphs.attribute(m, v, name)
    if isinstance(v, Arr):
        x = m.read(v)
        if name == "shape":
            return x.shape
        if name == "ndim":
            return x.ndim
        if name == "size":
            r = z3.IntVal(1)
            for d in x.shape:
                r = r * zint(d)
            return simp(r)
        if name == "T":
            if x.ndim < 2:
                return v
            if x.prov is not None:
                return m.viewof(v, av_T(x))
            return view_T(m, v, x)
        if name == "dtype":
            return Dtype(x.kind)
        if name == "real":
            w = real_word(m, x) if x.kind == "c" else None
            return m.viewof(v, w if w is not None else AV(x.shape, "f", lambda *i: num(x.at(*i)).real())) if x.kind == "c" else v
        if name == "imag":
            w = real_word(m, scaled_word(x, num(-1j), exe_scale(x, num(-1j)))) if x.kind == "c" else None
            if w is not None:
                return m.viewof(v, w)
            r = AV(x.shape, "f" if x.kind == "c" else x.kind, lambda *i: num(x.at(*i)).imag())
            return m.viewof(v, r) if x.kind == "c" else m.arr(r)
        if name == "flat":
            return method(m, v, "flatten", [], {})
    if is_scalar(v):
        if name == "real":
            return num(v).real() if not isinstance(v, (int, float)) else v
        if name == "imag":
            return num(v).imag() if not isinstance(v, (int, float)) else 0
        if name == "dtype":
            return Dtype(kind_of(v))
    if isinstance(v, Dtype):
        if name == "kind":
            return v.kind
        if name == "type":
            return TypeRef({"i": "int", "f": "float", "c": "complex", "b": "bool"}[v.kind])
    if isinstance(v, TypeOf) and name == "__name__":
        return Str()
    if isinstance(v, (TypeRef,)) and name == "__name__":
        return v.name
    raise Unsupported(f"attribute {name} of {type(v).__name__}")


def view_T(m, v, x):
    if x.tags or x.mm is not None:
        return m.viewof(v, av_T(x))
    if v.vmap is None:
        return Arr(v.box, lambda i, j: [j, i], (x.shape[1], x.shape[0]), [("d", 1, 0, 1), ("d", 0, 0, 1)])
    pv = v.vmap
    pl = None if v.plan is None else [p if p[0] == "i" else ("d", 1 - p[1]) + tuple(p[2:]) for p in v.plan]
    return Arr(v.box, lambda i, j: pv(j, i), (x.shape[1], x.shape[0]), pl)


def end_item(m, lv, last):
    """the last (first) item of a filtered list that is not empty: there is an iteration that satisfies the condition, and a last one"""
    p = piece_of(lv).renamed()
    if len(p.binders) != 1 or p.binders[0][2] or depends_opaque(p.guard):
        raise Unsupported("item of a filtered list")
    v, n, _ = p.binders[0]
    h, j = fresh("h"), fresh("j")
    at = lambda e: zbool(subst_val(p.guard, [(v, e)]))
    m.pc.append(And(h >= 0, h < zint(n), at(h)))
    m.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(n), j > h if last else j < h), z3.Not(at(j)))))
    return subst_val(p.value, [(v, h)])


def depends_opaque(g):
    return is_z3(g) and bool(N.soft_expr(g))


def method(m, v, name, a, kw):
    if isinstance(v, rng.Gen):
        return rng.method(m, v, name, a, kw)
    if isinstance(v, graphs.GraphV):
        return graphs.method(m, v, name, a, kw)
    if isinstance(v, rng.Tableau) and "stim.Tableau." + name in FUNCS:
        m.assumed.add("stim.Tableau." + name)
        return FUNCS["stim.Tableau." + name](m, [v] + list(a), kw)
    if isinstance(v, SetH):
        return graphs.set_method(m, v, name, a, kw)
    if isinstance(v, graphs.Sparse) and name in ("toarray", "todense") and not a and not kw:
        return m.arr(v.av)
    if isinstance(v, Lst):
        if name == "append":
            m.write(v.box, m.lcat(m.heap[v.box], LV([a[0]])))
            return None
        if name == "extend":
            m.write(v.box, m.lcat(m.heap[v.box], m.to_lv(a[0])))
            return None
        if name == "copy":
            return m.lst(m.heap[v.box])
        if name == "reverse":
            m.write(v.box, b_reversed(m, [v], {}))
            return None
        if name == "pop" and not kw:
            lv = m.heap[v.box]
            last = not a or a[0] == -1
            if not last and a[0] != 0:
                raise Unsupported("list method pop")
            if lv.items is not None:
                if not lv.items:
                    raise exe.Raised("IndexError")
                m.write(v.box, LV(list(lv.items[:-1] if last else lv.items[1:])))
                return lv.items[-1 if last else 0]
            if m.branch(simp(zint(lv.length) <= 0)):
                raise exe.Raised("IndexError")
            rest = simp(zint(lv.length) - 1)
            if lv.prov is not None and lv.prov[0] == "filter":
                x = end_item(m, lv, last)

                def no(k):
                    raise Unsupported("item of a filtered list")
                m.write(v.box, LV(None, rest, no))
                return m.thaw_elem(x)
            x = lv.at(rest if last else 0)
            m.write(v.box, LV(None, rest, lv.elem if last else lambda k: lv.at(simp(zint(k) + 1))))
            return m.thaw_elem(x)
        raise Unsupported(f"list method {name}")
    if isinstance(v, Arr):
        x = m.read(v)
        if name in ("conj", "conjugate"):
            return m.arr(av_conj(x)) if x.kind == "c" else m.arr(x)      # tags are kept
        if name == "transpose":
            if a:
                raise Unsupported("transpose axes")
            return attribute(m, v, "T")
        if name == "copy":
            return m.arr(x)
        if name == "astype":
            k = dtype_kind(a[0])
            return mk_array(m, v, Dtype(k), True)
        if name == "trace":
            return tr(m, x)
        if name == "dot":
            return _dot(m, [v] + a, kw)
        if name == "sum":
            return _sum(m, [v] + a, kw)
        if name == "any":
            return _any(m, [v] + a, kw)
        if name == "all":
            return _all(m, [v] + a, kw)
        if name == "max":
            return _max(m, [v] + a, kw)
        if name == "min":
            return _min(m, [v] + a, kw)
        if name == "prod":
            return _prod(m, [v] + a, kw)
        if name == "diagonal":
            return _diag(m, [v], {})
        if name == "round":
            return _round(m, [v] + a, kw)
        if name == "tolist" and x.ndim:
            return m.lst(av_list(x))
        if name == "item" and not a:
            return x.at(*([0] * x.ndim))
        if name == "ravel":
            return m.viewof(v, m.read(method(m, v, "flatten", a, kw)))
        if name == "flatten":
            if x.ndim == 1:
                return m.arr(x)
            if x.ndim == 2:
                r, c = x.shape
                if same(c, 1):
                    return m.arr(AV((r,), x.kind, lambda i: x.at(i, 0)))
                if same(r, 1):
                    return m.arr(AV((c,), x.kind, lambda i: x.at(0, i)))
                return m.arr(AV((simp(zint(r) * zint(c)),), x.kind, lambda i: x.at(idiv(i, c), imod(i, c))))
        if name == "reshape":
            sh = a[0] if len(a) == 1 and isinstance(a[0], tuple) else tuple(a)
            r = reshape(m, x, sh)
            return m.viewof(v, m.read(r))
        if name == "fill":
            m.store(v, AV(x.shape, x.kind, lambda *i: castnum(num(a[0]), x.kind)))
            return None
        if name == "sort" and not a and not kw and x.ndim == 1:
            m.store(v, m.read(_sort(m, [v], {})))
            return None
        raise Unsupported(f"array method {name}")
    if is_scalar(v):
        if name in ("conj", "conjugate"):
            return num(v).conj()
        if name == "item":
            return v
        if isinstance(v, float) and name == "is_integer":
            return v.is_integer()
    if isinstance(v, (str, Str)):
        return Str()
    raise Unsupported(f"method {name} of {type(v).__name__}")


def av_list(x):
    """nested list of the entries"""
    if x.ndim == 1:
        return LV(None, x.shape[0], lambda k: x.at(zint(k)))
    return LV(None, x.shape[0], lambda k: av_list(AV(x.shape[1:], x.kind, lambda *i: x.at(zint(k), *i))))


@fn("numpy.reshape")
def _reshape(m, a, kw):
    x = m.av(a[0])
    sh = a[1] if isinstance(a[1], tuple) else (tuple(m.to_lv(a[1]).items) if isinstance(a[1], Lst) else (a[1],))
    r = reshape(m, x, sh)
    return m.viewof(a[0], m.read(r)) if isinstance(a[0], Arr) else r


@fn("numpy.ravel")
def _ravel(m, a, kw):
    return method(m, a[0], "flatten", [], {})


def reshape(m, x, sh):
    sh = tuple(simp(as_int(d)) for d in sh)
    size = z3.IntVal(1)
    for d in x.shape:
        size = size * zint(d)
    size = simp(size)
    if any(isinstance(d, int) and d == -1 for d in sh):
        rest = [d for d in sh if not (isinstance(d, int) and d == -1)]
        if len(rest) != len(sh) - 1:
            raise Raised("ValueError")
        p = z3.IntVal(1)
        for d in rest:
            p = p * zint(d)
        p = simp(p)
        if same(p, 1):
            q = size
        elif isinstance(p, int) and isinstance(size, int):
            q = size // p
        else:
            q = None
            for d in x.shape:
                if all(same(e, 1) for e in x.shape if e is not d) and same(p, d):
                    q = 1
            if q is None:
                q = simp(zint(size) / zint(p))
        sh = tuple(q if (isinstance(d, int) and d == -1) else d for d in sh)
    if x.ndim == 1 and len(sh) == 2:
        r, c = sh
        tot = simp(zint(r) * zint(c))
        if not m.same_dim(tot, size):
            if not m.branch(zint(tot) == zint(size)):
                raise Raised("ValueError")
        if same(c, 1):
            return m.arr(AV(sh, x.kind, lambda i, j: x.at(i)))
        if same(r, 1):
            return m.arr(AV(sh, x.kind, lambda i, j: x.at(j)))
        return m.arr(AV(sh, x.kind, lambda i, j: x.at(simp(i * zint(c) + j))))
    if x.ndim == 2 and len(sh) == 2:
        if all(m.same_dim(p, q) for p, q in zip(x.shape, sh)):
            return m.arr(x)
        if same(x.shape[0], 1) and same(sh[1], 1) and m.same_dim(x.shape[1], sh[0]):
            return m.arr(AV(sh, x.kind, lambda i, j: x.at(0, i)))
        if same(x.shape[1], 1) and same(sh[0], 1) and m.same_dim(x.shape[0], sh[1]):
            return m.arr(AV(sh, x.kind, lambda i, j: x.at(j, 0)))
    if len(sh) == 1 and x.ndim == 2:
        return method(m, m.arr(x), "flatten", [], {})
    raise Unsupported("reshape")


import rng  # noqa: E402
import graphs  # noqa: E402
