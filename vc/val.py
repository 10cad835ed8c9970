"""Values of the symbolic executor: arrays, lists, functions, and operations on them that need no program state."""
import z3
from num import (Num, num, ite, Sum, Lam, Unsupported, zint, zbool, And, Or, Not, fresh, opaque, opaque_int, pred, cmp, kmax,
                 sqrt_const, int_num, GQ, I, Fr, occurs, INTSYM, Term, ONE, Atom, Sym)


def simp(e):
    """integer expression, as a python int when constant"""
    if isinstance(e, (bool, int)):
        return e
    if isinstance(e, z3.ExprRef):
        s = z3.simplify(e)
        if z3.is_int_value(s):
            return s.as_long()
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return s
    return e


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, z3.ArithRef) and x.is_int())


def is_bool(x):
    return isinstance(x, (bool, z3.BoolRef))


def is_scalar(x):
    return isinstance(x, (int, float, complex, Num, Fr, z3.ArithRef, z3.BoolRef))


def kind_of(x):
    if isinstance(x, Num):
        return x.kind
    if isinstance(x, (bool, z3.BoolRef)):
        return "b"
    if is_int(x):
        return "i"
    if isinstance(x, (float, Fr)):
        return "f"
    if isinstance(x, complex):
        return "c"
    if isinstance(x, AV):
        return x.kind
    raise Unsupported(f"kind of {type(x).__name__}")


class AV:
    """immutable array value: shape, kind b/i/f/c, elem: indices -> Num (or z3 Bool for kind b)"""
    __slots__ = ("shape", "kind", "elem", "prov", "_memo", "tags", "mm", "conc")

    def __init__(self, shape, kind, elem, prov=None, tags=frozenset()):
        self.tags = frozenset(tags)         # proven facts: unitary, herm, anti (anti-Hermitian), psd, trace1
        self.mm = None                      # factors, if the value was computed as a matrix product
        self.conc = None                    # cache of npm.concrete
        self.shape = tuple(simp(d) for d in shape)
        self.kind = kind
        self._memo = {}
        self.prov = prov
        self.elem = elem

    def at(self, *idx):
        idx = tuple(zint(i) for i in idx)
        key = tuple(i.get_id() for i in idx)
        if key not in self._memo:
            r = self.elem(*idx)
            if self.kind == "b":
                r = r if is_bool(r) else simp(cmp("!=", r, 0))
            else:
                r = num(r).with_kind(self.kind)
            self._memo[key] = (r, idx)
        return self._memo[key][0]

    @property
    def ndim(self):
        return len(self.shape)

    def lam(self):
        def f(*v):
            x = self.at(*v)
            return num(x) if is_bool(x) else x
        return Lam(self.ndim, f, self.shape)

    def skel_parts(self):
        return (self.shape, self.lam())

    def with_kind(self, k):
        if k == self.kind:
            return self
        if self.prov is not None and self.prov[0] == "filter" and self.kind != "b" and k != "b":
            return piece_av(self.prov[1].map(lambda v: num(v).with_kind(k)))
        if self.kind == "b":
            return AV(self.shape, k, lambda *i: num(self.at(*i)))
        r = AV(self.shape, k, self.at, self.prov, self.tags if kmaxk(self.kind, k) == k else ())
        r.mm = self.mm
        return r


def kmaxk(a, b):
    return max(a, b, key="bifc".index)


class Arr:
    """mutable array: a box of the heap, possibly seen through a view"""
    __slots__ = ("box", "vmap", "vshape", "plan")

    def __init__(self, box, vmap=None, vshape=None, plan=None):
        self.box, self.vmap, self.vshape = box, vmap, vshape
        self.plan = plan            # of a view: per dimension of the box ("i", index) or ("d", dimension of the view, start, step)


class LV:
    """immutable list value: concrete items, or symbolic (length, elem)"""
    __slots__ = ("items", "length", "elem", "prov", "fact")

    def __init__(self, items=None, length=None, elem=None, prov=None, fact=None):
        self.items = items
        self.fact = fact                # ("car", n): raising and lowering operators of n modes with the anticommutation relations
        self.length = len(items) if items is not None else simp(length)
        self.elem = elem
        self.prov = prov

    def at(self, k):
        k = simp(k)
        if self.items is not None:
            if isinstance(k, int):
                if not -len(self.items) <= k < len(self.items):
                    raise Unsupported("list index out of range")
                return self.items[k]
            if not self.items:
                raise Unsupported("item of an empty list")
            r = self.items[-1]
            for j in range(len(self.items) - 2, -1, -1):
                r = merge_val(k == j, self.items[j], r)
            return r
        if isinstance(k, int) and k < 0:
            k = simp(zint(self.length) + k)
        return self.elem(k)

    def skel_parts(self):
        if self.items is not None:
            return tuple(self.items)
        return (self.length, Lam(1, lambda k: self.at(k), (self.length,)))


class Piece:
    """the items of a filtered (nested) iteration in order: value, for all values of the binders with guard

    binders: ((variable, number of iterations, is it a permutation), ...) from the outermost to the innermost"""
    __slots__ = ("binders", "guard", "value")

    def __init__(self, binders, guard, value):
        self.binders, self.guard, self.value = tuple(binders), simp(guard), value

    def map(self, f):
        return Piece(self.binders, self.guard, f(self.value))

    def renamed(self):
        """the same items with binder variables of its own"""
        p = self
        for i in range(len(p.binders)):
            v, n, perm = p.binders[i]
            if perm:
                return p
            w = fresh("b")
            p = Piece(p.binders[:i] + ((w, n, perm),) + tuple((a, subst_val(b, [(v, w)]), c) for a, b, c in p.binders[i + 1:]),
                      subst_val(p.guard, [(v, w)]), subst_val(p.value, [(v, w)]))
        return p

    def subst(self, pairs, fpairs=()):
        p = self.renamed()
        return Piece([(v, subst_val(n, pairs, fpairs), perm) for v, n, perm in p.binders], subst_val(p.guard, pairs, fpairs), subst_val(p.value, pairs, fpairs))

    def total(self, f):
        """sum of f over the items"""
        import num as N
        p = self.renamed()
        r = num(f(p.value))
        if p.guard is not True:
            r = ite(p.guard, r, num(0).with_kind(r.kind)).with_kind(r.kind)
        for v, n, perm in reversed(p.binders):
            r = N.bind_perm(v, n, r) if perm else N.bind(v, 0, n, r)
        return r

    def count(self):
        if self.guard is True and len(self.binders) == 1 and not self.binders[0][2]:
            return self.binders[0][1]
        import num as N
        c = opaque_int("isum", (self.total(lambda v: num(1)),))
        if is_z3(c):
            N.add_fact(c >= 0)
            if len(self.binders) == 1 and not self.binders[0][2] and is_z3(self.guard) and not N.soft_expr(self.guard):
                v, n, _ = self.binders[0]                                  # no item: the condition never holds
                j = z3.Int("cj!")
                g = z3.And(j >= 0, j < zint(n), z3.substitute(self.guard, (v, j)))
                N.add_fact(z3.Implies(c == 0, z3.ForAll([j], z3.Not(g))))
        return c

    def lv(self):
        """list value"""
        if self.guard is True and len(self.binders) == 1 and not self.binders[0][2]:
            v, n, _ = self.binders[0]
            return LV(None, n, lambda k: subst_val(self.value, [(v, zint(k))]))

        def no(k):
            raise Unsupported("item of a filtered list")
        return LV(None, self.count(), no, ("filter", self))


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def piece_of(v):
    return v.prov[1] if isinstance(v, (AV, LV)) and v.prov is not None and v.prov[0] == "filter" else None


def piece_av(p):
    """1-D array of the items"""
    if p.guard is True and len(p.binders) == 1 and not p.binders[0][2]:
        v, n, _ = p.binders[0]
        return AV((n,), kind_of(p.value), lambda k: subst_val(num(p.value), [(v, k)]))

    def no(k):
        raise Unsupported("item of a filtered array")
    return AV((p.count(),), kind_of(p.value), no, ("filter", p))


class Lst:
    """mutable list: a box of the heap"""
    __slots__ = ("box",)

    def __init__(self, box):
        self.box = box


class SetH:
    """mutable set: a box of the heap with the sequence of the values added to it"""
    __slots__ = ("box",)

    def __init__(self, box):
        self.box = box


class PermList(LV):
    """a permutation of 0..n-1 bound by a permutation binder"""
    pass


class Perms:
    """itertools.permutations(range(n))"""

    def __init__(self, n):
        self.n = n


class Rng:
    """range(lo, hi, step)"""

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = simp(lo), simp(hi), step

    def length(self):
        if self.step == 1:
            return simp(z3.If(zint(self.hi) >= zint(self.lo), zint(self.hi) - zint(self.lo), z3.IntVal(0)))
        if self.step == -1:
            return simp(z3.If(zint(self.lo) >= zint(self.hi), zint(self.lo) - zint(self.hi), z3.IntVal(0)))
        if self.step > 1:
            d = zint(self.hi) - zint(self.lo)
            return simp(z3.If(d >= 0, (d + (self.step - 1)) / self.step, z3.IntVal(0)))
        raise Unsupported("range step")

    def at(self, k):
        return simp(zint(self.lo) + zint(k) * self.step)


class Str:
    """a string: opaque, or a list of literals and formatted values ("fmt", value, parts of the format)"""

    def __init__(self, s="?", parts=None):
        self.s = s
        if parts is not None:
            out = []
            for p in parts:
                if isinstance(p, str) and out and isinstance(out[-1], str):
                    out[-1] += p
                elif p != "":
                    out.append(p)
            parts = out
        self.parts = parts


class Func:
    def __init__(self, name, node, env, module):
        self.name, self.node, self.env, self.module = name, node, env, module


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class ModRef:
    def __init__(self, name):
        self.name = name


class TypeRef:
    def __init__(self, name):
        self.name = name


class Poison:
    def __init__(self, why):
        self.why = why


class Dtype:
    def __init__(self, kind):
        self.kind = kind


def merge_val(c, a, b):
    """value of `a if c else b` for immutable values"""
    c = simp(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if type(a) is type(b) and a == b:
            return a
        return Poison("differs between paths")
    if isinstance(a, Poison):
        return a
    if isinstance(b, Poison):
        return b
    if is_bool(a) and is_bool(b):
        return simp(z3.If(zbool(c), zbool(a), zbool(b)))
    if is_int(a) and is_int(b):
        return simp(z3.If(zbool(c), zint(a), zint(b)))
    if is_scalar(a) and is_scalar(b):
        return ite(c, num(a), num(b))
    if isinstance(a, AV) and isinstance(b, AV):
        if a.ndim != b.ndim:
            return Poison("shapes differ between paths")
        shape = tuple(x if same(x, y) else simp(z3.If(zbool(c), zint(x), zint(y))) for x, y in zip(a.shape, b.shape))
        k = kmax(a.kind, b.kind)
        mp = merge_chain(c, a.prov, b.prov)
        if mp is not None:
            return AV(shape, k, lambda *i: ite(c, a.at(*i), b.at(*i)), mp)
        if a.kind == "b" and b.kind == "b":
            return AV(shape, "b", lambda *i: merge_val(c, a.at(*i), b.at(*i)))
        if a.kind == "b":
            a = a.with_kind(k)
        if b.kind == "b":
            b = b.with_kind(k)
        return AV(shape, k, lambda *i: ite(c, a.at(*i), b.at(*i)))
    if isinstance(a, LV) and isinstance(b, LV):
        mp = merge_grown(c, a.prov, b.prov)
        if mp is not None:
            return LV(None, fresh("len"), (a if a.elem else b).elem, mp)
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            return LV([merge_val(c, x, y) for x, y in zip(a.items, b.items)])
        if same(a.length, b.length):
            return LV(None, a.length, lambda k: merge_val(c, a.at(k), b.at(k)))
        return Poison("lists of different length between paths")
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Arr) and isinstance(b, Arr) and a.box == b.box and a.vmap is b.vmap:
        return a
    if isinstance(a, Lst) and isinstance(b, Lst) and a.box == b.box:
        return a
    return Poison(f"cannot merge {type(a).__name__} and {type(b).__name__}")


def merge_grown(c, p, q):
    """lists extended in one iteration of a loop, on two paths"""
    if p is None or q is None or p[0] not in ("ph", "cat", "fcat") or q[0] not in ("ph", "cat", "fcat") or p[1] is not q[1]:
        return None
    x, y = grown(p), grown(q)
    if x is False or y is False:
        return None
    if x is None and y is None:
        return ("ph", p[1], [])
    if x is not None and y is not None:
        if x.binders or y.binders:
            return None
        g = merge_val(c, x.guard, y.guard)
        v = merge_val(c, x.value, y.value)
        if isinstance(v, Poison):
            return None
        return ("cat", p[1], [v]) if g is True else ("fcat", p[1], Piece((), g, v))
    w, g = (x, c) if x is not None else (y, Not(c))
    return ("fcat", p[1], Piece(w.binders, And(g, w.guard), w.value))


def grown(p):
    """what an iteration appends: None, a Piece, or False if it is not of that form"""
    if p[0] == "ph":
        return None
    if p[0] == "fcat":
        return p[2]
    return Piece((), True, p[2][0]) if len(p[2]) == 1 and not isinstance(p[2][0], Poison) else False


def merge_chain(c, p, q):
    if p is None or q is None or p[0] not in ("chain", "prechain", "dsum") or q[0] != p[0] or len(p[1]) != len(q[1]):
        return None
    if p[0] == "dsum":
        if p[2] is not q[2]:
            return None
        return ("dsum", tuple(merge_val(c, x, y) for x, y in zip(p[1], q[1])), p[2])
    if not all(same(x[0], y[0]) for x, y in zip(p[1], q[1])):
        return None
    if isinstance(p[2], Num) and isinstance(q[2], Num):
        base = ite(c, p[2], q[2])
    elif p[2] is q[2]:
        base = p[2]
    else:
        return None
    segs = tuple((x[0], (lambda f, g: lambda pos: merge_val(c, f(pos), g(pos)))(x[1], y[1])) for x, y in zip(p[1], q[1]))
    return (p[0], segs, base)


def same(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    s = z3.simplify(zint(x) - zint(y))
    return z3.is_int_value(s) and s.as_long() == 0


class Rec:
    """value whose attributes are values"""


def rec_map(v, f):
    r = v.__class__.__new__(v.__class__)
    r.__dict__.update({k: f(x) for k, x in vars(v).items()})
    return r


def subst_val(v, pairs, fpairs=()):
    """substitute integer variables in an immutable value"""
    if not pairs and not fpairs:
        return v
    if isinstance(v, Num):
        return v.subst(pairs, fpairs)
    if isinstance(v, z3.ExprRef):
        import num as N
        e = z3.substitute(v, *pairs) if pairs else v
        return simp(N.subst_fun(e, fpairs) if fpairs else e)
    if isinstance(v, AV):
        prov = v.prov
        if piece_of(v) is not None:
            return piece_av(prov[1].subst(pairs, fpairs))
        return AV([subst_val(d, pairs, fpairs) for d in v.shape], v.kind,
                  lambda *i: subst_val(v.at(*i), pairs, fpairs), subst_prov(prov, pairs, fpairs))
    if isinstance(v, LV):
        if v.items is not None:
            return LV([subst_val(x, pairs, fpairs) for x in v.items])
        if piece_of(v) is not None:
            return v.prov[1].subst(pairs, fpairs).lv()
        return LV(None, subst_val(v.length, pairs, fpairs), lambda k: subst_val(v.at(k), pairs, fpairs))
    if isinstance(v, tuple):
        return tuple(subst_val(x, pairs, fpairs) for x in v)
    if isinstance(v, Rec):
        return rec_map(v, lambda x: zint(subst_val(x, pairs, fpairs)) if isinstance(x, z3.ExprRef) else subst_val(x, pairs, fpairs))
    return v


def subst_prov(p, pairs, fpairs):
    if p is None:
        return None
    if p[0] in ("chain", "prechain"):
        return (p[0], tuple(seg_subst(s, pairs, fpairs) for s in p[1]), subst_val(p[2], pairs, fpairs))
    return None


def seg_subst(s, pairs, fpairs):
    ln, fn = s
    return (subst_val(ln, pairs, fpairs), lambda p: subst_val(fn(p), pairs, fpairs))


# --------------------------------------------------------------------------------------------------- integer functions
POW2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())
FACT = z3.Function("factorial", z3.IntSort(), z3.IntSort())
DIGIT = z3.Function("digit", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())   # digit(k, n, x): k-th of n bits, msb first


def pow2(e):
    import num as N
    e = simp(e)
    if isinstance(e, int):
        if e < 0:
            raise Unsupported("2 ** negative integer")
        return 2 ** e
    d, c = N.linear(z3.simplify(e, som=True))
    base = simp(N.unlinear(d, 0))
    p = POW2(base)
    N.add_fact(z3.Implies(base >= 0, p >= 1))
    N.add_fact(z3.Implies(base >= 1, p >= 2))
    N.add_fact(z3.Implies(base == 1, p == 2))
    N.add_fact(z3.Implies(base == 2, p == 4))
    N.add_fact(z3.Implies(base >= 3, p > 2 * base))
    if c == 0:
        return p
    if c > 0:
        return simp(p * (2 ** c))
    q = POW2(simp(e))
    N.add_fact(q * (2 ** -c) == p)
    N.add_fact(z3.Implies(zint(e) >= 0, q >= 1))
    return q


def digit(k, n, x):
    import num as N
    e = DIGIT(zint(k), zint(n), zint(x))
    N.add_fact(z3.And(e >= 0, e <= 1))
    return e


def factorial(n):
    import num as N
    n = simp(n)
    if isinstance(n, int):
        import math
        return math.factorial(n)
    f = FACT(zint(n))
    N.add_fact(f >= 1)
    return f


# ------------------------------------------------------------------------------------------------------ scalar functions
def sabs(x):
    if is_int(x):
        x = simp(x)
        return abs(x) if isinstance(x, int) else simp(z3.If(x >= 0, x, -x))
    x = num(x)
    c = x.const()
    if c is not None and c.im == 0:
        return num(abs(c.re)).with_kind("f")
    if c is not None and c.re == 0:
        return num(abs(c.im)).with_kind("f")
    if len(x.terms) == 1 and not x.terms[0].binders:          # |coef * [g] * prod| with a rational or imaginary coefficient
        t = x.terms[0]
        m = abs(t.coef.re) if t.coef.im == 0 else (abs(t.coef.im) if t.coef.re == 0 else None)
        if m is not None and all(a.sym.real and a.sym.nonneg for a in t.atoms):
            return Num([Term(GQ(m), (), t.guards, t.atoms)], "f")
        if m is not None and len(t.atoms) >= 1 and (m != 1 or t.coef.re != 1):
            inner = Num([Term(ONE, (), t.guards, t.atoms)], x.kind)
            return num(m) * sabs(inner)
    ps = pieces(x)
    if ps:                                                     # |[g] x + [h] y| = [g] |x| + [h] |y| for exclusive g, h
        return piecewise(ps, sabs)
    com, rest = pull(x)
    if com:                                                    # |a x| = a |x| for a >= 0
        return Num([Term(ONE, (), (), com)], "f") * sabs(rest)
    # |x| = |conj x|
    return opaque("abs", (canon_conj(x),), real=True, nonneg=True)


def pieces(x):
    """[(guards, number)] if x is a sum of single atoms under pairwise exclusive guards, else None"""
    import num as N
    if not 2 <= len(x.terms) <= 4 or not all(t.guards and not t.binders and len(t.atoms) == 1 for t in x.terms):
        return None
    for i, t in enumerate(x.terms):
        for u in x.terms[:i]:
            if not N.unsat([*t.guards, *u.guards]):
                return None
    return [(t.guards, Num([Term(t.coef, (), (), t.atoms)], x.kind)) for t in x.terms]


def piecewise(ps, f):
    r = num(0)
    for g, v in ps:
        r = r + f(v).guard(And(*g))
    return r


def pull(x):
    """(atoms, rest): the non-negative real factors common to all terms of x, and x without them"""
    import num as N
    if not x.terms:
        return [], x

    def cand(t):
        return [a for a in t.atoms if a.sym.real and a.sym.nonneg and not a.fidx
                and not any(b.perm or any(N.occurs(b.var, e) for e in a.idx) for b in t.binders)]
    com = cand(x.terms[0])
    for t in x.terms[1:]:
        left = cand(t)
        new = []
        for a in com:
            j = next((j for j, b in enumerate(left) if b.key() == a.key()), None)
            if j is not None:
                del left[j]
                new.append(a)
        com = new
    if not com:
        return [], x
    out = []
    for t in x.terms:
        ats = list(t.atoms)
        for a in com:
            del ats[next(j for j, b in enumerate(ats) if b.key() == a.key())]
        out.append(Term(t.coef, t.binders, t.guards, ats))
    return com, Num(out, x.kind)


def canon_conj(x):
    ats = [a for t in x.terms for a in t.atoms if not a.sym.real]
    if ats and all(a.conj for a in ats):
        return x.conj()
    return x


def ssqrt(x):
    x = num(x)
    c = x.const()
    if c is not None and c.im == 0 and c.re >= 0:
        return sqrt_const(c.re)
    com, rest = pull(x) if x.kind != "c" else ([], x)
    if com and (len(com) > 1 or rest.const() != ONE):          # sqrt(a x) = sqrt(a) sqrt(x) for a >= 0
        r = ssqrt(rest) if rest.const() != ONE else num(1)
        com = sorted(com, key=lambda a: str(a.key()))
        while len(com) > 1:                                    # sqrt(a a) = a
            if com[0].key() == com[1].key():
                r = r * Num([Term(ONE, (), (), [com[0]])], "f")
                com = com[2:]
            else:
                r = r * ssqrt(Num([Term(ONE, (), (), [com[0]])], "f"))
                com = com[1:]
        for a in com:
            r = r * ssqrt(Num([Term(ONE, (), (), [a])], "f"))
        return r.with_kind("f")
    return opaque("sqrt", (x,), real=x.kind != "c", nonneg=x.kind != "c")


def sfun(name, x, real=None):
    x = num(x)
    r = (x.kind != "c") if real is None else real
    return opaque(name, (x,), real=r)


def sinv(x):
    x = num(x)
    c = x.const()
    if c is not None:
        if c.zero():
            raise Unsupported("division by zero")
        return Num([Term(c.inv())], x.kind if x.kind != "i" else "f")
    if len(x.terms) == 1 and not x.terms[0].binders and not x.terms[0].guards:
        t = x.terms[0]
        if len(t.atoms) == 1 and t.atoms[0].sym.attrs.get("sqrt"):
            k = t.atoms[0].sym.attrs["sqrt"]
            return Num([Term((t.coef * GQ(k)).inv(), (), (), t.atoms)], "f")
        if not (t.coef.re == 1 and t.coef.im == 0):
            return Num([Term(t.coef.inv())]) * sinv(Num([Term(ONE, (), (), t.atoms)], x.kind))
        import num as N
        inv = [N.inverse_of(a) for a in t.atoms]
        if any(i is not None for i in inv):                     # 1/(a (1/b)) = b/a (divisors are non-zero)
            r = num(1)
            for a, i in zip(t.atoms, inv):
                r = r * (Num([Term(ONE, (), (), [i])], x.kind) if i is not None else sinv(Num([Term(ONE, (), (), [a])], x.kind)))
            return r.with_kind(x.kind if x.kind != "i" else "f")
    ps = pieces(x)
    if ps:                                                     # (a divisor is non-zero)
        return piecewise(ps, sinv)
    real = x.kind != "c"
    nn = len(x.terms) == 1 and x.terms[0].coef.re > 0 and x.terms[0].coef.im == 0 and not x.terms[0].binders and bool(x.terms[0].atoms) \
        and all(a.sym.real and a.sym.nonneg for a in x.terms[0].atoms)
    return opaque("inv", (x,), real=real, nonneg=nn)


def sdiv(a, b):
    a, b = num(a), num(b)
    cb = b.const()
    r = a * sinv(b)
    return r.with_kind(kmax("f", a.kind, b.kind))


def sole_arg(a, fname):
    """x if a is the single term fname(x)"""
    import num as N
    if len(a.terms) != 1:
        return None
    t = a.terms[0]
    if t.coef.re != 1 or t.coef.im != 0 or t.binders or t.guards or len(t.atoms) != 1 or t.atoms[0].sym.fname != fname or t.atoms[0].sym.args is None:
        return None
    s = t.atoms[0]
    return num(N.subst_holes(s.sym.args, s.sym, s.idx[:len(s.sym.holes)], s.fidx)[0])


def root_of(a, b):
    """x if a is the power x**(1/b) (of a non-negative number, as every real power)"""
    import num as N
    if len(a.terms) != 1:
        return None
    t = a.terms[0]
    if t.coef.re != 1 or t.coef.im != 0 or t.binders or t.guards or len(t.atoms) != 1 or t.atoms[0].sym.fname != "pow" or t.atoms[0].sym.args is None \
            or not t.atoms[0].sym.real:
        return None
    s = t.atoms[0]
    x, e = N.subst_holes(s.sym.args, s.sym, s.idx[:len(s.sym.holes)], s.fidx)
    e = num(e)
    if sole_inv(e, b):
        return num(x).with_kind("f")
    return None


def sole_inv(e, b):
    import num as N
    ce, cb = e.const(), b.const()
    if ce is not None or cb is not None:
        return ce is not None and cb is not None and ce * cb == ONE
    if len(e.terms) != 1 or len(e.terms[0].atoms) != 1 or e.terms[0].coef.re != 1 or e.terms[0].coef.im != 0 or e.terms[0].binders or e.terms[0].guards:
        return False
    i = N.inverse_of(e.terms[0].atoms[0])
    return i is not None and N.prove_equal(Num([Term(ONE, (), (), [i])], "f"), b, [])[0] == "proved"


def opaque_inverse(a):
    import num as N
    return N.inverse_of(a)


def spow(a, b):
    if is_int(b):
        b = simp(b)
    if isinstance(b, Num):
        c = b.const()
        if c is not None and c.im == 0 and c.re.denominator == 1:
            b = int(c.re)
        elif c is not None and c == GQ(Fr(1, 2)):
            return ssqrt(a)
    if isinstance(b, float) and b == 0.5:
        return ssqrt(a)
    if isinstance(b, float) and b == int(b):
        b = int(b)
    if is_int(a) and is_int(b):
        if isinstance(simp(a), int) and isinstance(b, int):
            return simp(a) ** b if b >= 0 else num(Fr(1) / Fr(simp(a)) ** -b)
        if simp(a) == 2:
            return pow2(b)
        if isinstance(b, int) and 0 <= b <= 4:
            r = z3.IntVal(1)
            for _ in range(b):
                r = r * zint(a)
            return simp(r)
        if simp(a) == -1:
            return simp(z3.If(zint(b) % 2 == 0, z3.IntVal(1), z3.IntVal(-1)))
        if simp(a) == 10:                # a positive real number
            r = opaque("pow10", (zint(b),), real=True, nonneg=True, kind="f")
            import num as N
            N.add_fact(zbool(cmp(">", r, 0)))
            return r
        raise Unsupported("integer power")
    if isinstance(a, Num) and is_scalar(b) and not is_bool(b):
        x = root_of(a, num(b))
        if x is not None:
            return x
    if isinstance(b, int) and 2 <= b <= 6 and isinstance(a, Num):
        x = sole_arg(a, "sqrt")          # (sqrt x)^2 = x
        if x is not None:
            r = spow(x, b // 2)
            return num(r) * a if b % 2 else num(r)
        x = sole_arg(a, "abs")           # |x|^2 = x conj(x)
        if x is not None:
            r = spow(x * x.conj(), b // 2)
            return (num(r) * a if b % 2 else num(r)).with_kind("f")
        com, rest = pull(a) if a.kind != "c" else ([], a)
        if len(com) > 1 or com and rest.const() is None:
            r = num(spow(rest, b))
            for x in com:
                r = r * num(spow(Num([Term(ONE, (), (), [x])], "f"), b))
            return r.with_kind("f")
    if isinstance(b, int) and 0 <= b <= 6:
        r = num(1)
        for _ in range(b):
            r = r * num(a)
        return r.with_kind(kmax("f" if not is_int(a) else "i", num(a).kind))
    if isinstance(b, int) and -6 <= b < 0:
        return sinv(spow(a, -b))
    a = num(a)
    com, rest = pull(a) if a.kind != "c" else ([], a)
    if com and (len(com) > 1 or rest.const() != ONE or opaque_inverse(com[0]) is not None):
        r = num(spow(rest, b)) if rest.const() != ONE else num(1)      # (x y)^b = x^b y^b and (1/x)^b = 1/x^b for x, y >= 0
        for x in com:
            base = opaque_inverse(x)
            one = Num([Term(ONE, (), (), [x if base is None else base])], "f")
            r = r * (num(spow(one, b)) if base is None else sinv(spow(one, b)))
        return r.with_kind("f")
    return opaque("pow", (a, num(b)), real=a.kind != "c", nonneg=a.kind != "c")
