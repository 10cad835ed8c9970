"""Numbers of the verifier: guarded sums of products of opaque entries, and the equality prover.

A Num is  sum_t coef_t * sum_{binders} [guards] * prod atoms,  coef a Gaussian rational, guards z3 formulas over Int,
binders integer ranges (or permutations), atoms entries of opaque arrays / opaque function applications, possibly
conjugated.  Equality is decided by normalisation (delta elimination, distribution, contraction of unitary entries),
alignment of bound variables and a final z3 query with the atoms as uninterpreted functions."""
import itertools
import time
from fractions import Fraction as Fr

import z3

z3.set_param("smt.random_seed", 1)


class Unsupported(Exception):
    """construct outside the verified subset: the obligation is undecided (bounded stand-in)"""


STATS = {"z3_queries": 0, "z3_time": 0.0, "z3_unknown": 0, "cvc5_queries": 0, "cvc5_time": 0.0, "algebra": 0, "z3_max": 0.0}
TIMEOUT_MS = 4000
_FACTS = []          # globally valid facts about opaque terms (e.g. pow2(n) >= 1)
_cache = {}
DEADLINE = [None]


def reset():
    """forget the symbols of the previous proof"""
    _FACTS.clear()
    _FACT_IDS.clear()
    _cache.clear()
    _HASDIV.clear()
    REG.clear()


_FACT_IDS = set()


def add_fact(f):
    if f.get_id() not in _FACT_IDS:
        _FACT_IDS.add(f.get_id())
        _FACTS.append(f)


def zint(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, z3.ArithRef):
        return x
    raise Unsupported(f"not an integer: {type(x).__name__}")


def zbool(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    raise Unsupported(f"not a boolean: {type(x).__name__}")


def And(*xs):
    xs = [x for x in flatten_list(xs) if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def Or(*xs):
    xs = [x for x in flatten_list(xs) if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def Not(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def flatten_list(xs):
    for x in xs:
        if isinstance(x, (list, tuple)):
            yield from flatten_list(x)
        else:
            yield x


_fresh = itertools.count()


def fresh(name="k"):
    return z3.Int(f"{name}!{next(_fresh)}")


def relevant_facts(exprs):
    """the recorded facts about applications occurring in the expressions, and in these facts in turn"""
    if not _FACTS:
        return []
    apps = set()
    for e in exprs:
        if isinstance(e, z3.ExprRef):
            apps |= fact_apps(e)
    todo, out = list(_FACTS), []
    while True:
        new = [f for f in todo if fact_apps(f) & apps]
        if not new:
            return out
        out += new
        todo = [f for f in todo if not fact_apps(f) & apps]
        for f in new:
            apps |= fact_apps(f)


_fn = {}


def walk_apps(f):
    k = f.get_id()
    if k not in _fn:
        names, apps, stack, ids = set(), set(), [f], set()
        while stack:
            e = stack.pop()
            i = e.get_id()
            if i in ids:
                continue
            ids.add(i)
            if z3.is_app(e):
                ch = e.children()
                if ch and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    names.add(e.decl().name())
                    apps.add(i)
                stack.extend(ch)
            else:
                stack.extend(e.children())
        _fn[k] = (f, names, apps)
    return _fn[k]


def fact_names(f):
    return walk_apps(f)[1]


def fact_apps(f):
    return walk_apps(f)[2]


def relevant_quantified(asr):
    """without the quantified assertions about functions that occur nowhere else"""
    qs = [a for a in asr if z3.is_quantifier(a)]
    if not qs:
        return asr
    out = [a for a in asr if not z3.is_quantifier(a)]
    names = set().union(*[fact_names(a) for a in out]) if out else set()
    while True:
        new = [q for q in qs if fact_names(q) & names or not fact_names(q)]
        if not new:
            return out
        out += new
        qs = [q for q in qs if not any(q is x for x in new)]
        for q in new:
            names |= fact_names(q)


def check(assertions):
    """'sat' | 'unsat' | 'unknown' of a conjunction, with a model for sat"""
    if DEADLINE[0] and time.time() > DEADLINE[0]:
        raise Unsupported("time budget of the obligation exhausted")
    asr = []
    for a in flatten_list([assertions]):
        if a is True:
            continue
        if a is False:
            return "unsat", None
        asr.append(a)
    asr2 = relevant_quantified(asr)
    asr2 += relevant_facts(asr2)
    asr2 += perm_facts(asr2)
    key = frozenset(a.get_id() for a in asr2)
    if key in _cache:
        return _cache[key][0]
    s = z3.Solver()
    s.set("timeout", TIMEOUT_MS)
    s.add(*asr2)
    t0 = time.time()
    r = str(s.check())
    STATS["z3_queries"] += 1
    STATS["z3_time"] += time.time() - t0
    STATS["z3_max"] = max(STATS["z3_max"], time.time() - t0)
    m = s.model() if r == "sat" else None
    if r == "unknown":
        STATS["z3_unknown"] += 1
        r2 = cvc5_check(s)
        if r2 == "unsat":
            r = "unsat"
    _cache[key] = ((r, m), asr2)
    return r, m


PERMN = {}        # name of a permutation symbol -> size of the permuted range


def perm_facts(exprs):
    """instances of: a permutation of range(n) maps range(n) injectively into itself"""
    if not PERMN:
        return []
    apps, seen = {}, set()
    st = [e for e in exprs if any(nm in PERMN for nm in fact_names(e))]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            continue
        if z3.is_app(e) and e.num_args() == 1 and e.decl().name() in PERMN:
            apps.setdefault(e.decl().name(), []).append(e)
        st.extend(e.children())
    out = []
    for nm, es in apps.items():
        n = zint(PERMN[nm])
        for i, e in enumerate(es):
            a = e.children()[0]
            out.append(z3.Implies(z3.And(a >= 0, a < n), z3.And(e >= 0, e < n)))
            for g in es[:i][:8]:
                b = g.children()[0]
                out.append(z3.Implies(z3.And(a >= 0, a < n, b >= 0, b < n, e == g), a == b))
    return out


def cvc5_check(s):
    """second opinion from cvc5 on the SMT-LIB text of the query"""
    try:
        import cvc5
    except ImportError:
        return "unknown"
    t0 = time.time()
    STATS["cvc5_queries"] += 1
    try:
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(TIMEOUT_MS))
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, s.to_smt2(), "q")
        sm = p.getSymbolManager()
        out = "unknown"
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            r = c.invoke(slv, sm)
            if str(r).strip() in ("sat", "unsat", "unknown"):
                out = str(r).strip()
        return out
    except Exception:
        return "unknown"
    finally:
        STATS["cvc5_time"] += time.time() - t0


def valid(gamma, goal):
    if goal is True:
        return True
    if isinstance(goal, bool):
        return check(list(gamma))[0] == "unsat"
    g = z3.simplify(goal)
    if z3.is_true(g):
        return True
    return check(list(gamma) + [z3.Not(goal)])[0] == "unsat"


def vanishes(gamma):
    """unsat, with a short limit if there are quantified hypotheses (a term kept for want of time does no harm)"""
    global TIMEOUT_MS
    if not any(z3.is_quantifier(a) for a in gamma if z3.is_expr(a)):
        return unsat(gamma)
    keep, TIMEOUT_MS = TIMEOUT_MS, min(TIMEOUT_MS, 500)
    try:
        return unsat(gamma)
    finally:
        TIMEOUT_MS = keep


def unsat(gamma):
    return check(list(gamma))[0] == "unsat"


# ------------------------------------------------------------------------------------------------- Gaussian rationals
class GQ:
    __slots__ = ("re", "im")

    def __init__(self, re=0, im=0):
        self.re = Fr(re)
        self.im = Fr(im)

    def __add__(s, o):
        return GQ(s.re + o.re, s.im + o.im)

    def __mul__(s, o):
        return GQ(s.re * o.re - s.im * o.im, s.re * o.im + s.im * o.re)

    def __neg__(s):
        return GQ(-s.re, -s.im)

    def conj(s):
        return GQ(s.re, -s.im)

    def inv(s):
        d = s.re * s.re + s.im * s.im
        return GQ(s.re / d, -s.im / d)

    def zero(s):
        return s.re == 0 and s.im == 0

    def __eq__(s, o):
        return isinstance(o, GQ) and s.re == o.re and s.im == o.im

    def __hash__(s):
        return hash((s.re, s.im))

    def __repr__(s):
        return f"{s.re}" if s.im == 0 else f"({s.re}+{s.im}i)"


ONE = GQ(1)


# ------------------------------------------------------------------------------------------------- symbols and atoms
SYMS = {}


class Sym:
    """an opaque array / function symbol"""
    _n = itertools.count()

    def __init__(self, name, arity, real=False, attrs=(), fname=None, args=None, holes=(), fholes=(), key=None, nonneg=False):
        self.id = next(Sym._n)
        SYMS[self.id] = self
        self.name = name
        self.arity = arity
        self.real = real
        self.attrs = dict(attrs)      # e.g. {'unitary': dim} {'hermitian': True} {'orthogonal': dim}
        self.fname = fname
        self.args = args
        self.holes = tuple(holes)
        self.fholes = tuple(fholes)
        self.key = key
        self.nonneg = nonneg
        self.uf = None

    def __repr__(self):
        return self.name

    def decl(self, conj=False):
        """real-valued uninterpreted function standing for the entry"""
        if self.uf is None:
            self.uf = z3.Function(f"R#{self.name}#{self.id}", *([z3.IntSort()] * self.arity), z3.RealSort()) \
                if self.arity else z3.Real(f"R#{self.name}#{self.id}")
        return self.uf


class Atom:
    __slots__ = ("sym", "idx", "fidx", "conj", "_key")

    def __init__(self, sym, idx=(), conj=False, fidx=()):
        self.sym = sym
        self.idx = tuple(idx)
        self.fidx = tuple(fidx)
        self.conj = bool(conj) and not sym.real
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (self.sym.id, self.conj, tuple(e.get_id() for e in self.idx), tuple(f.name() for f in self.fidx))
        return self._key

    def conjugate(self):
        if self.sym.real:
            return self
        if self.sym.attrs.get("hermitian"):
            i = self.idx
            return Atom(self.sym, i[:-2] + (i[-1], i[-2]), False, self.fidx)
        return Atom(self.sym, self.idx, not self.conj, self.fidx)

    def subst(self, pairs, fpairs=()):
        idx = tuple(z3.substitute(e, *pairs) if pairs else e for e in self.idx)
        if fpairs:
            idx = tuple(subst_fun(e, fpairs) for e in idx)
        fidx = tuple(dict((a.name(), b) for a, b in fpairs).get(f.name(), f) for f in self.fidx)
        return Atom(self.sym, idx, self.conj, fidx)

    def __repr__(self):
        s = self.sym.name + ("*" if self.conj else "")
        ix = list(map(str, self.idx)) + [f.name() for f in self.fidx]
        return s + ("[" + ",".join(ix) + "]" if ix else "")


def subst_fun(e, fpairs):
    """rename unary uninterpreted functions (permutations) inside a z3 term"""
    m = {a.name(): b for a, b in fpairs}
    cache = {}

    def go(t):
        k = t.get_id()
        if k in cache:
            return cache[k]
        ch = [go(c) for c in t.children()]
        if z3.is_app(t) and t.num_args() and t.decl().name() in m and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = m[t.decl().name()](*ch)
        elif ch:
            r = t.decl()(*ch)
        else:
            r = t
        cache[k] = r
        return r
    return go(e)


class Binder:
    __slots__ = ("var", "lo", "hi", "perm")

    def __init__(self, var, lo, hi, perm=False):
        self.var = var          # z3 Int const, or FuncDecl for a permutation of range(hi)
        self.lo = zint(lo)
        self.hi = zint(hi)
        self.perm = perm
        if perm:
            PERMN[var.name()] = self.hi

    def range(self):
        if self.perm:
            return True
        return z3.And(self.lo <= self.var, self.var < self.hi)


_occ = {}


def occurs(var, e):
    """does a constant (or, applied, a function symbol) occur in the expression?"""
    k = e.get_id()
    if k not in _occ:
        stack, seen, funs = [e], set(), set()
        while stack:
            t = stack.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            ch = t.children()
            if ch and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                funs.add(t.decl().get_id())
            stack.extend(ch)
        _occ[k] = (e, seen, funs)
    if isinstance(var, z3.FuncDeclRef):
        return var.get_id() in _occ[k][2]
    return var.get_id() in _occ[k][1]


class Term:
    __slots__ = ("coef", "binders", "guards", "atoms")

    def __init__(self, coef, binders=(), guards=(), atoms=()):
        self.coef = coef
        self.binders = tuple(binders)
        self.guards = tuple(guards)
        self.atoms = tuple(atoms)

    def subst(self, pairs, fpairs=()):
        """free variables only (binders are always fresh, so no capture)"""
        def s(e):
            if pairs:
                e = z3.substitute(e, *pairs)
            if fpairs:
                e = subst_fun(e, fpairs)
            return e
        return Term(self.coef, [Binder(b.var, s(b.lo), s(b.hi), b.perm) for b in self.binders],
                    [s(g) for g in self.guards], [a.subst(pairs, fpairs) for a in self.atoms])

    def refresh(self):
        """rename the bound variables apart"""
        if not self.binders:
            return self
        pairs, fpairs, nb = [], [], []
        for b in self.binders:
            if b.perm:
                f = fresh_perm()
                fpairs.append((b.var, f))
                nb.append((f, b))
            else:
                v = fresh("b")
                pairs.append((b.var, v))
                nb.append((v, b))

        def s(e):
            if pairs:
                e = z3.substitute(e, *pairs)
            if fpairs:
                e = subst_fun(e, fpairs)
            return e
        return Term(self.coef, [Binder(v, s(b.lo), s(b.hi), b.perm) for v, b in nb],
                    [s(g) for g in self.guards], [a.subst(pairs, fpairs) for a in self.atoms])

    def __repr__(self):
        s = repr(self.coef)
        for b in self.binders:
            s += f" S_{b.var.name() if b.perm else b.var}<{b.hi}"
        if self.guards:
            s += " [" + " & ".join(str(g).replace("\n", " ") for g in self.guards) + "]"
        return s + "".join(" " + repr(a) for a in self.atoms)


def fresh_perm():
    return z3.Function(f"perm!{next(_fresh)}", z3.IntSort(), z3.IntSort())


KORD = {"b": 0, "i": 1, "f": 2, "c": 3}


def kmax(*ks):
    return max(ks, key=lambda k: KORD[k])


class Num:
    """kind: numpy type class of the value ('i' integer, 'f' real, 'c' complex)"""
    __slots__ = ("terms", "kind")

    def __init__(self, terms=(), kind="f"):
        self.terms = tuple(terms)
        self.kind = kind

    def with_kind(self, k):
        return Num(self.terms, k)

    def __add__(self, o):
        o = num(o)
        return Num(merge(self.terms + o.terms), kmax(self.kind, o.kind))
    __radd__ = __add__

    def __neg__(self):
        return Num([Term(-t.coef, t.binders, t.guards, t.atoms) for t in self.terms], self.kind)

    def __sub__(self, o):
        return self + (-num(o))

    def __rsub__(self, o):
        return num(o) + (-self)

    def __mul__(self, o):
        o = num(o)
        out = []
        for a in self.terms:
            for b in o.terms:
                b2 = b.refresh() if (a.binders and b.binders) else b
                t = mk_term(a.coef * b2.coef, a.binders + b2.binders, a.guards + b2.guards, a.atoms + b2.atoms)
                if t is not None:
                    out.append(t)
        if len(out) > 4000:
            raise Unsupported("term explosion")
        return Num(merge(out), kmax(self.kind, o.kind))
    __rmul__ = __mul__

    def conj(self):
        return Num([Term(t.coef.conj(), t.binders, t.guards, [a.conjugate() for a in t.atoms]) for t in self.terms], self.kind)

    def is_zero(self):
        return not self.terms

    def const(self):
        """Gaussian rational value if constant, else None"""
        if not self.terms:
            return GQ(0)
        if len(self.terms) == 1:
            t = self.terms[0]
            if not t.binders and not t.guards and not t.atoms:
                return t.coef
        return None

    def guard(self, g):
        """[g] * self"""
        if g is True:
            return self
        if g is False:
            return Num((), self.kind)
        out = []
        for t in self.terms:
            u = mk_term(t.coef, t.binders, t.guards + (g,), t.atoms)
            if u is not None:
                out.append(u)
        return Num(out, self.kind)

    def is_sign(self):
        """1 or -1 for all values of the free variables: constants under exclusive, exhaustive guards"""
        if not 2 <= len(self.terms) <= 8 or any(t.binders or t.atoms or t.coef.im or abs(t.coef.re) not in (1, 2) for t in self.terms):
            return False
        gs = [And(*t.guards) for t in self.terms]
        vals = z3.Sum([z3.If(zbool(g), z3.RealVal(str(t.coef.re)), z3.RealVal(0)) for g, t in zip(gs, self.terms)])
        return unsat([vals != 1, vals != -1])

    def subst(self, pairs, fpairs=()):
        if not pairs and not fpairs:
            return self
        out = []
        for t in self.terms:
            u = t.subst(pairs, fpairs)
            u = mk_term(u.coef, u.binders, u.guards, u.atoms)
            if u is not None:
                out.append(u)
        return Num(merge(out), self.kind)

    def real(self):
        if self.kind != "c":
            return self
        return ((self + self.conj()) * Num([Term(GQ(Fr(1, 2)))])).with_kind("f")

    def imag(self):
        if self.kind != "c":
            return Num((), self.kind)
        return ((self - self.conj()) * Num([Term(GQ(0, Fr(-1, 2)))], "c")).with_kind("f")

    def __repr__(self):
        return " + ".join(map(repr, self.terms)) if self.terms else "0"


def num(x, kind=None):
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return Num([Term(GQ(x))] if x else (), "i")
    if isinstance(x, Fr):
        return Num([Term(GQ(x))] if x else (), "f")
    if isinstance(x, GQ):
        return Num([Term(x)] if not x.zero() else (), "c")
    if isinstance(x, float):
        return num(Fr(repr(x)) if x == x and abs(x) != float("inf") else _bad_float(x))
    if isinstance(x, complex):
        return Num([Term(GQ(Fr(repr(x.real)), Fr(repr(x.imag))))] if x else (), "c")
    if isinstance(x, z3.BoolRef):
        return Num([Term(ONE, (), (x,))], "i")
    if isinstance(x, z3.ArithRef):
        return int_num(x)
    raise Unsupported(f"not a number: {type(x).__name__}")


def _bad_float(x):
    raise Unsupported("non-finite float constant")


INTSYM = Sym("int", 1, real=True)


def int_num(e):
    """integer expression as a number: polynomial in opaque integer monomials"""
    e = z3.simplify(e, som=True)
    if z3.is_int_value(e):
        return num(e.as_long())
    if e.decl().kind() == z3.Z3_OP_ADD:
        r = num(0)
        for c in e.children():
            r = r + int_num(c)
        return r
    if e.decl().kind() == z3.Z3_OP_MUL:
        coef, rest = 1, []
        for c in e.children():
            if z3.is_int_value(c):
                coef *= c.as_long()
            else:
                rest.append(c)
        t = [Atom(INTSYM, (c,)) for c in rest]
        return Num([Term(GQ(coef), (), (), t)], "i")
    if e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        return (int_num(a).guard(c) + int_num(b).guard(z3.Not(c))).with_kind("i")
    if e.decl().kind() == z3.Z3_OP_UMINUS:
        return -int_num(e.children()[0])
    if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith("isum#"):
        s = SYMS.get(int(e.decl().name()[5:]))
        if s is not None and s.args is not None and not s.fholes:
            return subst_holes(s.args, s, e.children(), [])[0]
    return Num([Term(ONE, (), (), [Atom(INTSYM, (e,))])], "i")


I = Num([Term(GQ(0, 1))], "c")


def ite(c, a, b):
    if isinstance(c, bool):
        return num(a) if c else num(b)
    a, b = num(a), num(b)
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if same_num(a, b):
        return Num(a.terms, kmax(a.kind, b.kind))
    r = a.guard(c) + b.guard(z3.simplify(z3.Not(c)))
    return r.with_kind(kmax(a.kind, b.kind))


def same_num(a, b):
    if len(a.terms) != len(b.terms):
        return False
    ka = sorted(map(term_key, a.terms), key=repr)
    kb = sorted(map(term_key, b.terms), key=repr)
    return ka == kb and [t.coef for t in sorted(a.terms, key=lambda t: repr(term_key(t)))] == \
        [t.coef for t in sorted(b.terms, key=lambda t: repr(term_key(t)))]


def term_key(t):
    return (tuple((b.var.name() if b.perm else b.var.get_id(), b.lo.get_id(), b.hi.get_id()) for b in t.binders),
            tuple(sorted(g.get_id() for g in t.guards)), tuple(sorted(a.key() for a in t.atoms)))


def merge(terms):
    d = {}
    for t in terms:
        k = term_key(t)
        if k in d:
            u = d[k]
            d[k] = Term(u.coef + t.coef, u.binders, u.guards, u.atoms)
        else:
            d[k] = t
    return [t for t in d.values() if not t.coef.zero()]


def Sum(lo, hi, fn, name="s"):
    """sum_{lo <= k < hi} fn(k)"""
    if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 6:
        r = num(0)
        for k in range(lo, hi):
            r = r + fn(k)
        return r
    k = fresh(name)
    return bind(k, lo, hi, num(fn(k)))


def bind(k, lo, hi, body):
    out = []
    for t in body.terms:
        u = mk_term(t.coef, (Binder(k, lo, hi),) + t.binders, t.guards, t.atoms)
        if u is not None:
            out.append(u)
    # each term owns its copy of the bound variable
    out = [t.refresh() if any((not b.perm) and b.var.eq(k) for b in t.binders) and len(body.terms) > 1 else t for t in out]
    return Num(out, body.kind)


def bind_perm(f, n, body):
    out = []
    for t in body.terms:
        out.append(Term(t.coef, (Binder(f, 0, n, True),) + t.binders, t.guards, t.atoms).refresh())
    return Num(out, body.kind)


# ------------------------------------------------------------------------------------------------- light simplification
def conjuncts(g):
    if z3.is_and(g):
        for c in g.children():
            yield from conjuncts(c)
    elif z3.is_not(g) and z3.is_or(g.children()[0]):
        for c in g.children()[0].children():
            yield from conjuncts(z3.simplify(z3.Not(c)))
    elif z3.is_not(g) and z3.is_not(g.children()[0]):
        yield from conjuncts(g.children()[0].children()[0])
    elif z3.is_true(g):
        return
    else:
        yield g


_conj = {}


def conj_list(g):
    """the conjuncts of g, simplified"""
    k = g.get_id()
    r = _conj.get(k)
    if r is None or not r[0].eq(g):
        if len(_conj) > 200000:
            _conj.clear()
        r = _conj[k] = g, list(conjuncts(zsimp(g)))
    return r[1]


def linear(e):
    """e = sum coef*key + const; keys are non-linear or atomic integer terms. returns ({id: (expr, coef)}, const)"""
    out, const = {}, 0

    def go(t, c):
        nonlocal const
        if z3.is_int_value(t):
            const += c * t.as_long()
        elif z3.is_add(t):
            for x in t.children():
                go(x, c)
        elif z3.is_sub(t):
            ch = t.children()
            go(ch[0], c)
            for x in ch[1:]:
                go(x, -c)
        elif t.decl().kind() == z3.Z3_OP_UMINUS:
            go(t.children()[0], -c)
        elif z3.is_mul(t):
            k, rest = 1, []
            for x in t.children():
                if z3.is_int_value(x):
                    k *= x.as_long()
                else:
                    rest.append(x)
            if not rest:
                const += c * k
            elif len(rest) == 1:
                go(rest[0], c * k)
            else:
                m = z3.simplify(z3.Product(*rest))
                key = m.get_id()
                old = out.get(key, (m, 0))[1]
                out[key] = (m, old + c * k)
        else:
            key = t.get_id()
            old = out.get(key, (t, 0))[1]
            out[key] = (t, old + c)
    go(e, 1)
    return {k: v for k, v in out.items() if v[1] != 0}, const


def unlinear(d, const):
    r = None
    for (e, c) in d.values():
        x = e if c == 1 else c * e
        r = x if r is None else r + x
    if r is None:
        return z3.IntVal(const)
    return r if const == 0 else r + const


def solve_eq(g, var):
    """if the conjunct g determines var, return (expr, extra guards)"""
    if not z3.is_eq(g):
        return None
    l, r = g.children()
    if not z3.is_int(l):
        return None
    d, c = linear(l - r)
    k = var.get_id()
    if k not in d:
        return None
    a = d[k][1]
    rest = {q: v for q, v in d.items() if q != k}
    if any(occurs(var, v[0]) for v in rest.values()):
        return None
    if a in (1, -1):
        return z3.simplify(unlinear({q: (v[0], -v[1] * a) for q, v in rest.items()}, -c * a)), []
    e = unlinear({q: (v[0], -v[1] if a > 0 else v[1]) for q, v in rest.items()}, -c if a > 0 else c)
    a = abs(a)
    div = zsimp(e % a == 0)
    return zsimp(e / a), [] if z3.is_true(div) else [div]


def solve_divmod(guards, var):
    """var div m == x and var mod m == y  ->  var = x*m + y"""
    divs, mods = [], []
    for g in guards:
        if z3.is_eq(g) and z3.is_int(g.children()[0]) and has_div(g) and occurs(var, g):
            d, c = linear(g.children()[0] - g.children()[1])
            for k, (a, f) in d.items():
                if f in (1, -1) and z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and a.children()[0].eq(var):
                    rest = {q: (v[0], -v[1] * f) for q, v in d.items() if q != k}
                    if not any(occurs(var, v[0]) for v in rest.values()):
                        (divs if a.decl().kind() == z3.Z3_OP_IDIV else mods).append((a.children()[1], z3.simplify(unlinear(rest, -c * f)), g))
    for m, x, g1 in divs:
        for m2, y, g2 in mods:
            if m.eq(m2) and not occurs(var, m):
                return z3.simplify(x * m + y), [y >= 0, y < m], (g1, g2)
    return None


def stride(guards, var):
    """(var + s) mod c == r with constants  ->  var = c q + d:  (c, d, guard)"""
    for g in guards:
        if z3.is_eq(g) and has_div(g):
            for a, b in (g.children(), g.children()[::-1]):
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(a.children()[1]) and z3.is_int_value(b) and a.children()[1].as_long() > 1:
                    c = a.children()[1].as_long()
                    d, s = linear(a.children()[0])
                    if len(d) == 1 and next(iter(d.values()))[1] == 1 and next(iter(d.values()))[0].eq(var) and 0 <= b.as_long() < c:
                        return c, (b.as_long() - s) % c, g
    return None


def mk_term(coef, binders, guards, atoms):
    """light simplification; None if the term vanishes"""
    if coef.zero():
        return None
    gs, seen = [], set()
    for g in guards:
        if isinstance(g, bool):
            if not g:
                return None
            continue
        for c in conj_list(g):
            if z3.is_false(c):
                return None
            if c.get_id() not in seen:
                seen.add(c.get_id())
                gs.append(c)
    for c in gs:                       # p and not p
        if z3.is_not(c) and c.children()[0].get_id() in seen:
            return None
    changed = True
    binders = list(binders)
    atoms = list(atoms)
    while changed:
        changed = False
        for b in binders:
            if b.perm:
                continue
            hit = None
            for g in gs:
                s = solve_eq(g, b.var)
                if s is not None:
                    hit = (s[0], s[1], (g,))
                    break
            if hit is None:
                hit = solve_divmod(gs, b.var)
            if hit is None and z3.is_int_value(b.lo) and z3.is_int_value(b.hi) and b.hi.as_long() - b.lo.as_long() == 1:
                hit = (b.lo, [], ())
            if hit is not None:
                e, extra, used = hit
                pr = [(b.var, e)]
                raw = [z3.substitute(g, *pr) for g in gs if not any(g is u for u in used)]
                raw += extra + [b.lo <= e, e < b.hi]
                binders = [Binder(x.var, z3.substitute(x.lo, *pr), z3.substitute(x.hi, *pr), x.perm) for x in binders if x is not b]
                atoms = [a.subst(pr) for a in atoms]
                return mk_term(coef, binders, raw, [norm_atom(a) for a in atoms])
            st = stride(gs, b.var)
            if st is not None:
                c, d, g0 = st
                q = fresh("b")
                pr = [(b.var, c * q + d)]
                up = lambda e: zsimp((e - d + c - 1) / c)
                return mk_term(coef, [Binder(q, up(b.lo), up(b.hi)) if x is b else Binder(x.var, z3.substitute(x.lo, *pr), z3.substitute(x.hi, *pr), x.perm) for x in binders],
                               [z3.substitute(g, *pr) for g in gs if g is not g0], [norm_atom(a.subst(pr)) for a in atoms])
    ats = []
    for a in atoms:
        a = norm_atom(a)
        ats.append(a)
    coef, ats = atom_rules(coef, ats)
    if coef.zero():
        return None
    return Term(coef, binders, gs, ats)


_HASDIV = {}


def has_div(e):
    k = e.get_id()
    r = _HASDIV.get(k)
    if r is None or not r[0].eq(e):
        v = z3.is_app(e) and (e.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) or any(has_div(c) for c in e.children())) if not z3.is_quantifier(e) else False
        r = _HASDIV[k] = (e, v)
    return r[1]


def unlin(parts, const):
    t = z3.IntVal(const)
    for x, c in parts:
        t = t + c * x
    return t


def zsimp(e):
    """z3's simplifier, and (c a + b) div c = a + b div c, (c a + b) mod c = b mod c for constants c > 0"""
    k = e.get_id()
    r = _zsimp.get(k)
    if r is None or not r[0].eq(e):
        if len(_zsimp) > 200000:
            _zsimp.clear()
        r = _zsimp[k] = e, zsimp_(e)
    return r[1]


_zsimp = {}                                # keeps the expression alive: ids are not reused


def zsimp_(e):
    e = z3.simplify(e)
    if not has_div(e):
        return e

    def go(t):
        if not has_div(t):
            return t
        ch = [go(c) for c in t.children()]
        if t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(ch[1]) and ch[1].as_long() > 1:
            c = ch[1].as_long()
            lin, const = linear(z3.simplify(ch[0]))
            div = [(x, k // c) for x, k in lin.values() if k % c == 0]
            rest = [(x, k) for x, k in lin.values() if k % c]
            if div or not 0 <= const < c:
                b = z3.simplify(unlin(rest, const % c))
                if t.decl().kind() == z3.Z3_OP_MOD:
                    return b % c if rest else z3.IntVal(const % c)
                return unlin(div, const // c) + (b / c if rest else 0)
        return t.decl()(*ch)
    return z3.simplify(go(e))


def norm_atom(a):
    idx = tuple(zsimp(e) for e in a.idx)
    return Atom(a.sym, idx, a.conj, a.fidx)


def atom_rules(coef, ats):
    """sqrt(k)*sqrt(k) = k ; inv(x)*x = 1"""
    cnt = {}
    out = []
    for a in ats:
        if a.sym is INTSYM and z3.is_int_value(a.idx[0]):
            coef = coef * GQ(a.idx[0].as_long())
            continue
        if a.sym.attrs.get("sqrt"):
            cnt[a.sym] = cnt.get(a.sym, 0) + 1
            continue
        out.append(a)
    for s, c in cnt.items():
        coef = coef * GQ(Fr(s.attrs["sqrt"]) ** (c // 2))
        if c % 2:
            out.append(Atom(s))
    # inverse pairs (a divisor is non-zero)
    i = 0
    while i < len(out):
        base = inverse_of(out[i])
        if base is not None:
            j = next((j for j, b in enumerate(out) if j != i and b.key() == base.key()), None)
            if j is not None:
                for q in sorted((i, j), reverse=True):
                    del out[q]
                i = 0
                continue
        i += 1
    # u conj(u) / |u|^2 = 1
    for a in out:
        b = inverse_of(a)
        u = None if b is None else sole_atom(b, "abs")
        if u is None:
            continue
        need, pick = [a.key(), a.key(), u.key(), u.conjugate().key()], []
        for k in need:
            j = next((j for j, x in enumerate(out) if j not in pick and x.key() == k), None)
            if j is None:
                break
            pick.append(j)
        if len(pick) == 4:
            return atom_rules(coef, [x for j, x in enumerate(out) if j not in pick])
    return coef, out


def sole_atom(a, fname):
    """the atom b with a = fname(b), if the argument is a single atom"""
    s = a.sym
    if s.fname != fname or s.args is None:
        return None
    x = s.args[0]
    if not isinstance(x, Num) or len(x.terms) != 1 or x.terms[0].binders or x.terms[0].guards or len(x.terms[0].atoms) != 1 or not x.terms[0].coef == GQ(1):
        return None
    b = subst_holes(x, s, a.idx[:len(s.holes)], a.fidx).terms
    return b[0].atoms[0] if len(b) == 1 and len(b[0].atoms) == 1 else None


def inverse_of(a):
    """the atom b with a = 1/b, if a is the inverse of a single atom"""
    s = a.sym
    if s.fname != "inv" or s.args is None:
        return None
    x = s.args[0]
    if not isinstance(x, Num) or len(x.terms) != 1 or x.terms[0].binders or x.terms[0].guards or len(x.terms[0].atoms) != 1 or not x.terms[0].coef == GQ(1):
        return None
    b = subst_holes(x, s, a.idx[:len(s.holes)], a.fidx).terms
    if len(b) != 1 or len(b[0].atoms) != 1:
        return None
    b = b[0].atoms[0]
    return b.conjugate() if a.conj else b


_SQRT = {}


def sqrt_const(fr):
    """exact square root of a non-negative rational"""
    p, q = fr.numerator, fr.denominator
    n = p * q            # sqrt(p/q) = sqrt(pq)/q
    s, k = 1, n
    d = 2
    while d * d <= k:
        while k % (d * d) == 0:
            k //= d * d
            s *= d
        d += 1
    c = Num([Term(GQ(Fr(s, q)))] if s else (), "f")
    if n == 0:
        return Num((), "f")
    if k == 1:
        return c
    if k not in _SQRT:
        _SQRT[k] = Sym(f"sqrt{k}", 0, real=True, attrs={"sqrt": k}, nonneg=True)
    return c * Num([Term(ONE, (), (), [Atom(_SQRT[k])])], "f")


# ------------------------------------------------------------------------------------------------- opaque applications
REG = {}


class Skel:
    """lambda-lifting: integer sub-terms without inner-bound variables become holes"""

    def __init__(self):
        self.holes = []
        self.fholes = []
        self.bound = {}
        self.fbound = {}

    def hole(self, e):
        e = z3.simplify(e)
        for i, h in enumerate(self.holes):
            if h.eq(e):
                return f"?{i}"
        self.holes.append(e)
        return f"?{len(self.holes) - 1}"

    def fhole(self, f):
        for i, h in enumerate(self.fholes):
            if h.eq(f):
                return f"?F{i}"
        self.fholes.append(f)
        return f"?F{len(self.fholes) - 1}"

    def has_bound(self, e):
        return any(occurs(v, e) for v in self.bound.values()) or any(occurs(v, e) for v in self.fbound.values())

    def z(self, e):
        """render a z3 term"""
        if z3.is_int(e) and not self.has_bound(e):
            if z3.is_int_value(e):
                return str(e)
            return self.hole(e)
        if z3.is_const(e):
            for n, v in self.bound.items():
                if v.eq(e):
                    return n
            if z3.is_bool(e) or z3.is_real(e) or z3.is_rational_value(e):
                return e.sexpr()
            return self.hole(e)
        ch = e.children()
        d = e.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            nm = None
            for n, v in self.fbound.items():
                if v.eq(d):
                    nm = n
            if nm is None:
                nm = self.fhole(d) if d.name().startswith("perm!") else d.name()
        else:
            nm = d.name()
        return "(" + nm + " " + " ".join(self.z(c) for c in ch) + ")"

    def num(self, x):
        def blind(t):
            s = Skel()
            s.bound = dict(self.bound)
            s.fbound = dict(self.fbound)
            return s.term(t, blind=True)
        ts = sorted(x.terms, key=blind)
        return "{" + "+".join(self.term(t) for t in ts) + "}"

    def term(self, t, blind=False):
        saved = dict(self.bound), dict(self.fbound)
        parts = [repr(t.coef)]
        for i, b in enumerate(t.binders):
            nm = f"@{len(self.bound)}"
            if b.perm:
                nm = f"@P{len(self.fbound)}"
                parts.append(f"{nm}<{self.z(b.hi)}")
                self.fbound[nm] = b.var
            else:
                parts.append(f"{nm}:{self.z(b.lo)}..{self.z(b.hi)}")
                self.bound[nm] = b.var
        gs = list(t.guards)
        if len(gs) > 1:
            gs.sort(key=self._blindz)
        ats = list(t.atoms)
        if len(ats) > 1:
            ats.sort(key=self._blinda)
        parts += ["[" + self.z(g) + "]" for g in gs]
        parts += [self.atom(a) for a in ats]
        self.bound, self.fbound = saved
        return " ".join(parts)

    def _blindz(self, g):
        s = Skel()
        s.bound, s.fbound = dict(self.bound), dict(self.fbound)
        r = s.z(g)
        import re
        return re.sub(r"\?\d+", "?", r) + r

    def _blinda(self, a):
        s = Skel()
        s.bound, s.fbound = dict(self.bound), dict(self.fbound)
        return s.atom(a)

    def atom(self, a):
        r = f"#{a.sym.id}" + ("*" if a.conj else "")
        ix = [self.z(e) for e in a.idx]
        for f in a.fidx:
            nm = None
            for n, v in self.fbound.items():
                if v.eq(f):
                    nm = n
            ix.append(nm or self.fhole(f))
        return r + "(" + ",".join(ix) + ")"

    def lam(self, kinds, fn):
        """a function of integer variables"""
        vs = []
        saved = dict(self.bound)
        for _ in range(kinds):
            v = fresh("l")
            self.bound[f"@{len(self.bound)}"] = v
            vs.append(v)
        r = self.any(fn(*vs))
        self.bound = saved
        return f"(lam{kinds} {r})"

    def any(self, x):
        if isinstance(x, Num):
            return self.num(norm_arg(x))
        if isinstance(x, bool) or x is None or isinstance(x, str):
            return repr(x)
        if isinstance(x, int):
            return str(x)
        if isinstance(x, z3.ExprRef):
            e = z3.simplify(x)
            return self.z(e)
        if isinstance(x, Fr):
            return str(x)
        if isinstance(x, (tuple, list)):
            return "<" + ",".join(self.any(y) for y in x) + ">"
        if isinstance(x, Lam):
            return self.lam(x.arity, x.fn)
        if hasattr(x, "skel_parts"):
            return "<" + ",".join(self.any(y) for y in x.skel_parts()) + ">"
        raise Unsupported(f"argument of an opaque function: {type(x).__name__}")


class Lam:
    """closed function of `arity` integers, with ranges used when two of them are compared"""

    def __init__(self, arity, fn, dims=None):
        self.arity = arity
        self.fn = fn
        self.dims = dims


def norm_arg(x):
    return simplify(x, [])


def inst_args(args, old_holes, new, fpairs):
    """substitute holes in stored args"""
    pairs = list(zip(old_holes, new))

    def go(x):
        if isinstance(x, Num):
            return x.subst(pairs, fpairs)
        if isinstance(x, z3.ExprRef):
            e = z3.substitute(x, *pairs) if pairs else x
            return subst_fun(e, fpairs) if fpairs else e
        if isinstance(x, (tuple, list)):
            return tuple(go(y) for y in x)
        if isinstance(x, Lam):
            return Lam(x.arity, lambda *v: go(x.fn(*v)), None if x.dims is None else tuple(go(d) for d in x.dims))
        return x
    return go(args)


def to_parts(x):
    if hasattr(x, "skel_parts"):
        return tuple(to_parts(y) for y in x.skel_parts())
    if isinstance(x, (tuple, list)):
        return tuple(to_parts(y) for y in x)
    return x


def opaque(fname, args, idx=(), real=False, attrs=None, nonneg=False, kind=None):
    """entry idx of the opaque value fname(args)"""
    args = to_parts(args)
    sk = Skel()
    key = (fname, sk.any(args), len(idx))
    sym = REG.get(key)
    if sym is None:
        vs = [z3.Int(f"h{i}!{next(_fresh)}") for i in range(len(sk.holes))]
        stored, hs = args, tuple(sk.holes)
        sym = Sym(fname, len(vs) + len(idx), real=real, attrs=attrs or {}, fname=fname, args=stored, holes=hs,
                  fholes=tuple(sk.fholes), key=key, nonneg=nonneg)
        REG[key] = sym
        m = try_merge(sym)
        if m is not None:
            REG[key] = m
            sym = m
    a = Atom(sym, tuple(sk.holes) + tuple(zint(e) for e in idx), False, tuple(sk.fholes))
    return Num([Term(ONE, (), (), [a])], kind or ("f" if sym.real else "c"))


def subst_holes(args, sym, new, fnew):
    """args of sym with its holes replaced (by generalisation of the stored instance)"""
    pairs = [(h, n) for h, n in zip(sym.holes, new)]
    fp = [(a, b) for a, b in zip(sym.fholes, fnew)]
    # holes that are compound terms: replace largest first
    return gen_subst(args, pairs, fp)


def gen_subst(x, pairs, fp):
    if isinstance(x, Num):
        out = []
        for t in x.terms:
            u = Term(t.coef, [Binder(b.var, rep(b.lo, pairs, fp), rep(b.hi, pairs, fp), b.perm) for b in t.binders],
                     [rep(g, pairs, fp) for g in t.guards],
                     [Atom(a.sym, [rep(e, pairs, fp) for e in a.idx], a.conj,
                           [dict((p.name(), q) for p, q in fp).get(f.name(), f) for f in a.fidx]) for a in t.atoms])
            u = mk_term(u.coef, u.binders, u.guards, u.atoms)
            if u is not None:
                out.append(u)
        return Num(merge(out), x.kind)
    if isinstance(x, z3.ExprRef):
        return rep(x, pairs, fp)
    if isinstance(x, (tuple, list)):
        return tuple(gen_subst(y, pairs, fp) for y in x)
    if isinstance(x, Lam):
        return Lam(x.arity, lambda *v: gen_subst(x.fn(*v), pairs, fp),
                   None if x.dims is None else tuple(gen_subst(d, pairs, fp) for d in x.dims))
    return x


_size = {}


def expr_size(e):
    k = e.get_id()
    if k not in _size:
        _size[k] = (e, 1 + sum(expr_size(c) for c in e.children()))
    return _size[k][1]


def rep(e, pairs, fp):
    if isinstance(e, (bool, int)) or e is None:
        return e
    if pairs:
        if len(pairs) > 1:
            pairs = sorted(pairs, key=lambda p: -expr_size(p[0]))
        e = z3.substitute(z3.simplify(e), *pairs)
    if fp:
        e = subst_fun(e, fp)
    return e


MERGING = [0]


def try_merge(sym):
    """an existing symbol with provably equal arguments (same number of holes, aligned in order)"""
    if MERGING[0] > 2:
        return None
    MERGING[0] += 1
    try:
        for s in list(REG.values()):
            if s is sym or s.fname != sym.fname or s.arity != sym.arity or len(s.holes) != len(sym.holes) \
                    or len(s.fholes) != len(sym.fholes) or s.key[2] != sym.key[2]:
                continue
            if not all(z3.is_const(h) for h in s.holes + sym.holes):
                continue
            if len({h.get_id() for h in s.holes}) != len(s.holes) or len({h.get_id() for h in sym.holes}) != len(sym.holes):
                continue
            new = [fresh("h") for _ in sym.holes]
            fnew = [fresh_perm() for _ in sym.fholes]
            try:
                a = subst_holes(s.args, s, new, fnew)
                b = subst_holes(sym.args, sym, new, fnew)
                if args_equal(a, b, GLOBAL_GAMMA):
                    return s
            except Unsupported:
                continue
        return None
    finally:
        MERGING[0] -= 1


GLOBAL_GAMMA = []


def args_equal(a, b, gamma):
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(args_equal(x, y, gamma) for x, y in zip(a, b))
    if isinstance(a, Lam) and isinstance(b, Lam):
        if a.arity != b.arity:
            return False
        vs = [fresh("v") for _ in range(a.arity)]
        g = list(gamma)
        if a.dims is not None:
            g += [z3.And(v >= 0, v < zint(d)) for v, d in zip(vs, a.dims)]
        return args_equal(a.fn(*vs), b.fn(*vs), g)
    if isinstance(a, Num) or isinstance(b, Num):
        try:
            return prove_equal(num(a), num(b), gamma)[0] == "proved"
        except Unsupported:
            return False
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
        try:
            return valid(gamma, zbool(a) == zbool(b))
        except Unsupported:
            return False
    if isinstance(a, (int, z3.ArithRef)) and isinstance(b, (int, z3.ArithRef)):
        return valid(gamma, zint(a) == zint(b))
    return type(a) is type(b) and a == b


PREDS = {}


def opaque_apps(exprs):
    """ground applications of opaque predicates and integer functions"""
    out, seen = {}, set()
    st = list(exprs)
    while st:
        e = st.pop()
        if isinstance(e, bool) or e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            continue
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and "#" in e.decl().name():
            i = e.decl().name().rsplit("#", 1)[1]
            s = SYMS.get(int(i)) if i.isdigit() else None
            if s is not None and s.args is not None and (s.fname.startswith("?") or s.fname.startswith("#")):
                out[e.get_id()] = (e, s)
        st.extend(e.children())
    return list(out.values())


def opaque_facts(gamma, goal):
    """equalities between opaque applications whose arguments are provably equal under gamma"""
    apps = opaque_apps(list(gamma) + [goal])
    facts = []
    for n, (e, s) in enumerate(apps):
        for (f, t) in apps[:n]:
            if s.fname != t.fname or e.eq(f):
                continue
            try:
                x = subst_holes(s.args, s, e.children(), [])
                y = subst_holes(t.args, t, f.children(), [])
                if args_equal(x, y, gamma):
                    facts.append(e == f)
            except (Unsupported, z3.Z3Exception):
                continue
    return facts


def soft_expr(e):
    st, seen = [e], set()
    while st:
        e = st.pop()
        if isinstance(e, bool) or e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            st.append(e.body())
            continue
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and "#" in e.decl().name():
            i = e.decl().name().rsplit("#", 1)[1]
            s = SYMS.get(int(i)) if i.isdigit() else None
            if s is None or s.args is not None:
                return True
        st.extend(e.children())
    return False



def pred(fname, args):
    """opaque boolean predicate of the arguments, as a z3 Bool"""
    n = opaque("?" + fname, args, real=True)
    a = n.terms[0].atoms[0]
    s = a.sym
    if s.attrs.get("pred") is None:
        s.attrs["pred"] = z3.Function(f"{fname}#{s.id}", *([z3.IntSort()] * len(a.idx)), z3.BoolSort()) if a.idx \
            else z3.Bool(f"{fname}#{s.id}")
    p = s.attrs["pred"]
    return p(*a.idx) if a.idx else p


INTF = {}


def opaque_int(fname, args):
    """opaque integer-valued function of the arguments, as a z3 Int"""
    n = opaque("#" + fname, args, real=True)
    a = n.terms[0].atoms[0]
    s = a.sym
    if s.attrs.get("intf") is None:
        s.attrs["intf"] = z3.Function(f"{fname}#{s.id}", *([z3.IntSort()] * len(a.idx)), z3.IntSort()) if a.idx \
            else z3.Int(f"{fname}#{s.id}")
    p = s.attrs["intf"]
    return p(*a.idx) if a.idx else p


# ------------------------------------------------------------------------------------------------- real comparisons
def is_real(x):
    """the number is provably real (syntactically)"""
    if x.kind in "bif":
        return True
    d = x - x.conj()
    return d.is_zero() or not simplify(d, []).terms


def to_real(x):
    """z3 Real term of a real number"""
    x = simplify(num(x), [])
    tot = None
    for t in x.terms:
        if t.coef.im != 0:
            raise Unsupported("comparison of a complex number")
        if t.binders:
            o = opaque("sum", (Num([Term(ONE, t.binders, t.guards, t.atoms)], x.kind),), real=True)
            e = atom_real(o.terms[0].atoms[0])
            e = z3.RealVal(str(t.coef.re)) * e
        else:
            e = z3.RealVal(str(t.coef.re))
            for a in t.atoms:
                if not a.sym.real:
                    raise Unsupported("comparison of a complex entry")
                e = e * atom_real(a)
            if t.guards:
                e = z3.If(z3.And(*t.guards), e, z3.RealVal(0))
        tot = e if tot is None else tot + e
    return z3.RealVal(0) if tot is None else tot


def atom_real(a):
    if a.sym is INTSYM:
        return z3.ToReal(a.idx[0])
    d = a.sym.decl()
    if a.fidx:
        raise Unsupported("comparison depending on a permutation")
    e = d(*a.idx) if a.idx else d
    if a.sym.attrs.get("sqrt"):
        k = a.sym.attrs["sqrt"]
        add_fact_named(e > 0)
        add_fact_named(e * e == k)
    elif a.sym.nonneg:
        _inst_fact(e)
    return e


def add_fact_named(f):
    add_fact(f)


_inst = {}


def _inst_fact(e):
    if e.get_id() not in _inst:
        _inst[e.get_id()] = e
    add_fact(e >= 0)


def cmp(op, a, b):
    """comparison of two numbers as z3 Bool / bool"""
    a, b = num(a), num(b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        if op == "==":
            return ca == cb
        if op == "!=":
            return not (ca == cb)
        if ca.im or cb.im:
            raise Unsupported("ordering of complex numbers")
        return {"<": ca.re < cb.re, "<=": ca.re <= cb.re, ">": ca.re > cb.re, ">=": ca.re >= cb.re}[op]
    z = positive_sum(a, b) if op in ("==", "!=", ">", "<=") else None
    if z is not None:
        return z if op in ("==", "<=") else z3.Not(zbool(z)) if not isinstance(z, bool) else not z
    if op in ("==", "!="):
        d = a - b
        if is_real(d):
            try:
                e = to_real(d) == 0
            except Unsupported:
                e = pred("iszero", (d,))
        else:
            e = pred("iszero", (d,))
        return e if op == "==" else z3.Not(e)
    x, y = to_real(a), to_real(b)
    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]


def positive_sum(a, b):
    """a == 0 for a sum of positive constants under guards: none of the guards can hold"""
    if b.terms or not a.terms or not any(t.binders for t in a.terms):
        return None
    out = []
    for t in simplify(a, []).terms:
        if t.atoms or t.coef.im != 0 or t.coef.re <= 0 or any(x.perm for x in t.binders):
            return None
        g = And(*[x.range() for x in t.binders], *t.guards)
        out.append(Not(z3.Exists([x.var for x in t.binders], g)) if t.binders and g is not True and g is not False else Not(g))
    return And(*out)


# ------------------------------------------------------------------------------------------------- full simplification
def simplify(x, gamma):
    """normalise under the hypotheses gamma"""
    out = []
    for t in x.terms:
        u = simp_term(t, gamma)
        if u is not None:
            out.extend(u)
    return Num(merge(out), x.kind)


def simp_term(t, gamma):
    t = mk_term(t.coef, t.binders, t.guards, t.atoms)
    if t is None:
        return None
    ctx = list(gamma) + [b.range() for b in t.binders if not b.perm]
    # vanishing
    if t.guards or any(not b.perm for b in t.binders):
        if t.guards and vanishes(ctx + list(t.guards)):
            return None
        if not t.guards and gamma and any(not b.perm for b in t.binders) and vanishes(ctx):
            return None
    # contraction of unitary entries
    for rule in (contract_unitary, contract_sum1, contract_hits, pin_binder, unused_binder):
        u = rule(t, gamma)
        if u is not None:
            r = []
            for v in u:
                w = simp_term(v, gamma)
                if w is not None:
                    r.extend(w)
            return r
    return [t]


def pin_binder(t, gamma):
    """a guard set that forces a bound variable to a value although no single conjunct is an equality"""
    return None


def unused_binder(t, gamma):
    for b in t.binders:
        if b.perm:
            continue
        used = any(occurs(b.var, e) for a in t.atoms for e in a.idx) or any(occurs(b.var, g) for g in t.guards) or \
            any(occurs(b.var, e) for c in t.binders if c is not b for e in (c.lo, c.hi))
        if not used:
            rest = [c for c in t.binders if c is not b]
            cnt = int_num(b.hi - b.lo)
            res = Num([Term(t.coef, rest, t.guards + (b.hi > b.lo,), t.atoms)], "c") * cnt
            return list(res.terms)
    return None


def contract_unitary(t, gamma):
    """sum_k U[k,i]^* U[k,j] = delta_ij and sum_k U[i,k] U[j,k]^* = delta_ij for unitary U with full range of k"""
    for b in t.binders:
        if b.perm:
            continue
        occ = [(n, a) for n, a in enumerate(t.atoms) if any(occurs(b.var, e) for e in a.idx)]
        if len(occ) != 2 or any(occurs(b.var, e) for c in t.binders if c is not b for e in (c.lo, c.hi)):
            continue
        (n1, a1), (n2, a2) = occ
        if a1.sym is not a2.sym or a1.fidx != a2.fidx:
            continue
        s = a1.sym
        dim = s.attrs.get("unitary")
        if dim is None:
            continue
        if not s.real and a1.conj == a2.conj:
            continue
        pre1, pre2 = a1.idx[:-2], a2.idx[:-2]
        if any(not x.eq(y) for x, y in zip(pre1, pre2)):
            continue
        dimv = dim(*pre1) if callable(dim) else dim
        for pos in (0, 1):
            e1, e2 = a1.idx[-2 + pos], a2.idx[-2 + pos]
            o1, o2 = a1.idx[-1 - pos], a2.idx[-1 - pos]
            if occurs(b.var, o1) or occurs(b.var, o2):
                continue
            # both summed indices equal b + c with the same offset
            if not valid(gamma, e1 == e2):
                continue
            d, c = linear(e1)
            if b.var.get_id() not in d or d[b.var.get_id()][1] not in (1, -1):
                continue
            gk = [g for g in t.guards if occurs(b.var, g)]
            go = [g for g in t.guards if not occurs(b.var, g)]
            inner = z3.And(b.range(), *gk) if gk else b.range()
            full = z3.And(e1 >= 0, e1 < zint(dimv))
            if not valid(list(gamma) + go + [c.range() for c in t.binders if c is not b and not c.perm], inner == full):
                continue
            rest = [c2 for c2 in t.binders if c2 is not b]
            ats = [a for n, a in enumerate(t.atoms) if n not in (n1, n2)]
            return [Term(t.coef, rest, tuple(go) + (o1 == o2,), ats)]
    return None


# ------------------------------------------------------------------------------------------------- equality prover
def contract_sum1(t, gamma):
    """sum_k p[k] = 1 over the full range of a probability vector p"""
    for b in t.binders:
        if b.perm or any(occurs(b.var, e) for c in t.binders if c is not b for e in (c.lo, c.hi)):
            continue
        occ = [(n, a) for n, a in enumerate(t.atoms) if any(occurs(b.var, e) for e in a.idx)]
        if len(occ) != 1:
            continue
        n1, a1 = occ[0]
        dim = a1.sym.attrs.get("sum1")
        if dim is None or any(occurs(b.var, e) for e in a1.idx[:-1]):
            continue
        e1 = a1.idx[-1]
        dimv = dim(*a1.idx[:-1]) if callable(dim) else dim
        d, c = linear(e1)
        if b.var.get_id() not in d or d[b.var.get_id()][1] not in (1, -1):
            continue
        gk = [g for g in t.guards if occurs(b.var, g)]
        go = [g for g in t.guards if not occurs(b.var, g)]
        inner = z3.And(b.range(), *gk) if gk else b.range()
        full = z3.And(e1 >= 0, e1 < zint(dimv))
        if not valid(list(gamma) + go + [c.range() for c in t.binders if c is not b and not c.perm], inner == full):
            continue
        return [Term(t.coef, [c2 for c2 in t.binders if c2 is not b], tuple(go), [a for n, a in enumerate(t.atoms) if n != n1])]
    return None


def contract_hits(t, gamma):
    """sum_j [j is one of f(0), .., f(m-1)] = m, over a range of j that contains these distinct numbers (the negation: the rest)"""
    for b in t.binders:
        if b.perm or any(occurs(b.var, e) for c in t.binders if c is not b for e in (c.lo, c.hi)) or any(occurs(b.var, e) for a in t.atoms for e in a.idx):
            continue
        gk = [g for g in t.guards if occurs(b.var, g)]
        if len(gk) != 1:
            continue
        neg = z3.is_not(gk[0])
        g = gk[0].children()[0] if neg else gk[0]
        if not z3.is_app(g) or g.decl().kind() != z3.Z3_OP_UNINTERPRETED or not z3.is_bool(g) or not g.decl().name().startswith("?hit#") and not g.decl().name().startswith("hit#"):
            continue
        s = SYMS.get(int(g.decl().name().rsplit("#", 1)[1]))
        if s is None or s.args is None:
            continue
        ln, f, j = subst_holes(s.args, s, g.children(), [])
        if not j.eq(b.var):
            continue
        x, y = (z3.Int(f"hit!{next(_fresh)}") for _ in range(2))
        go = [h for h in t.guards if not occurs(b.var, h)]
        ctx = list(gamma) + go + [c.range() for c in t.binders if c is not b and not c.perm] + [x >= 0, x < ln, y >= 0, y < ln]
        fx, fy = hit_index(f, x), hit_index(f, y)
        if not valid(ctx, z3.And(fx >= b.lo, fx < b.hi)) or not valid(ctx + [x != y], fx != fy):
            continue
        cnt = int_num(ln if valid(ctx[:-4], ln >= 0) else z3.If(ln > 0, ln, 0))
        if neg:
            cnt = int_num(b.hi - b.lo if valid(ctx[:-4], b.hi >= b.lo) else z3.If(b.hi > b.lo, b.hi - b.lo, 0)) - cnt
        rest = [c for c in t.binders if c is not b]
        return list((Num([Term(t.coef, rest, tuple(go), t.atoms)], "c") * cnt).terms)
    return None


def hit_index(f, x):
    """entry x of the integer sequence f"""
    e = f.fn(x)
    if isinstance(e, Num):
        t = e.terms[0] if len(e.terms) == 1 else None
        if t is None or t.guards or t.binders or not t.coef == ONE or len(t.atoms) != 1 or t.atoms[0].sym is not INTSYM:
            raise Unsupported("index sequence")
        return t.atoms[0].idx[0]
    return zint(e)


def group_key(t):
    return (tuple(sorted((a.sym.id, a.conj) for a in t.atoms)), tuple(sorted(b.perm for b in t.binders)))


def prove_equal(a, b, gamma):
    """('proved'|'failed'|'unknown', info): info has a model for 'failed'"""
    STATS["algebra"] += 1
    return prove_zero(num(a) - num(b), gamma)


def prove_zero(d, gamma):
    d = simplify(d, gamma)
    if not d.terms:
        return "proved", None
    groups = {}
    for t in d.terms:
        groups.setdefault(group_key(t), []).append(t)
    failed = []
    for k, ts in groups.items():
        r = prove_group(ts, gamma)
        if r[0] != "proved":
            failed.append((k, ts, r))
    if not failed:
        return "proved", None
    # opaque applications with equal arguments in context
    rest = [t for _, ts, _ in failed for t in ts]
    u = unify_opaque(rest, gamma)
    if u is not None:
        return prove_zero(Num(u, d.kind), gamma)
    if not any(soft(t) for t in rest):          # a soft term elsewhere may cancel any other one
        for k, ts, r in failed:
            if r[0] == "failed":
                return "failed", {"model": r[1], "terms": ts}
    return "unknown", {"terms": rest, "why": failed[0][2][1]}


def soft(t):
    """does the term mention symbols with a meaning the prover does not fully know? (a model is then no counterexample)"""
    for a in t.atoms:
        if a.sym.args is not None or any(k in a.sym.attrs for k in ("inv_of", "unitary", "hermitian")):
            return True
    return any(soft_expr(g) for g in t.guards)


def unify_opaque(ts, gamma):
    """replace an opaque atom by another one with provably equal arguments; None if nothing applies"""
    ats = []
    for n, t in enumerate(ts):
        for m, a in enumerate(t.atoms):
            if a.sym.fname and a.sym.args is not None:
                ats.append((n, m, a, t))
    for (n1, m1, a, t) in ats:
        for (n2, m2, b, u) in ats:
            if (n1, m1) >= (n2, m2) or a.sym.fname != b.sym.fname or a.sym is b.sym and not a.sym.holes:
                continue
            if a.sym.key[2] != b.sym.key[2]:
                continue
            if a.sym is b.sym and a.key()[2:] == b.key()[2:]:
                continue
            na, nb = len(a.sym.holes), len(b.sym.holes)
            ctx = list(gamma)
            if n1 == n2:
                ctx += list(t.guards) + [x.range() for x in t.binders if not x.perm]
            elif t.binders or u.binders:
                if t.binders and (any(occurs(x.var, e) for x in t.binders for e in a.idx[:na])):
                    continue
                if u.binders and (any(occurs(x.var, e) for x in u.binders for e in b.idx[:nb])):
                    continue
                ctx += [g for g in t.guards if not any(occurs(x.var, g) for x in t.binders)]
                ctx += [g for g in u.guards if not any(occurs(x.var, g) for x in u.binders)]
            else:
                ctx += list(t.guards) + list(u.guards)
            if unsat(ctx):
                continue
            x = subst_holes(a.sym.args, a.sym, a.idx[:na], a.fidx)
            y = subst_holes(b.sym.args, b.sym, b.idx[:nb], b.fidx)
            if a.sym is b.sym and all(p.eq(q) for p, q in zip(a.idx[:na], b.idx[:nb])):
                continue
            try:
                ok = args_equal(x, y, ctx)
            except Unsupported:
                ok = False
            if ok:
                nb_atom = Atom(a.sym, a.idx[:na] + b.idx[nb:], b.conj, a.fidx)
                g = []
                if n1 != n2:
                    # valid where both terms are alive: split the second term on the guards of the first
                    g = [q for q in t.guards if not any(occurs(x.var, q) for x in t.binders)]
                v = Term(u.coef, u.binders, u.guards + tuple(g), u.atoms[:m2] + (nb_atom,) + u.atoms[m2 + 1:])
                out = [w for k, w in enumerate(ts) if k != n2] + [v]
                if g:
                    out.append(Term(u.coef, u.binders, u.guards + (z3.Not(z3.And(*g)),), u.atoms))
                return out
    return None


def prove_group(ts, gamma):
    """all terms have the same multiset of symbols and the same kinds of binders"""
    ref = ts[0]
    if len(ts) == 1 and not ref.binders:
        # a single surviving term: not identically zero unless its guard is impossible
        r, m = check(list(gamma) + list(ref.guards))
        return ("proved", None) if r == "unsat" else (("failed", m) if r == "sat" else ("unknown", "z3"))
    order = sorted(range(len(ref.atoms)), key=lambda i: (ref.atoms[i].sym.id, ref.atoms[i].conj))
    ref_atoms = [ref.atoms[i] for i in order]
    cols = [(ref.coef, ref.guards, ref_atoms, ref)]
    todo = list(ts[1:])
    leftover = []
    for t in todo:
        al = align(ref, ref_atoms, t, gamma)
        if al is None:
            leftover.append(t)
        else:
            cols.append(al)
    if not leftover and len(cols) == 2 and not ref.atoms:
        r = solve_cols(cols, ref, gamma)
        if r[0] != "proved":
            for al in alignments(ref, todo[0], gamma):
                if solve_cols([cols[0], al], ref, gamma)[0] == "proved":
                    return "proved", None
            if len(ref.binders) > 1:
                return "unknown", "counts differ"
        return r
    if leftover:
        # leftover terms may cancel among themselves
        r1 = solve_cols(cols, ref, gamma)
        if r1[0] == "proved":
            return prove_group(leftover, gamma)
        # try another reference
        for i in range(1, min(len(ts), 4)):
            rot = ts[i:] + ts[:i]
            r = prove_group_noretry(rot, gamma)
            if r[0] == "proved":
                return r
        return ("unknown", "bound variables could not be aligned") if r1[0] != "failed" else ("failed", r1[1])
    return solve_cols(cols, ref, gamma)


def prove_group_noretry(ts, gamma):
    ref = ts[0]
    order = sorted(range(len(ref.atoms)), key=lambda i: (ref.atoms[i].sym.id, ref.atoms[i].conj))
    ref_atoms = [ref.atoms[i] for i in order]
    cols, left = [(ref.coef, ref.guards, ref_atoms, ref)], []
    for t in ts[1:]:
        al = align(ref, ref_atoms, t, gamma)
        if al is None:
            left.append(t)
        else:
            cols.append(al)
    r = solve_cols(cols, ref, gamma)
    if r[0] != "proved":
        return r
    return prove_group_noretry(left, gamma) if left else r


_ufs = {}


def solve_cols(cols, ref, gamma):
    r = solve_cols_(cols, ref, gamma)
    if r[0] != "proved" and len(cols) > 2 and len({(a.sym.id, a.conj) for a in cols[0][2]}) < len(cols[0][2]):
        new = [c if c[3] is ref or c[2] == cols[0][2] else (c[0], c[1], sort_slots(c[2]), c[3]) for c in cols]
        if solve_cols_(new, ref, gamma)[0] == "proved":
            return "proved", None
    return r


def sort_slots(atoms):
    """the factors with equal symbols in a canonical order (multiplication commutes)"""
    out = list(atoms)
    for k in {(a.sym.id, a.conj) for a in atoms}:
        pos = [i for i, a in enumerate(atoms) if (a.sym.id, a.conj) == k]
        for i, a in zip(pos, sorted((atoms[i] for i in pos), key=lambda a: [e.sexpr() for e in a.idx])):
            out[i] = a
    return out


def solve_cols_(cols, ref, gamma):
    """for all integer values of the (common) bound variables: sum_c coef_c [range_c and g_c] F(idx_c) = 0 with F uninterpreted"""
    ctx = list(gamma)
    own = tuple(b.range() for b in ref.binders if not b.perm)
    if own:
        cols = [(c, tuple(g) + own, a, t) if t is ref else (c, g, a, t) for c, g, a, t in cols]
    for part in ("re", "im"):
        if all(getattr(c[0], part) == 0 for c in cols):
            continue
        key = (tuple((a.sym.id, a.conj, tuple(f.name() for f in a.fidx)) for a in cols[0][2]))
        n = sum(len(a.idx) for a in cols[0][2])
        uf = _ufs.get((key, n))
        if uf is None:
            uf = z3.Function(f"F!{next(_fresh)}", *([z3.IntSort()] * n), z3.RealSort()) if n else z3.Real(f"F!{next(_fresh)}")
            _ufs[(key, n)] = uf
        tot = z3.RealVal(0)
        for coef, guards, atoms, t in cols:
            ix = [e for a in atoms for e in a.idx]
            v = uf(*ix) if n else uf
            v = z3.RealVal(str(getattr(coef, part))) * v
            if guards:
                v = z3.If(z3.And(*guards), v, z3.RealVal(0))
            tot = tot + v
        # split the sum over index equality classes: F is arbitrary, so z3 decides with congruence
        r, m = check(ctx + [tot != 0])
        if r != "unsat":
            return ("failed", m) if r == "sat" else ("unknown", "z3: unknown")
    return "proved", None


def align(ref, ref_atoms, t, gamma):
    """rename t's bound variables to those of ref; returns a column or None"""
    pos = {}
    for i, a in enumerate(t.atoms):
        pos.setdefault((a.sym.id, a.conj), []).append(i)
    slots = {}
    for i, a in enumerate(ref_atoms):
        slots.setdefault((a.sym.id, a.conj), []).append(i)
    keys = list(slots)
    choices = [list(itertools.permutations(pos[k])) if len(pos[k]) <= 4 else [tuple(pos[k])] for k in keys]
    tries = 0
    best = None
    for combo in itertools.product(*choices):
        tries += 1
        if tries > 200:
            break
        assign = [None] * len(ref_atoms)
        for k, perm in zip(keys, combo):
            for s, p in zip(slots[k], perm):
                assign[s] = t.atoms[p]
        r = match(ref, ref_atoms, t, assign, gamma)
        if r is not None:
            if r[4]:
                return r[:4]
            best = best or r[:4]
    return best


def alignments(ref, t, gamma):
    """columns for terms without atoms (counts), for every pairing of the bound variables"""
    n = len([b for b in t.binders if not b.perm])
    if t.atoms or n < 2 or n > 3:
        return
    for order in itertools.permutations(range(n)):
        r = match(ref, [], t, [], gamma, order)
        if r is not None:
            yield r[:4]


def match(ref, ra, t, ta, gamma, order=None):
    rb = [b for b in ref.binders if not b.perm]
    tb = [b for b in t.binders if not b.perm]
    rp = [b for b in ref.binders if b.perm]
    tp = [b for b in t.binders if b.perm]
    # permutations: by first use
    fp = []
    if rp:
        if len(rp) != len(tp):
            return None
        fp = [(y.var, x.var) for x, y in zip(rp, tp)]
    sub = {}

    def s(e):
        prs = [(b.var, sub[b.var.get_id()]) for b in tb if b.var.get_id() in sub]
        if prs:
            e = z3.substitute(e, *prs)
        if fp:
            e = subst_fun(e, fp)
        return e
    progress = True
    while progress and len(sub) < len(tb):
        progress = False
        for a, b in zip(ra, ta):
            for e1, e2 in zip(a.idx, b.idx):
                e2s = z3.simplify(s(e2))
                un = [x for x in tb if x.var.get_id() not in sub and occurs(x.var, e2s)]
                if len(un) != 1:
                    continue
                v = un[0].var
                # strip equal outer function applications (permutations)
                f1, f2 = e1, e2s
                while z3.is_app(f1) and z3.is_app(f2) and f1.num_args() == 1 and f2.num_args() == 1 and f1.decl().eq(f2.decl()) \
                        and f1.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    f1, f2 = f1.children()[0], f2.children()[0]
                r = solve_eq(f2 == f1, v) if not (f1.eq(f2)) else None
                if r is None or r[1]:
                    continue
                used = [x for x in rb if occurs(x.var, r[0])]
                if len(used) != 1:
                    continue
                d, c = linear(r[0])
                if d.get(used[0].var.get_id(), (None, 0))[1] not in (1, -1):
                    continue
                if any(u[0].get_id() == used[0].var.get_id() for u in sub_used(sub, rb)):
                    continue
                sub[v.get_id()] = r[0]
                progress = True
    free_t = [b for b in tb if b.var.get_id() not in sub]
    usedr = {u[0].get_id() for u in sub_used(sub, rb)}
    free_r = [b for b in rb if b.var.get_id() not in usedr]
    if len(free_t) != len(free_r):
        return None
    if order is not None:
        free_r = [free_r[j] for j in order]
    for n, (x, y) in enumerate(zip(free_t, free_r)):
        sub[x.var.get_id()] = y.var
        if not x.lo.eq(y.lo):
            lo = z3.simplify(s(x.lo))
            if any(occurs(b.var, lo) for b in tb):
                continue                     # no shift: the ranges are compared as they are
            # triangular: the shift of a pair depends on the pairs before it only, so the renaming is a bijection
            if any(occurs(b.var, lo) or occurs(b.var, y.lo) for b in rb if not any(b is z for z in free_r[:n])):
                continue
            sub[x.var.get_id()] = z3.simplify(y.var - y.lo + lo)
    prs = [(b.var, sub[b.var.get_id()]) for b in tb]

    def sb(e):
        if prs:
            e = z3.substitute(e, *prs)
        if fp:
            e = subst_fun(e, fp)
        return e
    guards = [sb(g) for g in t.guards]
    for b in tb:
        guards.append(z3.And(sb(b.lo) <= sub[b.var.get_id()], sub[b.var.get_id()] < sb(b.hi)))
    for x, y in zip(rp, tp):
        if not valid(gamma, x.hi == sb(y.hi)):
            return None
    atoms = [Atom(a.sym, [sb(e) for e in a.idx], a.conj,
                  [dict((p.name(), q) for p, q in fp).get(f.name(), f) for f in a.fidx]) for a in ta]
    if any(a.fidx != b.fidx and [f.name() for f in a.fidx] != [f.name() for f in b.fidx] for a, b in zip(ra, atoms)):
        return None
    exact = all(z3.simplify(x - y).eq(z3.IntVal(0)) for a, b in zip(ra, atoms) for x, y in zip(a.idx, b.idx))
    return (t.coef, tuple(guards), atoms, t, exact)


def sub_used(sub, rb):
    out = []
    for e in sub.values():
        for b in rb:
            if occurs(b.var, e):
                out.append((b.var, e))
    return out
