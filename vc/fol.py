"""Verification conditions for the graph algorithms on sets, lists of lists and graphs (faces, dual_graph_H, pfo_algorithm).

Symbolic execution of the function's AST as it stands in the source, loops by invariant (given by the contract for the
variables that play a role, found by their types, never by their names), obligations in first-order logic with quantifiers,
discharged by z3.  What lies outside the supported subset is reported as unsupported (the bounded run-time contract decides)."""
import ast
import itertools
import os
import time

import z3

from num import Unsupported
from spec import Ob
import exe

CONTRACTS = {}
Z, B = z3.IntSort(), z3.BoolSort()
CNT = itertools.count()
# existence axioms (every element has its place) are instantiated for marked elements only: keeps instantiation finite
MARK, MARK1 = z3.Function("mark", Z, Z, B), z3.Function("mark1", Z, B)
SEEN = z3.Function("seen", Z, B)
CHECKS = dict(queries=0, seconds=0.0, unknown=0)


def fresh(p="x", sort=Z):
    return z3.Const(f"{p}!f{next(CNT)}", sort)


def fun(p, *sorts):
    return z3.Function(f"{p}!f{next(CNT)}", *sorts)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (z3.is_expr(v) and v.sort() == Z)


def is_bool(v):
    return isinstance(v, bool) or (z3.is_expr(v) and v.sort() == B)


def ex(v):
    return z3.IntVal(v) if isinstance(v, int) and not isinstance(v, bool) else z3.BoolVal(v) if isinstance(v, bool) else v


def simp(c):
    if isinstance(c, (bool, int)):
        return c
    c = z3.simplify(c)
    return True if z3.is_true(c) else False if z3.is_false(c) else c.as_long() if z3.is_int_value(c) else c


def conj(*cs):
    cs = [c for c in cs if c is not True]
    return False if any(c is False for c in cs) else True if not cs else z3.And(*cs) if len(cs) > 1 else cs[0]


def disj(*cs):
    cs = [c for c in cs if c is not False]
    return True if any(c is True for c in cs) else False if not cs else z3.Or(*cs) if len(cs) > 1 else cs[0]


def neg(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def imp(a, b):
    return b if a is True else True if a is False or b is True else z3.Implies(ex(a), ex(b))


# -------------------------------------------------------------------------------------------------------------- values
class Opaque:
    """a value about which nothing is known"""


class Seq:
    """immutable sequence: static items or (length, at)"""

    def __init__(self, items=None, length=None, at=None, origin=None):
        self.items, self.length, self.at_, self.origin = items, (len(items) if items is not None else length), at, origin

    def at(self, i):
        if self.items is None:
            v = self.at_(ex(i))
            if isinstance(v, Seq) and v.items is None:
                v = Seq(None, v.length, v.at_, (self, ex(i)))
            return v
        if isinstance(i, int):
            return self.items[i] if -len(self.items) <= i < len(self.items) else self.items[-1]        # never looked at out of range
        v = self.items[-1]
        for k in range(len(self.items) - 2, -1, -1):
            v = ite(i == k, self.items[k], v)
        return v


def zero(q):
    return isinstance(q.length, int) and q.length == 0


class SetV:
    """mem: element -> condition; seq: an enumeration without repetitions, if one is known"""

    def __init__(self, mem, sample, seq=None):
        self.mem, self.sample, self.seq = mem, sample, seq          # sample() -> element of fresh symbols (its shape)


class H:
    """handle of a mutable object: kind list, set, graph, matrix"""

    def __init__(self, kind, box, frozen=False):
        self.kind, self.box, self.frozen = kind, box, frozen


class GraphV:
    """nodes: int -> cond; adj: symmetric relation on nodes; es: edges as a Seq of pairs, each edge once; n: nodes are 0..n-1"""

    def __init__(self, nodes, adj, es=None, tree=False, n=None, extra=None):
        self.nodes, self.adj, self.es, self.tree, self.n, self.extra = nodes, adj, es, tree, n, extra or {}
        self.deg = None


class Mat:
    """n x n complex matrix; odd: predicate on faces of this state of the matrix (None: nothing known)"""

    def __init__(self, re, im, n, odd=None):
        self.re, self.im, self.n = re, im, n
        self.odd = odd if odd is not None else fun("odd", Z, B)


class Emb:
    def __init__(self, e, path=()):
        self.e, self.path = e, path


class Ref:
    """library function or module"""

    def __init__(self, name, recv=None):
        self.name, self.recv = name, recv


def ite(c, a, b):
    c = simp(c)
    if c is True or a is b:
        return a
    if c is False:
        return b
    if is_int(a) and is_int(b) or is_bool(a) and is_bool(b):
        a, b = ex(a), ex(b)
        return a if a.eq(b) else z3.If(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            return Seq([ite(c, x, y) for x, y in zip(a.items, b.items)])
        return Seq(None, ite(c, a.length, b.length), lambda i: ite(c, a.at(i), b.at(i)) if not zero(a) and not zero(b) else (a if zero(b) else b).at(i))
    raise Unsupported(f"merge of {type(a).__name__} and {type(b).__name__}")


def equal(a, b):
    if isinstance(a, (Opaque, Emb)) or isinstance(b, (Opaque, Emb)):
        return fresh("eq", B)
    if a is None or b is None:
        return a is b
    if is_int(a) and is_int(b) or is_bool(a) and is_bool(b):
        return simp(ex(a) == ex(b))
    if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
        return simp(a == b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return conj(*[equal(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.items is not None and b.items is not None:
            return conj(*[equal(x, y) for x, y in zip(a.items, b.items)]) if len(a.items) == len(b.items) else False
        if zero(a) or zero(b):
            return simp(ex(a.length) == ex(b.length))
        i = fresh("i")
        n = ex(a.length)
        ground = [z3.Implies(n > k, ex(equal(a.at(k), b.at(k)))) for k in (0, 1)]
        return z3.And(n == ex(b.length), *ground, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), ex(equal(a.at(i), b.at(i))))))
    raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")


def less(a, b, strict=True):
    """order of integers and, lexicographically, of pairs"""
    if is_int(a) and is_int(b):
        return ex(a) < ex(b) if strict else ex(a) <= ex(b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2:
        return z3.Or(ex(a[0]) < ex(b[0]), z3.And(ex(a[0]) == ex(b[0]), less(a[1], b[1], strict)))
    raise Unsupported("order")


def sample_of(v):
    if is_int(v):
        return lambda: fresh("e")
    if isinstance(v, tuple) and all(is_int(x) for x in v):
        return lambda: tuple(fresh("e") for _ in v)
    raise Unsupported("elements of a set")


def parts(v):
    return list(v) if isinstance(v, tuple) else [v]


def mark(x):
    if isinstance(x, tuple) and len(x) == 2 and all(map(is_int, x)):
        return [MARK(ex(x[0]), ex(x[1]))]
    return [MARK1(ex(x))] if is_int(x) else []


def marked(el, pats):
    """pattern for an existence axiom"""
    return [z3.MultiPattern(*pats, *mark(el if len(parts(el)) > 1 else parts(el)[0]))] if pats else mark(el)


def forall(el, body, pats=()):
    """universal closure over the symbols of the element el"""
    return z3.ForAll(parts(el), ex(body), patterns=list(pats)) if not isinstance(body, bool) else ex(body)


# ------------------------------------------------------------------------------------------------------------- shapes
def shape(v, st):
    if v is None:
        return ("none",)
    if is_bool(v):
        return ("bool",)
    if is_int(v):
        return ("int",)
    if isinstance(v, tuple):
        return ("tuple", tuple(shape(x, st) for x in v))
    if isinstance(v, Seq):
        if v.items is not None:
            return ("fixed", tuple(shape(x, st) for x in v.items))
        return ("list", shape(v.at(fresh("i")), st))
    if isinstance(v, H):
        if v.kind == "list":
            return ("H", "list", shape(st.heap[v.box], st), v.frozen or v.box in st.frozen)
        if v.kind == "set":
            return ("H", "set", shape(st.heap[v.box].sample(), st), v.frozen)
        return ("opaque",)
    return ("opaque",)


def join(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return a or b
    if a[0] == "opt" or b[0] == "opt" or (a[0] == "none") != (b[0] == "none"):
        x = join(*[y for s in (a, b) for y in [s[1] if s[0] == "opt" else None if s[0] == "none" else s]])
        return x if x and x[0] == "opaque" else ("opt", x)
    if a[0] in ("fixed", "list") and b[0] in ("fixed", "list"):
        if a[0] == b[0] == "fixed" and len(a[1]) == len(b[1]):
            return ("fixed", tuple(join(x, y) for x, y in zip(a[1], b[1])))
        el = None
        for s in (a, b):
            for x in (s[1] if s[0] == "fixed" else (s[1],)):
                el = join(el, x)
        return ("list", el)
    if a[0] == b[0] == "tuple" and len(a[1]) == len(b[1]):
        return ("tuple", tuple(join(x, y) for x, y in zip(a[1], b[1])))
    if a[0] == b[0] == "H" and a[1] == b[1]:
        return ("H", a[1], join(a[2], b[2]), a[3] or b[3])
    return ("opaque",)


def build(s, args, facts, name="v"):
    """a value of the shape made of fresh function symbols of args"""
    k = s[0]
    if k == "int":
        return (lambda f: lambda a: f(*a) if a else f())(fun(name, *([Z] * len(args)), Z))
    if k == "bool":
        return (lambda f: lambda a: f(*a) if a else f())(fun(name, *([Z] * len(args)), B))
    if k == "none":
        return lambda a: None
    if k == "tuple":
        xs = [build(x, args, facts, name + "xyzw"[i % 4]) for i, x in enumerate(s[1])]
        return lambda a: tuple(x(a) for x in xs)
    if k == "fixed":
        xs = [build(x, args, facts, f"{name}{i}") for i, x in enumerate(s[1])]
        return lambda a: Seq([x(a) for x in xs])
    if k == "list":
        L = fun(name + "len", *([Z] * len(args)), Z)
        vs = [fresh("a") for _ in args]
        la = L(*vs) if vs else L()
        facts.append(z3.ForAll(vs, la >= 0, patterns=[la]) if vs else la >= 0)
        if s[1] is None:
            facts.append(la == 0 if not vs else z3.ForAll(vs, la == 0, patterns=[la]))
            return lambda a: Seq([])
        el = build(s[1], list(args) + [Z], facts, name + "e")
        return lambda a: Seq(None, L(*a) if a else L(), lambda i: el(list(a) + [i]))
    return lambda a: Opaque()


def value_of(s, st, name="v"):
    """alternatives: list of (value, facts, new heap entries)"""
    if s is None:
        return [None]
    if s[0] == "opt":
        return [None] + value_of(s[1], st, name)
    if s[0] == "H":
        h = H(s[1], st.new_box(), s[3])
        facts = []
        if s[1] == "list":
            st.heap[h.box] = build(s[2], [], facts, name)([])
        else:
            st.heap[h.box] = fresh_set(s[2], name)
        st.pc = st.pc + facts
        return [h]
    facts = []
    v = build(s, [], facts, name)([])
    st.pc = st.pc + facts
    return [v]


def fresh_set(s, name="S"):
    if s == ("int",):
        f = fun(name, Z, B)
        return SetV(lambda e: f(ex(e)), lambda: fresh("e"))
    if s[0] == "tuple" and all(x == ("int",) for x in s[1]):
        f = fun(name, *([Z] * len(s[1])), B)
        return SetV(lambda e: f(*[ex(x) for x in e]), lambda: tuple(fresh("e") for _ in s[1]))
    raise Unsupported("set of such elements")


# -------------------------------------------------------------------------------------------------------------- states
class St:
    boxes = itertools.count()

    def __init__(self):
        self.env, self.heap, self.pc = {}, {}, []
        self.frozen = frozenset()              # lists that are also elements of another one

    def copy(self):
        s = St()
        s.env, s.heap, s.pc = dict(self.env), dict(self.heap), list(self.pc)
        s.frozen = self.frozen
        return s

    def new_box(self):
        return next(St.boxes)


class Contract:
    """setup(m, st, variant) -> {parameter: value}; post(m, st0, st, value) -> [(name, goal)];
    loops(m, kind, entry, vars, k, seq) -> Inv or None; call(m, st, args) -> value (facts appended, obligations through m.oblige)"""

    def __init__(self, qn, props, variants, setup, post, loops=None, call=None):
        self.qn, self.props, self.variants, self.setup, self.post, self.loops, self.call = qn, props, variants, setup, post, loops, call
        CONTRACTS[qn] = self


class Inv:
    """ghost(k) -> fresh ghost values; init(st) -> ghost at entry; step(head, ghost, st, k) -> ghost afterwards;
    formulas(st, ghost, k) -> [(name, formula, assume-form or None)];
    shrinks(head, st) -> (finite set before, after, elements of which one must have gone): termination of a while loop"""

    def __init__(self, formulas, ghost=lambda: None, init=lambda st: None, step=lambda head, g, st: None, shrinks=None):
        self.formulas, self.ghost, self.init, self.step, self.shrinks = formulas, ghost, init, step, shrinks


class M:
    MAX = 400

    def __init__(self, c, tree, variant, deadline):
        self.c, self.tree, self.variant, self.deadline = c, tree, variant, deadline
        self.obs, self.quiet, self.depth = [], 0, 0
        self.used, self.inlined, self.assumed = set(), set(), set()
        self.funcs = {f.name: f for f in tree.body if isinstance(f, ast.FunctionDef)}
        self.mod = c.qn.split(".")[0]
        self.names = imports(tree)
        self.count = 0
        self.cotree = []                   # edge sets G - T met on the way
        self.stack = []                    # enclosing loops: (sequence, index)

    # ------------------------------------------------------------------------------------------------- obligations
    def oblige(self, st, name, goal, hints=()):
        if self.quiet:
            return
        goal = simp(goal) if isinstance(goal, bool) or not z3.is_implies(goal) else goal
        nm = f"{self.c.qn}[{self.variant}]/{name}"
        if goal is True:
            self.obs.append(Ob(nm, "proved"))
            return
        t0 = time.time()
        r, why = "proved", ""
        # the terms of the whole goal stay known to the solver when it is split
        known = [SEEN(t) for t in subterms(ex(goal)) if z3.is_app_of(t, z3.Z3_OP_UNINTERPRETED) and t.num_args() and t.sort() == Z]
        hints = list(hints) + known[:60]
        for g in split(ex(goal)):
            r, why = prove(list(st.pc) + list(hints), g, self.deadline, 1500)
            if r == "unknown":
                for h in cases(g):
                    r, why = prove(list(st.pc) + list(hints), h, self.deadline)
                    if r != "proved":
                        break
            if r != "proved":
                break
        self.obs.append(Ob(nm, r, why))
        self.obs[-1].time = time.time() - t0

    # ------------------------------------------------------------------------------------------------- statements
    def block(self, body, st):
        todo, out = [st], []
        for s in body:
            nxt = []
            for x in todo:
                for o in self.stmt(s, x):
                    (nxt if o[0] == "next" else out).append(o[-1] if o[0] == "next" else o)
            todo = nxt
            self.count += len(todo)
            if self.count > 4000 or len(todo) > 64:
                raise Unsupported("too many paths")
            if time.time() > self.deadline:
                raise Unsupported("z3: unknown (time budget)")
        return out + [("next", x) for x in todo]

    def stmt(self, s, st):
        t = type(s)
        if t is ast.Pass:
            return [("next", st)]
        if t is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return [("next", st)]
            return [("next", x) for _, x in self.ev2(s.value, st)]
        if t is ast.Assign:
            out = []
            for v, x in self.ev2(s.value, st):
                for tg in s.targets:
                    self.assign(tg, v, x)
                out.append(("next", x))
            return out
        if t is ast.AnnAssign and s.value is not None:
            return self.stmt(ast.copy_location(ast.Assign([s.target], s.value), s), st)
        if t is ast.AugAssign:
            out = []
            load = ast.copy_location(ast.parse(ast.unparse(s.target), mode="eval").body, s)
            for v, x in self.ev2(s.value, st):
                old = self.ev(load, x)
                if isinstance(old, H) and old.kind == "list" and isinstance(s.op, ast.Add):
                    self.put(x, old, cat(x.heap[old.box], self.seq(v, x)))
                elif isinstance(old, H) and old.kind == "set":
                    self.put(x, old, self.setop(s.op, x.heap[old.box], self.set_(v, x)))
                else:
                    self.assign(s.target, self.binop(s.op, old, v, x), x)
                out.append(("next", x))
            return out
        if t is ast.Return:
            return [("return", v, x) for v, x in (self.ev2(s.value, st) if s.value is not None else [(None, st)])]
        if t is ast.If:
            out = []
            for c, x in self.cond2(s.test, st):
                if c is not False:
                    y = x.copy()
                    y.pc += [] if c is True else [c]
                    if not self.dead(y):
                        out += self.block(s.body, y)
                if c is not True:
                    y = x.copy()
                    y.pc += [] if c is False else [neg(c)]
                    if not self.dead(y):
                        out += self.block(s.orelse, y)
            return out
        if t is ast.While:
            return self.loop(s, st, None)
        if t is ast.For:
            out = []
            for v, x in self.ev2(s.iter, st):
                out += self.loop(s, x, v)
            return out
        if t is ast.Break:
            return [("break", st)]
        if t is ast.Continue:
            return [("continue", st)]
        if t is ast.Assert:
            for c, x in self.cond2(s.test, st):
                self.oblige(x, "assertion holds", c)
                x.pc += [] if c is True else [ex(c)]
                return [("next", x)]
        if t is ast.Raise:
            return [("raise", ast.unparse(s.exc) if s.exc else "", st)]
        if t is ast.Delete:
            raise Unsupported("del")
        if t in (ast.Import, ast.ImportFrom):
            self.names = dict(self.names, **imports(ast.Module([s], [])))
            return [("next", st)]
        if t is ast.FunctionDef:
            self.funcs = dict(self.funcs, **{s.name: s})
            return [("next", st)]
        raise Unsupported(f"statement {t.__name__}")

    def dead(self, st):
        """is the path impossible? (a quick look only: the answer no is always allowed)"""
        s = z3.SolverFor("QF_UFLIA") if False else z3.Solver()
        s.set("rlimit", 300000, "smt.mbqi", False, "smt.auto_config", False)
        s.add(*[c for c in map(ex, st.pc) if not z3.is_true(c)])
        CHECKS["queries"] += 1
        t0 = time.time()
        r = s.check()
        CHECKS["seconds"] += time.time() - t0
        return r == z3.unsat

    def put(self, st, h, v):
        if h.frozen or h.box in st.frozen:
            raise Unsupported("change of a list that is also an element of another one")
        st.heap[h.box] = v

    def assign(self, tg, v, st):
        if isinstance(tg, ast.Name):
            st.env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            xs = list(v) if isinstance(v, tuple) else None
            if xs is None and isinstance(v, (H, Seq)):
                q = self.seq(v, st)
                xs = q.items
            if xs is None and isinstance(v, Opaque):
                xs = [Opaque() for _ in tg.elts]
            if xs is None or len(xs) != len(tg.elts):
                raise Unsupported("unpacking")
            for a, b in zip(tg.elts, xs):
                self.assign(a, b, st)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, st)
            if isinstance(o, H) and o.kind == "mat":
                i = self.ev(tg.slice, st)
                if not (isinstance(i, tuple) and len(i) == 2 and all(map(is_int, i))):
                    raise Unsupported("index of a matrix")
                x = v
                if not (is_int(x) or z3.is_expr(x) and x.sort() == z3.RealSort()):
                    raise Unsupported("entry of a matrix")
                old = st.heap[o.box]
                a, b = map(ex, i)
                self.oblige(st, "index within the matrix", z3.And(a >= 0, a < ex(old.n), b >= 0, b < ex(old.n)))
                r = z3.ToReal(ex(x)) if is_int(x) else x
                self.put(st, o, Mat(lambda p, q: z3.If(z3.And(p == a, q == b), r, old.re(p, q)),
                                    lambda p, q: z3.If(z3.And(p == a, q == b), z3.RealVal(0), old.im(p, q)), old.n))
            elif isinstance(o, H) and o.kind == "list":
                i = self.ev(tg.slice, st)
                q = st.heap[o.box]
                if q.items is not None and isinstance(i, int):
                    xs = list(q.items)
                    xs[i] = self.store(v, st)
                    self.put(st, o, Seq(xs))
                elif is_int(i):
                    self.oblige(st, "index within the list", z3.And(ex(i) >= 0, ex(i) < ex(q.length)))
                    x = self.store(v, st)
                    self.put(st, o, Seq(None, q.length, lambda j: ite(ex(j) == ex(i), x, q.at(j))))
                else:
                    raise Unsupported("assignment to a slice")
            else:
                raise Unsupported("assignment to an item")
        else:
            raise Unsupported("assignment")

    # ------------------------------------------------------------------------------------------------------- loops
    def loop(self, s, st, it):
        seq = None
        if it is not None:
            seq = self.seq(it, st, order=False)
            if isinstance(it, H) and it.kind == "list":
                src = it.box
            else:
                src = None
            if seq.items is not None and len(seq.items) <= 8:
                return self.unroll(s, st, seq.items)
        else:
            src = None
        if s.orelse:
            raise Unsupported("else of a loop")
        # which variables and objects change on the way round, and their shapes
        shapes_e, shapes_b = {}, {}
        self.quiet += 1
        try:
            for _ in range(8):
                n0 = (dict(shapes_e), dict(shapes_b))
                for head in self.havoc(st, shapes_e, shapes_b):
                    k = fresh("k")
                    for o in self.body(s, head.copy(), seq, k):
                        if o[0] not in ("next", "continue"):
                            continue
                        y = o[-1]
                        for nme, v in y.env.items():
                            if nme in head.env and head.env[nme] is v and nme not in shapes_e:
                                continue
                            if nme not in st.env:
                                continue                              # local to the iteration (or maybe unbound): unusable afterwards
                            sh = join(shape(v, y), shapes_e.get(nme) or shape(st.env[nme], st))
                            shapes_e[nme] = sh
                        for b, v in st.heap.items():
                            if b == "ghost":
                                continue
                            if y.heap[b] is v and b not in shapes_b:
                                continue
                            if y.heap[b] is head.heap.get(b) and b in shapes_b:
                                continue
                            if isinstance(v, Seq):
                                shapes_b[b] = join(join(shape(v, st), shape(y.heap[b], y)), shapes_b.get(b))
                            elif isinstance(v, SetV):
                                shapes_b[b] = ("set", shape(v.sample() if v.sample else y.heap[b].sample(), y))
                            elif isinstance(v, GraphV):
                                shapes_b[b] = ("graph", y.heap[b].adj is v.adj)
                            elif isinstance(v, Mat):
                                shapes_b[b] = ("mat",)
                            else:
                                raise Unsupported("object changed in a loop")
                if (shapes_e, shapes_b) == n0:
                    break
            else:
                raise Unsupported("shapes of a loop do not settle")
        finally:
            self.quiet -= 1
        if src is not None and src in shapes_b:
            raise Unsupported("list changed while it is iterated over")
        changed = {n: shapes_e[n] for n in shapes_e}
        inv = self.c.loops(self, s, st, changed, shapes_b, seq) if self.c.loops else None
        inv = inv or Inv(lambda st, g, k: [])
        lab = f"{'for' if it is not None else 'while'} loop over {roles(changed, shapes_b)}"
        g0 = inv.init(st)
        if not self.quiet:
            for nme, f, *r in inv.formulas(st, g0, z3.IntVal(0)):
                self.oblige(st, f"{lab}/{nme}/holds at the start", f, r[1] if len(r) > 1 else ())
        out = []
        for head in self.havoc(st, shapes_e, shapes_b):
            k = fresh("k")
            g = inv.ghost()
            if g is not None:
                head.heap["ghost"] = g
            if seq is not None:
                head.pc += [k >= 0, k <= ex(seq.length), ex(seq.length) >= 0]
            head.pc += [ex(f) for f in self.assume(inv, head, g, k) if f is not True]
            # one more time round
            x = head.copy()
            for o in self.body(s, x, seq, k):
                y = o[-1]
                if o[0] in ("next", "continue"):
                    if not self.quiet:
                        g2 = inv.step(head, g, y)
                        for nme, f, *r in inv.formulas(y, g2, k + 1):
                            self.oblige(y, f"{lab}/{nme}/kept", f, r[1] if len(r) > 1 else ())
                        if inv.shrinks is not None:
                            A, B_, gone = inv.shrinks(head, y)
                            el = A.sample()
                            self.oblige(y, f"{lab}/terminates: nothing is added", imp(B_.mem(el), A.mem(el)))
                            self.oblige(y, f"{lab}/terminates: something is removed", disj(*[conj(A.mem(e), neg(B_.mem(e))) for e in gone]), [h for e in gone for h in mark(e)])
                elif o[0] == "break":
                    self.clean(y, st)
                    out.append(("next", y))
                else:
                    out.append(o)
            # no more
            if seq is not None:
                y = head.copy()
                y.pc.append(k == ex(seq.length))
                self.clean(y, st)
                if isinstance(s, ast.For):
                    self.unbind(s.target, y, st)
                out.append(("next", y))
            else:
                for c, y in self.cond2(s.test, head.copy()):
                    if c is not True:
                        y.pc += [] if c is False else [neg(c)]
                        out.append(("next", y))
        return out

    def assume(self, inv, st, g, k):
        return [f[2]() if len(f) > 2 else f[1] for f in inv.formulas(st, g, k)]

    def clean(self, y, st):
        pass

    def unbind(self, tg, y, st):
        """the loop variable after the loop: unknown"""
        for n in ast.walk(tg):
            if isinstance(n, ast.Name):
                y.env[n.id] = Opaque()

    def body(self, s, x, seq, k):
        if seq is None:
            out = []
            for c, y in self.cond2(s.test, x):
                if c is False:
                    continue
                y.pc += [] if c is True else [c]
                if not self.dead(y):
                    out += self.block(s.body, y)
            return out
        x.pc += [k >= 0, k < ex(seq.length)]
        v = seq.at(k)
        self.assign(s.target, self.load(v, x), x)
        self.stack.append((seq, k))
        try:
            return self.block(s.body, x)
        finally:
            self.stack.pop()

    def unroll(self, s, st, items):
        todo, out = [st], []
        for v in items:
            nxt = []
            for x in todo:
                self.assign(s.target, self.load(v, x), x)
                for o in self.block(s.body, x):
                    if o[0] in ("next", "continue"):
                        nxt.append(o[-1])
                    elif o[0] == "break":
                        out.append(("next", o[-1]))
                    else:
                        out.append(o)
            todo = nxt
        for x in todo:
            out += self.block(s.orelse, x) if s.orelse else [("next", x)]
        return out

    def havoc(self, st, shapes_e, shapes_b):
        x = st.copy()
        for b, s in shapes_b.items():
            v = st.heap[b]
            facts = []
            if s[0] == "set":
                x.heap[b] = fresh_set(s[1])
            elif s[0] == "graph":
                f = fun("N", Z, B)
                x.heap[b] = GraphV(lambda e, f=f: f(ex(e)), v.adj if s[1] else None, None, fresh("tree", B), None, v.extra)
                if not s[1]:
                    raise Unsupported("edges added to a graph in a loop")
            elif s[0] == "mat":
                R = z3.RealSort()
                f, h = fun("re", Z, Z, R), fun("im", Z, Z, R)
                x.heap[b] = Mat(lambda p, q, f=f: f(p, q), lambda p, q, h=h: h(p, q), v.n)
            else:
                w = build(s, [], facts)([])
                x.heap[b] = w
            x.pc += facts
        states = [x]
        for n, s in shapes_e.items():
            nxt = []
            for y in states:
                alts = 2 if s[0] == "opt" else 1
                for i in range(alts):
                    z = y.copy()
                    v = value_of(s, z, n)
                    z.env[n] = v[i]
                    nxt.append(z)
            states = nxt
        return states

    # -------------------------------------------------------------------------------------------------- expressions
    def ev2(self, e, st):
        """value and state; a call of a function of the library without contract is executed in place"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in self.funcs and e.func.id not in st.env:
            qn = f"{self.mod}.{e.func.id}"
            f = self.funcs[e.func.id]
            if qn not in CONTRACTS or CONTRACTS[qn].call is None:
                if self.depth > 4 or qn == self.c.qn:
                    raise Unsupported("recursion")
                return self.inline(f, e, st)
        return [(self.ev(e, st), st)]

    def bind(self, f, e, st):
        a = f.args
        if a.vararg or a.kwarg or a.posonlyargs or a.kwonlyargs or any(k.arg is None for k in e.keywords):
            raise Unsupported("parameters")
        names = [x.arg for x in a.args]
        env = {}
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            env[n] = self.ev(d, St())
        for n, x in zip(names, e.args):
            env[n] = self.ev(x, st)
        for k in e.keywords:
            env[k.arg] = self.ev(k.value, st)
        if set(env) != set(names) or len(e.args) > len(names):
            raise Unsupported("arguments")
        return env

    def inline(self, f, e, st):
        env = self.bind(f, e, st)
        st = st.copy()
        keep, st.env = st.env, (dict(st.env, **env) if f not in self.tree.body else env)
        self.depth += 1
        self.inlined.add(f"{self.mod}.{f.name}")
        out = []
        for o in self.block(f.body, st):
            y = o[-1]
            y.env = dict(keep)
            if o[0] == "raise":
                self.oblige(y, "no exception in " + f.name, False)
                continue
            out.append((o[1] if o[0] == "return" else None, y))
        self.depth -= 1
        return out

    def cond2(self, e, st):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(neg(c), x) for c, x in self.cond2(e.operand, st)]
        return [(self.truth(v, x), x) for v, x in self.ev2(e, st)]

    def truth(self, v, st):
        if v is None:
            return False
        if is_bool(v):
            return simp(v)
        if is_int(v):
            return simp(ex(v) != 0)
        if isinstance(v, H) and v.kind == "list":
            return simp(ex(st.heap[v.box].length) > 0)
        if isinstance(v, (Seq, tuple)):
            return simp(ex(v.length) > 0) if isinstance(v, Seq) else len(v) > 0
        if isinstance(v, H) and v.kind == "set":
            S = st.heap[v.box]
            el = S.sample()
            return z3.Exists(parts(el), ex(S.mem(el)))
        if isinstance(v, str):
            return v != ""
        if isinstance(v, Emb) and not v.path:
            return True                                       # an embedding of a graph with at least one node
        if isinstance(v, Opaque):
            return fresh("b", B)
        raise Unsupported(f"truth value of {type(v).__name__}")

    def load(self, v, st):
        """element read from a container"""
        if isinstance(v, Seq):
            h = H("list", st.new_box(), True)
            st.heap[h.box] = v
            return h
        return v

    def store(self, v, st):
        """value put into a container; the list itself must not change any more"""
        if isinstance(v, H):
            if v.kind != "list":
                raise Unsupported("object in a list")
            st.frozen = st.frozen | {v.box}
            return st.heap[v.box]
        return v

    def view(self, v, st):
        return self.graph_attr(v, st) if isinstance(v, Ref) and v.name in ("graph.edges", "graph.nodes") else v

    def seq(self, v, st, order=True):
        v = self.view(v, st)
        if isinstance(v, Edges):
            return v.g.es if v.g.es is not None else bad("enumeration of edges")
        if isinstance(v, Seq):
            return v
        if isinstance(v, tuple):
            return Seq(list(v))
        if isinstance(v, H) and v.kind == "list":
            return st.heap[v.box]
        if isinstance(v, SetV) or isinstance(v, H) and v.kind == "set":
            S = v if isinstance(v, SetV) else st.heap[v.box]
            return enum(S, st)
        if isinstance(v, H) and v.kind == "graph":
            return enum(node_set(st.heap[v.box]), st)
        if isinstance(v, Range):
            n = fresh("len")
            st.pc += [n == z3.If(ex(v.b) > ex(v.a), ex(v.b) - ex(v.a), 0)]
            return Seq(None, n, lambda i: simp(ex(v.a) + ex(i)))
        raise Unsupported(f"iteration over {type(v).__name__}")

    def set_(self, v, st):
        v = self.view(v, st)
        if isinstance(v, Edges):
            q = v.g.es
            if q is None or getattr(q, "idx", None) is None:
                raise Unsupported("edge view as a set")
            return SetV(lambda e: conj(v.g.adj(*e), equal(q.at(q.idx(*map(ex, e))), e)), lambda: (fresh("e"), fresh("e")))
        if isinstance(v, SetV):
            return v
        if isinstance(v, H) and v.kind == "set":
            return st.heap[v.box]
        q = self.seq(v, st)
        if q.items is not None:
            if not q.items:
                return SetV(lambda e: False, None)
            items = q.items
            return SetV(lambda e: disj(*[equal(e, x) for x in items]), sample_of(items[0]))
        i = fresh("i")
        return SetV(lambda e: (lambda j: z3.Exists([j], z3.And(j >= 0, j < ex(q.length), ex(equal(e, q.at(j))))))(fresh("j")), sample_of(q.at(i)))

    def setop(self, op, a, b):
        sm = a.sample or b.sample
        if isinstance(op, ast.Sub):
            return SetV(lambda e: conj(a.mem(e), neg(b.mem(e))), sm)
        if isinstance(op, ast.BitOr):
            return SetV(lambda e: disj(a.mem(e), b.mem(e)), sm)
        if isinstance(op, ast.BitAnd):
            return SetV(lambda e: conj(a.mem(e), b.mem(e)), sm)
        raise Unsupported("set operation")

    def ev(self, e, st):
        t = type(e)
        if t is ast.Constant:
            if isinstance(e.value, float) and e.value.is_integer():
                return z3.RealVal(int(e.value))
            if isinstance(e.value, (float, complex)):
                return ("const", e.value)
            return e.value
        if t is ast.Name:
            if e.id in st.env:
                v = st.env[e.id]
                return v
            if e.id in self.names:
                return Ref(self.names[e.id])
            if e.id in self.funcs:
                return Ref("ff:" + e.id)
            return Ref("builtins." + e.id)
        if t is ast.Tuple:
            return tuple(self.ev(x, st) for x in e.elts)
        if t is ast.List:
            if any(isinstance(x, ast.Starred) for x in e.elts):
                raise Unsupported("starred list")
            xs = [self.store(self.ev(x, st), st) for x in e.elts]
            h = H("list", st.new_box())
            st.heap[h.box] = Seq(xs)
            return h
        if t is ast.Set:
            xs = [self.ev(x, st) for x in e.elts]
            h = H("set", st.new_box())
            st.heap[h.box] = self.set_(Seq(xs), st)
            return h
        if t is ast.Attribute:
            o = self.ev(e.value, st)
            if isinstance(o, Ref) and o.recv is None:
                return Ref(o.name + "." + e.attr)
            if isinstance(o, H) and o.kind == "graph" and e.attr in ("edges", "nodes"):
                return Ref("graph." + e.attr, o)
            if isinstance(o, H) and o.kind == "mat" and e.attr in ("real", "imag"):
                return LIB["numpy." + e.attr](self, st, [o], {})
            return Ref("." + e.attr, o)
        if t is ast.Subscript:
            return self.item(self.ev(e.value, st), e.slice, st)
        if t is ast.Call:
            return self.call(e, st)
        if t is ast.UnaryOp:
            if isinstance(e.op, ast.Not):
                return neg(self.truth(self.ev(e.operand, st), st))
            v = self.ev(e.operand, st)
            if isinstance(e.op, ast.USub) and is_int(v):
                return simp(-ex(v))
            raise Unsupported("operator")
        if t is ast.BinOp:
            return self.binop(e.op, self.ev(e.left, st), self.ev(e.right, st), st)
        if t is ast.BoolOp:
            vs, x = [], st
            guard = []
            for a in e.values:
                y = st.copy()
                y.pc = st.pc + [g for g in guard if g is not True]
                if any(g is False for g in guard):
                    break
                c = self.truth(self.ev(a, y), y)
                st.heap.update({b: v for b, v in y.heap.items() if b not in st.heap})
                extra = y.pc[len(st.pc) + len([g for g in guard if g is not True]):]
                st.pc += [imp(conj(*guard), z) for z in extra]
                vs.append(c)
                guard.append(c if isinstance(e.op, ast.And) else neg(c))
            return conj(*vs) if isinstance(e.op, ast.And) else disj(*vs)
        if t is ast.Compare:
            a = self.ev(e.left, st)
            cs = []
            for op, r in zip(e.ops, e.comparators):
                b = self.ev(r, st)
                cs.append(self.compare(op, a, b, st))
                a = b
            return conj(*cs)
        if t is ast.IfExp:
            c = self.truth(self.ev(e.test, st), st)
            if isinstance(c, bool):
                return self.ev(e.body if c else e.orelse, st)
            return ite(c, self.ev(e.body, st), self.ev(e.orelse, st))
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp):
            return self.comp(e, st)
        if t is ast.JoinedStr:
            return Opaque()
        raise Unsupported(f"expression {t.__name__}")

    def comp_fixed(self, e, st):
        """a comprehension over the items of the items of a sequence, all of the same constant length"""
        if len(e.generators) != 2 or any(g.ifs for g in e.generators):
            raise Unsupported("nested comprehension")
        g, h = e.generators
        q = self.seq(self.ev(g.iter, st), st, order=False)

        def inst(j):
            y = st.copy()
            y.pc = st.pc + [j >= 0, j < ex(q.length)]
            n = len(y.pc)
            self.assign(g.target, self.load(q.at(j), y), y)
            self.quiet += 1
            try:
                out = []
                inner = self.seq(self.ev(h.iter, y), y, order=False)
                if inner.items is None or not inner.items:
                    raise Unsupported("nested comprehension")
                for x in inner.items:
                    self.assign(h.target, self.load(x, y), y)
                    out.append(self.ev(e.elt, y))
            finally:
                self.quiet -= 1
            if any(isinstance(v, H) for v in out) or len(y.pc) != n:
                raise Unsupported("nested comprehension")
            return out
        c = len(inst(fresh("i")))

        def at(k):
            v = inst(ex(k) / c)
            r = v[-1]
            for i in range(c - 2, -1, -1):
                r = ite(ex(k) % c == i, v[i], r)
            return r
        q2 = Seq(None, ex(q.length) * c, at)
        if isinstance(e, ast.GeneratorExp):
            return q2
        r = H("list" if isinstance(e, ast.ListComp) else "set", st.new_box())
        st.heap[r.box] = q2 if isinstance(e, ast.ListComp) else self.set_(q2, st)
        return r

    def comp(self, e, st):
        if len(e.generators) != 1:
            return self.comp_fixed(e, st)
        g = e.generators[0]
        src = self.ev(g.iter, st)
        q = self.seq(src, st, order=False)

        def inst(j, what):
            y = st.copy()
            y.pc = st.pc + [j >= 0, j < ex(q.length)]
            n = len(y.pc)
            self.assign(g.target, self.load(q.at(j), y), y)
            self.quiet += 1
            try:
                c = conj(*[self.truth(self.ev(x, y), y) for x in g.ifs])
                v = self.ev(e.elt, y) if what else None
                if isinstance(v, H):
                    v = y.heap[v.box]
            finally:
                self.quiet -= 1
            mine = [f for f in y.pc[n:] if z3.is_expr(f)]
            st.pc += [f for f in mine if not mentions(f, j)]
            return c, v, [f for f in mine if mentions(f, j)]
        if q.items is not None and len(q.items) <= 8 and not g.ifs:
            out = []
            y = st.copy()
            for x in q.items:
                self.assign(g.target, self.load(x, y), y)
                v = self.ev(e.elt, y)
                out.append(y.heap[v.box] if isinstance(v, H) else v)
            st.heap.update({b: v for b, v in y.heap.items() if b not in st.heap})
            q2 = Seq(out)
        elif not g.ifs:
            cache = {}

            def at(j):
                key = ex(j).get_id()
                if key not in cache:
                    c, v, extra = inst(ex(j), True)
                    cache[key] = (v, ex(j))
                    st.pc += extra
                return cache[key][0]
            _, v0, extra = inst(fresh("i"), True)
            if extra:
                raise Unsupported("comprehension with side conditions")
            q2 = Seq(None, q.length, at)
        else:
            # the items that satisfy the condition, in order: index functions between the two lists
            n, pos, back = fresh("len"), fun("pos", Z, Z), fun("back", Z, Z)
            i, j = fresh("i"), fresh("j")
            c1, v1, x1 = inst(pos(i), False)
            c2, v2, x2 = inst(j, False)
            st.pc += [n >= 0, n <= ex(q.length)]
            pats = [pos(i)]
            st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(pos(i) >= 0, pos(i) < ex(q.length), back(pos(i)) == i, *map(ex, x1), ex(c1))), patterns=pats))
            trig = trigger(q.at(j), j)
            st.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ex(q.length), *map(ex, x2), ex(c2)), z3.And(back(j) >= 0, back(j) < n, pos(back(j)) == j)), patterns=[trig] if trig is not None else []))
            q2 = Seq(None, n, lambda k: inst(pos(ex(k)), True)[1])
            same = q.at(j)
            if hasattr(q, "indexof") and is_int(same) and ex(inst(j, True)[1]).eq(ex(same)):
                q2.indexof = lambda e: back(q.indexof(e))
        if isinstance(e, ast.GeneratorExp):
            return q2
        h = H("list" if isinstance(e, ast.ListComp) else "set", st.new_box())
        st.heap[h.box] = q2 if isinstance(e, ast.ListComp) else self.set_(q2, st)
        return h

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                if isinstance(a, Opaque) or isinstance(b, Opaque):
                    return fresh("b", B)
                r = a is b
            elif isinstance(a, H) and isinstance(b, H):
                r = a.box == b.box
                if not r:
                    raise Unsupported("identity")
            elif is_bool(a) and is_bool(b):
                r = equal(a, b)
            else:
                raise Unsupported("identity")
            return r if isinstance(op, ast.Is) else neg(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, Ref) and b.name.startswith("graph."):
                b = self.graph_attr(b, st)
            if isinstance(b, H) and b.kind == "graph":
                b = node_set(st.heap[b.box])
            if isinstance(b, Edges):
                r = ex(b.g.adj(ex(a[0]), ex(a[1]))) if isinstance(a, tuple) and len(a) == 2 else False
            else:
                if isinstance(b, (SetV,)) or isinstance(b, H) and b.kind == "set":
                    r = self.set_(b, st).mem(a)
                else:
                    st.pc += mark(a)
                    r = self.set_(b, st).mem(self.val(a, st))
            r = simp(r) if not isinstance(r, bool) else r
            return r if isinstance(op, ast.In) else neg(r)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = equal(self.val(a, st), self.val(b, st))
            return r if isinstance(op, ast.Eq) else neg(r)
        a, b = self.val(a, st), self.val(b, st)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return fresh("b", B)
        if isinstance(op, ast.Lt):
            return simp(less(a, b))
        if isinstance(op, ast.Gt):
            return simp(less(b, a))
        if isinstance(op, ast.LtE):
            return simp(less(a, b, False))
        if isinstance(op, ast.GtE):
            return simp(less(b, a, False))
        raise Unsupported("comparison")

    def val(self, v, st):
        return st.heap[v.box] if isinstance(v, H) and v.kind == "list" else v

    def binop(self, op, a, b, st):
        a, b = self.view(a, st), self.view(b, st)
        if isinstance(a, H) and a.kind == "mat" or isinstance(b, H) and b.kind == "mat":
            m, c = (a, b) if isinstance(a, H) and a.kind == "mat" else (b, a)
            if isinstance(op, ast.Mult):
                return self.scale(m, c, st)
            raise Unsupported("matrix operation")
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque()
        if is_int(a) and is_int(b):
            a, b = ex(a), ex(b)
            if isinstance(op, ast.Add):
                return simp(a + b)
            if isinstance(op, ast.Sub):
                return simp(a - b)
            if isinstance(op, ast.Mult):
                return simp(a * b)
            if isinstance(op, ast.Mod) and z3.is_int_value(b) and b.as_long() > 0:
                return simp(a % b)
            raise Unsupported("operator")
        if isinstance(a, H) and isinstance(b, H) and a.kind == b.kind == "list" and isinstance(op, ast.Add):
            h = H("list", st.new_box())
            st.heap[h.box] = cat(st.heap[a.box], st.heap[b.box])
            return h
        if isinstance(a, Edges) and isinstance(b, Edges) and isinstance(op, ast.Sub):
            r = edge_difference(a.g, b.g, st)
            self.cotree.append(r.seq)
            return r
        if isinstance(op, (ast.Sub, ast.BitOr, ast.BitAnd)):
            h = H("set", st.new_box())
            st.heap[h.box] = self.setop(op, self.set_(a, st), self.set_(b, st))
            return h
        raise Unsupported("operator")

    def scale(self, m, c, st):
        old = st.heap[m.box]
        R = z3.RealVal
        if isinstance(c, tuple) and c[0] == "const" and isinstance(c[1], complex):
            x, y = R(repr(c[1].real)), R(repr(c[1].imag))
        elif is_int(c):
            x, y = z3.ToReal(ex(c)), R(0)
        elif isinstance(c, tuple) and c[0] == "const":
            x, y = R(repr(c[1])), R(0)
        else:
            raise Unsupported("scalar")
        h = H("mat", st.new_box())
        st.heap[h.box] = Mat(lambda p, q: x * old.re(p, q) - y * old.im(p, q), lambda p, q: x * old.im(p, q) + y * old.re(p, q), old.n)
        return h

    def item(self, o, sl, st):
        if isinstance(o, Ref) and o.name == "graph.nodes":
            raise Unsupported("node attributes")
        if isinstance(o, Opaque):
            return Opaque()
        if isinstance(o, tuple):
            i = self.ev(sl, st)
            if isinstance(i, int):
                return o[i]
            raise Unsupported("index of a tuple")
        if isinstance(o, Emb):
            i = self.ev(sl, st)
            return o.e.item(self, o, i, st)
        if isinstance(o, (H, Seq)) and (isinstance(o, Seq) or o.kind == "list"):
            q = self.seq(o, st)
            if isinstance(sl, ast.Slice):
                raise Unsupported("slice")
            i = self.ev(sl, st)
            if not is_int(i):
                raise Unsupported("index")
            if q.items is not None and isinstance(i, int):
                return self.load(q.items[i], st)
            if isinstance(i, int) and i < 0:
                self.oblige(st, "index within the list", ex(q.length) >= -i)
                i = simp(ex(q.length) + i)
            else:
                self.oblige(st, "index within the list", z3.And(ex(i) >= 0, ex(i) < ex(q.length)))
            return self.load(q.at(ex(i)), st)
        if isinstance(o, H) and o.kind == "mat":
            i = self.ev(sl, st)
            if isinstance(i, tuple) and len(i) == 2 and all(map(is_int, i)):
                return ("entry", o, i)
        raise Unsupported("subscript")

    # -------------------------------------------------------------------------------------------------------- calls
    def graph_attr(self, r, st):
        g = st.heap[r.recv.box]
        return Edges(g) if r.name == "graph.edges" else node_set(g)

    def call(self, e, st):
        f = self.ev(e.func, st)
        if not isinstance(f, Ref):
            raise Unsupported("call of a value")
        if f.name.startswith("ff:"):
            qn = f"{self.mod}.{f.name[3:]}"
            c = CONTRACTS.get(qn)
            if c is None or c.call is None:
                vs = self.ev2(e, st)
                if len(vs) == 1:
                    st.env, st.heap, st.pc = vs[0][1].env, vs[0][1].heap, vs[0][1].pc
                    return vs[0][0]
                raise Unsupported(f"call of {qn} within an expression")
            self.used.add(qn)
            return c.call(self, st, self.bind(self.funcs[f.name[3:]], e, st))
        if f.name == "builtins.print":
            return None
        kw = {k.arg: self.ev(k.value, st) for k in e.keywords}
        a = [self.view(self.ev(x, st), st) for x in e.args]
        if any(isinstance(x, ast.Starred) for x in e.args):
            raise Unsupported("starred argument")
        if f.name.startswith("graph.") and f.name.count(".") == 1 and not a and not kw:
            return self.graph_attr(f, st)
        if f.recv is not None and f.name.startswith("."):
            return self.method(f.recv, f.name[1:], a, kw, st)
        if f.name in LIB:
            return LIB[f.name](self, st, a, kw)
        raise Unsupported(f"call of {f.name}")

    def method(self, o, name, a, kw, st):
        if kw and not (isinstance(o, H) and o.kind == "graph"):
            raise Unsupported("keyword")
        if isinstance(o, H) and o.kind == "list":
            q = st.heap[o.box]
            if name == "append" and len(a) == 1:
                self.put(st, o, cat(q, Seq([self.store(a[0], st)])))
                return None
            if name == "extend" and len(a) == 1:
                self.put(st, o, cat(q, self.seq(a[0], st)))
                return None
            if name == "sort" and not a:
                self.put(st, o, permuted(q, st))
                return None
            if name == "copy" and not a:
                h = H("list", st.new_box())
                st.heap[h.box] = q
                return h
            if name == "index" and len(a) == 1:
                x = self.val(a[0], st)
                if isinstance(x, Opaque):
                    raise Unsupported("index of an unknown value")
                i = fresh("idx")
                orig = x.origin if isinstance(x, Seq) else None
                if orig is not None and orig[0] is q:
                    st.pc += [i <= orig[1]]
                else:
                    el = fresh("i")
                    self.oblige(st, "item of the list", z3.Exists([el], z3.And(el >= 0, el < ex(q.length), ex(equal(q.at(el), x)))))
                st.pc += [i >= 0, i < ex(q.length), ex(equal(q.at(i), x))]
                return i
            if name == "pop" and len(a) <= 1:
                n = ex(q.length)
                i = a[0] if a else simp(n - 1)
                if not is_int(i):
                    raise Unsupported("pop")
                if isinstance(i, int) and i < 0:
                    i = simp(n + i)
                if q.items is not None and isinstance(i, int):
                    xs = list(q.items)
                    v = xs.pop(i)
                    self.put(st, o, Seq(xs))
                else:
                    self.oblige(st, "index within the list", z3.And(ex(i) >= 0, ex(i) < n))
                    v = q.at(ex(i))
                    self.put(st, o, Seq(None, simp(n - 1), lambda j: ite(ex(j) < ex(i), q.at(j), q.at(ex(j) + 1))))
                return self.load(v, st)
            if name == "remove" and len(a) == 1:
                i = self.method(o, "index", a, {}, st)
                self.method(o, "pop", [i], {}, st)
                return None
        if isinstance(o, H) and o.kind == "set":
            S = st.heap[o.box]
            if name in ("add", "discard", "remove") and len(a) == 1:
                x = a[0]
                sm = S.sample or sample_of(x)
                if name == "remove":
                    self.oblige(st, "element of the set", S.mem(x))
                self.put(st, o, SetV(lambda y: disj(S.mem(y), equal(y, x)), sm) if name == "add" else SetV(lambda y: conj(S.mem(y), neg(equal(y, x))), sm))
                return None
            if name in ("update", "difference_update") and len(a) == 1:
                self.put(st, o, self.setop(ast.BitOr() if name == "update" else ast.Sub(), S, self.set_(a[0], st)))
                return None
        if isinstance(o, H) and o.kind == "graph":
            g = st.heap[o.box]
            if name == "remove_node" and len(a) == 1:
                x = ex(a[0])
                self.oblige(st, "node of the graph", g.nodes(x))
                d = degree(g, st)(x)
                t = fresh("tree", B)
                st.pc.append(z3.Implies(z3.And(ex(g.tree), d == 1), t))
                self.put(st, o, GraphV(lambda y: conj(g.nodes(y), ex(y) != x), g.adj, None, t, None, g.extra))
                return None
            if name == "degree" and len(a) == 1 and is_int(a[0]):
                return degree(g, st)(ex(a[0]))
            if name in ("number_of_nodes", "order") and not a:
                return LIB["builtins.len"](self, st, [node_set(g)], {})
            if name == "copy" and not a:
                h = H("graph", st.new_box())
                st.heap[h.box] = g
                return h
            if name == "add_nodes_from" and len(a) == 1 and not kw:
                q = a[0]
                S = self.set_(q, st) if not isinstance(q, Range) else SetV(q.mem, lambda: fresh("e"))
                if g.es is not None and g.es.items == [] or g.es is not None:
                    self.put(st, o, GraphV(lambda y: disj(g.nodes(y), S.mem(y)), g.adj, g.es, False, None, g.extra))
                    return None
            if name in ("add_edges_from", "add_edge") and g.es is not None and not kw:
                q = self.seq(a[0], st) if name == "add_edges_from" else Seq([(a[0], a[1])])
                pair = lambda x: tuple(x) if isinstance(x, tuple) else tuple(x.items) if isinstance(x, Seq) and x.items is not None and len(x.items) == 2 else bad("edge")
                es = cat(g.es, Seq([pair(x) for x in q.items]) if q.items is not None else Seq(None, q.length, lambda j: pair(q.at(j))))
                gg = GraphV(None, None, es, False, None, g.extra)
                j = lambda: fresh("j")

                def some(p):
                    if es.items is not None:
                        return disj(*[p(x) for x in es.items])
                    k = j()
                    return z3.Exists([k], z3.And(k >= 0, k < ex(es.length), ex(p(es.at(k)))))
                gg.adj = lambda x, y: some(lambda t: z3.Or(z3.And(ex(t[0]) == ex(x), ex(t[1]) == ex(y)), z3.And(ex(t[0]) == ex(y), ex(t[1]) == ex(x))))
                gg.nodes = lambda x: disj(g.nodes(x), some(lambda t: z3.Or(ex(t[0]) == ex(x), ex(t[1]) == ex(x))))
                self.put(st, o, gg)
                return None
        if isinstance(o, H) and o.kind == "mat" and name in ("toarray", "todense", "copy") and not a:
            h = H("mat", st.new_box())
            st.heap[h.box] = st.heap[o.box]
            return h
        if isinstance(o, Opaque):
            return Opaque()
        raise Unsupported(f"method {name}")


class Edges:
    """edge view of a graph"""

    def __init__(self, g):
        self.g = g


class Range:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def mem(self, e):
        return z3.And(ex(e) >= ex(self.a), ex(e) < ex(self.b))


def bad(what):
    raise Unsupported(what)


def roles(e, b):
    k = [s[0] if s[0] != "H" else s[1] for s in e.values()] + [s[0] for s in b.values()]
    return "+".join(sorted(k)) or "nothing"


def trigger(v, j):
    """a term to trigger on: function application to the bound index"""
    for x in parts(v) if not isinstance(v, Seq) else []:
        if z3.is_app(x) and x.num_args() and any(a.eq(j) for a in x.children()) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return x
    return None


def cat(a, b):
    if a.items is not None and b.items is not None and len(a.items) + len(b.items) <= 8:
        return Seq(list(a.items) + list(b.items))
    if zero(a):
        return b
    if zero(b):
        return a
    n = ex(a.length)
    return Seq(None, simp(n + ex(b.length)), lambda i: ite(ex(i) < n, a.at(i), b.at(simp(ex(i) - n))))


def permuted(q, st):
    """a list with the same length whose items are otherwise unknown"""
    if q.items is not None and not q.items:
        return q
    facts = []
    v = build(("list", shape(q.at(fresh("i")) if q.items is None else q.items[0], st)), [], facts, "sorted")([])
    st.pc += facts + [ex(v.length) == ex(q.length)]
    return v


def node_set(g):
    return SetV(lambda e: g.nodes(e), lambda: fresh("e"))


def enum(S, st):
    """the elements of a set in some order, each once"""
    if S.seq is not None:
        return S.seq
    if S.sample is None:
        return Seq([])
    el = S.sample()
    n = fresh("card")
    facts = []
    at = build(shape(el, st), [Z], facts, "enum")
    idx = fun("eidx", *([Z] * len(parts(el))), Z)
    i = fresh("i")
    x = at([i])
    st.pc += facts + [n >= 0,
                      z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(ex(S.mem(x)), idx(*parts(x)) == i)), patterns=[parts(x)[0]]),
                      z3.ForAll(parts(el), z3.Implies(ex(S.mem(el)), z3.And(idx(*parts(el)) >= 0, idx(*parts(el)) < n, ex(equal(at([idx(*parts(el))]), el)))),
                                patterns=marked(el if isinstance(el, tuple) else el, mem_pattern(S, el)))]
    q = Seq(None, n, lambda j: at([j]))
    q.indexof = lambda e: idx(*[ex(t) for t in parts(e)])
    return q


def mentions(t, c):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        todo += [x.body()] if z3.is_quantifier(x) else x.children()
    return False


def mem_pattern(S, el):
    c = ex(S.mem(el))
    for t in subterms(c):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and all(any(a.eq(p) for a in t.children()) for p in parts(el)):
            return [t]
    return []


def subterms(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x) or z3.is_var(x):
            continue
        seen.add(x.get_id())
        yield x
        todo += x.children()


def degree(g, st):
    """degree within the current nodes of the graph, with the facts about nodes of degree 0, 1 and more, and about trees"""
    if g.deg is None:
        d, nb, s1, s2 = fun("deg", Z, Z), fun("nb", Z, Z), fun("s", Z, Z), fun("s", Z, Z)
        x, y = fresh("x"), fresh("y")
        is_nb = lambda a, b: z3.And(ex(g.nodes(b)), ex(g.adj(a, b)))
        P = [d(x)]
        adjp = [t for t in [ex(g.adj(x, y))] if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED]
        facts = [z3.ForAll([x], d(x) >= 0, patterns=P),
                 z3.ForAll([x], z3.Implies(d(x) == 1, is_nb(x, nb(x))), patterns=P),
                 z3.ForAll([x, y], z3.Implies(z3.And(d(x) == 1, is_nb(x, y)), y == nb(x)), patterns=[z3.MultiPattern(d(x), *adjp)] if adjp else []),
                 z3.ForAll([x, y], z3.Implies(z3.And(d(x) == 0, ex(g.nodes(y))), z3.Not(ex(g.adj(x, y)))), patterns=[z3.MultiPattern(d(x), *adjp)] if adjp else []),
                 z3.ForAll([x], z3.Implies(d(x) >= 2, z3.And(is_nb(x, s1(x)), is_nb(x, s2(x)), s1(x) != s2(x))), patterns=P)]
        # trees: two leaves if there are two nodes; neighbouring leaves are the whole tree
        a, b, u, v, z = fresh("leaf"), fresh("leaf"), fresh("u"), fresh("v"), fresh("z")
        N = lambda t: ex(g.nodes(t))
        two = [z3.MultiPattern(*mem_pattern(node_set(g), u), *mem_pattern(node_set(g), v))] if mem_pattern(node_set(g), u) else []
        facts.append(z3.ForAll([u, v], z3.Implies(z3.And(ex(g.tree), N(u), N(v), u != v), z3.And(N(a), N(b), a != b, d(a) == 1, d(b) == 1)), patterns=two))
        facts += mark(a) + mark(b)
        np_ = mem_pattern(node_set(g), z)
        facts.append(z3.ForAll([x, y, z], z3.Implies(z3.And(ex(g.tree), N(x), N(y), N(z), d(x) == 1, d(y) == 1, ex(g.adj(x, y))), z3.Or(z == x, z == y)),
                               patterns=[z3.MultiPattern(d(x), d(y), *np_)] if np_ else []))
        g.deg = (d, nb, facts)
    d, nb, facts = g.deg
    have = {c.get_id() for c in st.pc if z3.is_expr(c)}
    st.pc += [f for f in facts if f.get_id() not in have]
    return d


def edge_difference(g, h, st):
    """set of the edges of g that are no edges of h: each once, in one of its two directions"""
    n, ax, ay, idx = fresh("ne"), fun("nx", Z, Z), fun("ny", Z, Z), fun("nidx", Z, Z, Z)
    i, u, v = fresh("i"), fresh("u"), fresh("v")
    inn = lambda a, b: z3.And(ex(g.adj(a, b)), z3.Not(ex(h.adj(a, b))))
    st.pc += [n >= 0,
              z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(inn(ax(i), ay(i)), idx(ax(i), ay(i)) == i, idx(ay(i), ax(i)) == i)), patterns=[ax(i)]),
              z3.ForAll([u, v], z3.Implies(inn(u, v), z3.And(idx(u, v) >= 0, idx(u, v) < n, idx(u, v) == idx(v, u),
                                                              z3.Or(z3.And(ax(idx(u, v)) == u, ay(idx(u, v)) == v), z3.And(ax(idx(u, v)) == v, ay(idx(u, v)) == u)))),
                        patterns=marked((u, v), mem_pattern(SetV(lambda e: g.adj(*e), None), (u, v))))]
    q = Seq(None, n, lambda k: (ax(k), ay(k)))
    q.idx, q.kind = idx, "edges"
    return SetV(lambda e: conj(inn(ex(e[0]), ex(e[1])), q_has(q, e)), lambda: (fresh("e"), fresh("e")), q)


def q_has(q, e):
    k = fresh("k")
    return z3.Exists([k], z3.And(k >= 0, k < ex(q.length), ex(equal(q.at(k), e))))


# ------------------------------------------------------------------------------------------------------------- library
LIB = {}


def lib(*names):
    def deco(f):
        for n in names:
            LIB[n] = f
        return f
    return deco


@lib("builtins.len")
def _len(m, st, a, kw):
    v = a[0]
    if isinstance(v, H) and v.kind == "list":
        return st.heap[v.box].length
    if isinstance(v, (Seq, tuple)):
        return v.length if isinstance(v, Seq) else len(v)
    if isinstance(v, H) and v.kind == "graph":
        v = node_set(st.heap[v.box])
    if isinstance(v, H) and v.kind == "set":
        v = st.heap[v.box]
    if isinstance(v, Edges):
        return v.g.es.length if v.g.es is not None else bad("number of edges")
    if isinstance(v, SetV):
        if v.seq is not None:
            return v.seq.length
        c = fresh("card")
        x, y = v.sample(), v.sample()
        a_, b_ = v.sample(), v.sample()
        differ = lambda p, q: neg(equal(p, q))
        pat = mem_pattern(v, x) and [z3.MultiPattern(*mem_pattern(v, x), *mem_pattern(v, y))]
        st.pc += mark(a_) + mark(b_)
        st.pc += [c >= 0, z3.ForAll(parts(x), z3.Implies(c == 0, z3.Not(ex(v.mem(x)))), patterns=mem_pattern(v, x)),
                  z3.Implies(c >= 1, ex(v.mem(a_))), z3.Implies(c >= 2, z3.And(ex(v.mem(b_)), ex(differ(a_, b_)))),
                  z3.ForAll(parts(x) + parts(y), z3.Implies(z3.And(c <= 1, ex(v.mem(x)), ex(v.mem(y))), ex(equal(x, y))), patterns=pat or [])]
        return c
    raise Unsupported("len")


@lib("builtins.min", "builtins.max")
def _min(m, st, a, kw):
    raise Unsupported("min")


def _minmax(low):
    def f(m, st, a, kw):
        if set(kw) == {"key"} and len(a) == 1 and isinstance(a[0], H) and a[0].kind == "list":
            q, i = m.seq(a[0], st), fresh("i")
            m.oblige(st, "minimum of a list that is not empty", ex(q.length) > 0)
            st.pc += [i >= 0, i < ex(q.length)]
            return m.load(q.at(i), st)                       # some element
        if kw:
            raise Unsupported("key")
        if len(a) == 2 and all(map(is_int, a)):
            x, y = ex(a[0]), ex(a[1])
            return simp(z3.If(x <= y, x, y) if low else z3.If(x >= y, x, y))
        if len(a) != 1:
            raise Unsupported("min")
        v = a[0]
        if isinstance(v, H) and v.kind == "graph":
            v = node_set(st.heap[v.box])
        if isinstance(v, H) and v.kind == "set":
            v = st.heap[v.box]
        if isinstance(v, tuple) and len(v) == 2 and all(map(is_int, v)):
            return f(m, st, list(v), {})
        if not isinstance(v, SetV):
            v = m.set_(v, st)
        el = v.sample()
        m.oblige(st, "minimum of a set that is not empty", z3.Exists(parts(el), ex(v.mem(el))))
        x = v.sample()
        st.pc += mark(x) + [ex(v.mem(x)), z3.ForAll(parts(el), z3.Implies(ex(v.mem(el)), less(x, el, False) if low else less(el, x, False)), patterns=mem_pattern(v, el))]
        return x
    return f


LIB["builtins.min"], LIB["builtins.max"] = _minmax(True), _minmax(False)


@lib("builtins.sorted")
def _sorted(m, st, a, kw):
    if kw or len(a) != 1:
        raise Unsupported("sorted")
    v = a[0]
    h = H("list", st.new_box())
    if isinstance(v, H) and v.kind == "list" and st.heap[v.box].items is not None:
        v = tuple(st.heap[v.box].items)
    if isinstance(v, tuple) and len(v) == 2 and all(map(is_int, v)):
        st.heap[h.box] = Seq([LIB["builtins.min"](m, st, list(v), {}), LIB["builtins.max"](m, st, list(v), {})])
        return h
    st.heap[h.box] = permuted(m.seq(v, st), st)
    return h


@lib("builtins.tuple")
def _tuple(m, st, a, kw):
    q = m.seq(a[0], st) if a else Seq([])
    return tuple(q.items) if q.items is not None else q


@lib("builtins.list")
def _list(m, st, a, kw):
    h = H("list", st.new_box())
    st.heap[h.box] = m.seq(a[0], st) if a and not isinstance(a[0], Edges) else a[0].g.es if a else Seq([])
    if st.heap[h.box] is None:
        raise Unsupported("list")
    return h


@lib("builtins.set")
def _set(m, st, a, kw):
    h = H("set", st.new_box())
    st.heap[h.box] = m.set_(a[0], st) if a else SetV(lambda e: False, None)
    return h


@lib("builtins.range")
def _range(m, st, a, kw):
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1]) if len(a) == 2 else bad("range")
    return Range(lo, hi)


@lib("builtins.enumerate")
def _enumerate(m, st, a, kw):
    q = m.seq(a[0], st)
    if q.items is not None:
        return Seq([(i, x) for i, x in enumerate(q.items)])
    return Seq(None, q.length, lambda i: (i, q.at(i)))


@lib("networkx.Graph")
def _graph(m, st, a, kw):
    if a or kw:
        raise Unsupported("nx.Graph")
    h = H("graph", st.new_box())
    st.heap[h.box] = GraphV(lambda e: False, lambda x, y: False, Seq([]), False)
    return h


@lib("networkx.is_tree")
def _is_tree(m, st, a, kw):
    m.assumed.add("networkx.is_tree")
    g = st.heap[a[0].box] if isinstance(a[0], H) and a[0].kind == "graph" else bad("is_tree")
    return g.tree if g.tree is True or z3.is_expr(g.tree) else fresh("istree", B)


def _part(which):
    def f(m, st, a, kw):
        if len(a) == 1 and isinstance(a[0], H) and a[0].kind == "mat":
            old = st.heap[a[0].box]
            h = H("mat", st.new_box())
            st.heap[h.box] = Mat(getattr(old, which), lambda p, q: z3.RealVal(0), old.n, old.odd if which == "re" else None)
            return h
        raise Unsupported("numpy." + which)
    return f


LIB["numpy.real"], LIB["numpy.imag"] = _part("re"), _part("im")


@lib("numpy.sum", "numpy.any", "numpy.all", "numpy.abs", "numpy.count_nonzero")
def _sum(m, st, a, kw):
    return Opaque()


def imports(tree):
    out = {}
    for s in tree.body:
        if isinstance(s, ast.Import):
            for a in s.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(s, ast.ImportFrom) and s.module and not s.level:
            for a in s.names:
                out[a.asname or a.name] = s.module + "." + a.name
    return out


# -------------------------------------------------------------------------------------------------------------- prover
def split(goal):
    """conjuncts of a goal, also below an implication"""
    if z3.is_and(goal):
        return [x for g in goal.children() for x in split(g)]
    if z3.is_implies(goal):
        a, b = goal.children()
        parts_ = split(b)
        return [z3.Implies(a, x) for x in parts_] if len(parts_) > 1 else [goal]
    if z3.is_or(goal):                                   # simplified implication
        cs = goal.children()
        for i, c in enumerate(cs):
            if z3.is_not(c) and z3.is_or(c.arg(0)):
                return [x for y in c.arg(0).children() for x in split(z3.Or(*cs[:i], z3.Not(y), *cs[i + 1:]))] if len(cs) <= 12 else [goal]
    return [goal]


def cases(goal, depth=5):
    """the goal under every combination of the conditions its terms depend on"""
    if depth == 0 or z3.is_true(goal):
        return [goal] if not z3.is_true(goal) else []
    for t in subterms(goal):
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c = t.arg(0)
            if any(z3.is_app_of(x, z3.Z3_OP_ITE) for x in subterms(c)):
                continue
            return [z3.Implies(b, x) if not z3.is_true(x) else x for b, v in ((c, True), (z3.Not(c), False))
                    for x in cases(z3.simplify(z3.substitute(goal, (c, z3.BoolVal(v)))), depth - 1)]
    return [goal]


def prove(pc, goal, deadline, first=None):
    """('proved'|'refuted'|'unknown', reason)"""
    why = ""
    for opts, ms in (((dict(mbqi=False), first),) if first else ((dict(mbqi=False), 4000), (dict(mbqi=True), 4000))):
        left = int((deadline - time.time()) * 1000)
        if left < 50:
            return "unknown", "z3: unknown (time budget)"
        s = z3.Solver()
        s.set("timeout", min(ms, left), "smt.auto_config", False, "smt.mbqi", opts["mbqi"], "smt.random_seed", 1)
        s.add(*[ex(c) for c in pc if c is not True])
        s.add(z3.Not(ex(goal)))
        t0 = time.time()
        r = s.check()
        CHECKS["queries"] += 1
        CHECKS["seconds"] += time.time() - t0
        if r == z3.unsat:
            return "proved", ""
        if r == z3.sat:
            return "refuted", "counter-model of the obligation"
        why = s.reason_unknown()
        CHECKS["unknown"] += 1
    return "unknown", ("z3: unknown (" + why + ")") if "incomplete" not in why else f"not implied by the path ({why})"


KEEP = []


def keep_terms():
    """this z3 release frees terms with patterns too early; the process is short-lived, so all terms are kept"""
    if not KEEP:
        old = z3.AstRef.__init__

        def init(self, *a):
            old(self, *a)
            KEEP.append(self)
        z3.AstRef.__init__ = init


def verify(c, variant, limit=60):
    keep_terms()
    t0 = time.time()
    path = os.path.join(exe.SRC, c.qn.split(".")[0] + ".py")
    tree = ast.parse(open(path).read())
    fn = [f for f in tree.body if isinstance(f, ast.FunctionDef) and f.name == c.qn.split(".")[1]]
    name = f"{c.qn}[{variant}]"
    if not fn:
        return [Ob(name, "unsupported", "no such function")], None
    m = M(c, tree, variant, t0 + limit)
    try:
        st = St()
        args = c.setup(m, st, variant)
        a = fn[0].args
        names = [x.arg for x in a.args]
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in args:
                args[n] = m.ev(d, St())
        if set(args) != set(names):
            raise Unsupported("signature")
        st.env = dict(args)
        st0 = st.copy()
        n = 0
        for o in m.block(fn[0].body, st):
            y = o[-1]
            if m.dead(y):
                continue
            if o[0] == "raise":
                m.oblige(y, f"raises {o[1][:60]}", False)
                continue
            n += 1
            for nm, goal, *r in c.post(m, st0, y, o[1] if o[0] == "return" else None):
                m.oblige(y, nm, goal, *r)
        if not n:
            m.obs.append(Ob(name + "/returns", "unknown", "no path returns"))
        m.obs.append(Ob(name + "/consistent", *consistent(st0)))
    except Unsupported as e:
        return m.obs + [Ob(name, "unsupported", str(e))], m
    return m.obs, m


def consistent(st):
    """the preconditions must not be contradictory"""
    s = z3.Solver()
    s.set("timeout", 2000, "smt.mbqi", False, "smt.auto_config", False)
    s.add(*[ex(c) for c in st.pc])
    return ("unknown", "contradictory precondition") if s.check() == z3.unsat else ("proved",)
