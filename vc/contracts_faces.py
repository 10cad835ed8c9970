"""Contracts of faces, dual_graph_H and pfo_algorithm (C11), discharged by fol.py.

A plane graph is given by its directed edges D, its edges (each once) and the rotation of its embedding: CW(v, u) is the
neighbour of v next to u.  NEXT(u, v) = (v, CW(v, u)) permutes the directed edges; its cycles are the faces."""
import ast

import z3

from num import Unsupported
import fol
import npm
from fol import *                                # noqa: F401,F403
from fol import Contract, Inv, Seq, SetV, GraphV, Mat, Emb, H, Edges, Opaque, ex, conj, disj, neg, imp, simp, fresh, fun, Z, B, lib, LIB

PAIR = ("tuple", (("int",), ("int",)))


def U(name, vs, body, *pats, marks=()):
    """universally quantified formula: as a goal with fresh constants, as an assumption quantified"""
    body = ex(body) if isinstance(body, bool) else body

    def close():
        return z3.ForAll(list(vs), body, patterns=[z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats])
    return (name, body, close, [y for x in marks for y in mark(x)])


class Plane:
    def __init__(self, m, st, nodes=False):
        self.D = D = fun("D", Z, Z, B)
        self.EX, self.EY, self.eidx, self.m = fun("ex", Z, Z), fun("ey", Z, Z), fun("eidx", Z, Z, Z), fresh("m")
        self.CW, self.CCW = fun("cw", Z, Z, Z), fun("ccw", Z, Z, Z)
        self.n = fresh("n")
        u, v, i = fresh("u"), fresh("v"), fresh("i")
        CW, CCW, EX, EY, eidx = self.CW, self.CCW, self.EX, self.EY, self.eidx
        st.pc += [self.m >= 1,
                  z3.ForAll([u, v], z3.Implies(D(u, v), z3.And(D(v, u), u != v)), patterns=[D(u, v)]),
                  z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.m), z3.And(D(EX(i), EY(i)), eidx(EX(i), EY(i)) == i)), patterns=[EX(i)]),
                  z3.ForAll([u, v], z3.Implies(D(u, v), z3.And(eidx(u, v) >= 0, eidx(u, v) < self.m, eidx(u, v) == eidx(v, u),
                                                                z3.Or(z3.And(EX(eidx(u, v)) == u, EY(eidx(u, v)) == v), z3.And(EX(eidx(u, v)) == v, EY(eidx(u, v)) == u)))),
                            patterns=marked((u, v), [D(u, v)])),
                  (lambda R, Q: z3.ForAll([u, v], z3.Implies(D(u, v), z3.And(D(v, R(v, u)), Q(v, R(v, u)) == u)), patterns=[R(v, u)]))(*self.rotation(m))]
        if nodes:
            st.pc += [self.n >= 2, z3.ForAll([u, v], z3.Implies(D(u, v), z3.And(u >= 0, u < self.n, v >= 0, v < self.n)), patterns=[D(u, v)])]
        inside = (lambda x: z3.And(ex(x) >= 0, ex(x) < self.n)) if nodes else (lambda x, f=fun("node", Z, B): f(ex(x)))
        es = Seq(None, self.m, lambda k: (EX(k), EY(k)))
        es.kind, es.idx = "graph edges", eidx
        self.graph = H("graph", st.new_box(), True)
        st.heap[self.graph.box] = GraphV(inside, lambda a, b: D(ex(a), ex(b)), es, False, self.n, dict(plane=self))
        self.own = self.pos = self.faces = None

    def rotation(self, m):
        """the rotation the code uses: clockwise, or counterclockwise throughout (the same faces the other way round); its inverse"""
        back = any(isinstance(x, ast.Constant) and x.value == "ccw" for x in ast.walk(m.tree))
        return (self.CCW, self.CW) if back else (self.CW, self.CCW)

    def nxt(self, m, d):
        rot = self.rotation(m)[0]
        return (ex(d[1]), rot(ex(d[1]), ex(d[0])))

    def item(self, m, o, i, st):
        """emb[v], emb[v][u], emb[v][u]['cw']"""
        p = o.path + (i,)
        if len(p) == 1 and is_int(i):
            return Emb(self, p)
        if len(p) == 2 and is_int(i):
            m.oblige(st, "neighbour in the embedding", self.D(ex(p[0]), ex(p[1])))
            return Emb(self, p)
        if len(p) == 3 and i in ("cw", "ccw"):
            w = (self.CW if i == "cw" else self.CCW)(ex(p[0]), ex(p[1]))
            st.pc += mark((p[0], w))
            return w
        raise Unsupported("item of an embedding")

    def given(self, m, st):
        """a list of faces as the contract of faces promises it: own/pos give the place of a directed edge"""
        facts = []
        F = build(("list", ("list", PAIR)), [], facts, "F")([])
        self.own, self.pos, self.faces = fun("own", Z, Z, Z), fun("pos", Z, Z, Z), F
        st.pc += facts + [f[2]() for f in partition(self, m, F, self.own, self.pos, None, None)]
        h = H("list", st.new_box(), True)
        st.heap[h.box] = F
        return h


def partition(p, m, F, own, pos, S, P):
    """F: list of faces (and P: a face under way): closed walks that together contain every directed edge (outside S) once"""
    D = p.D
    u, v, f, i, j = (fresh(x) for x in "uvfij")
    n = ex(F.length)
    not_in = (lambda d: neg(S.mem(d))) if S is not None else (lambda d: True)
    e, e2 = F.at(f).at(i), F.at(f).at(j)
    L = ex(F.at(f).length)
    out = [U("edges of the faces", (f, i), z3.Implies(z3.And(f >= 0, f < n, i >= 0, i < L), z3.And(D(*map(ex, e)), ex(not_in(e)), own(*map(ex, e)) == f, pos(*map(ex, e)) == i)), ex(e[0])),
           U("faces follow the rotation", (f, i, j), z3.Implies(z3.And(f >= 0, f < n, i >= 0, j < L, j == i + 1), ex(equal(e2, p.nxt(m, e)))), [ex(e[0]), ex(e2[0])]),
           U("faces are closed", (f,), z3.Implies(z3.And(f >= 0, f < n), z3.And(L >= 1, ex(equal(F.at(f).at(0), p.nxt(m, F.at(f).at(L - 1)))))), L)]
    at = lambda q, k: ex(equal(q.at(k), (u, v)))
    k, o = pos(u, v), own(u, v)
    before = lambda q, k: ex(equal(p.nxt(m, q.at(k)), (u, v)))
    l = ex(F.at(o).length)
    place = z3.And(o >= 0, o < n, k >= 0, k < l, at(F.at(o), k), before(F.at(o), z3.If(k >= 1, k - 1, l - 1)))
    if P is not None:
        place = z3.If(o == n, z3.And(k >= 0, k < ex(P.length), at(P, k), z3.Implies(k >= 1, before(P, k - 1))), place)
    out.append(U("every directed edge has its place", (u, v), z3.Implies(z3.And(D(u, v), ex(not_in((u, v)))), place), [D(u, v), *mark((u, v))], marks=[(u, v)]))
    if P is not None:
        x, y = P.at(i), P.at(j)
        out += [("walk under way is not empty", ex(P.length) >= 1),
                U("edges of the walk under way", (i,), z3.Implies(z3.And(i >= 0, i < ex(P.length)), z3.And(D(*map(ex, x)), ex(not_in(x)), own(*map(ex, x)) == n, pos(*map(ex, x)) == i)), ex(x[0])),
                U("walk under way follows the rotation", (i, j), z3.Implies(z3.And(i >= 0, j < ex(P.length), j == i + 1), ex(equal(y, p.nxt(m, x)))), [ex(x[0]), ex(y[0])])]
    if S is not None:
        out.append(U("open edges are edges", (u, v), imp(S.mem((u, v)), D(u, v)), *mem_pattern(S, (u, v))))
    return out


def named(st, changed, boxes):
    """names of the variables that hold the changed objects"""
    out = {}
    for n, h in st.env.items():
        if n in changed and changed[n][0] == "H":
            out[n] = changed[n][1:3]
        elif isinstance(h, H) and h.box in boxes and boxes[h.box][0] in ("list", "fixed", "set", "mat", "graph"):
            s = boxes[h.box]
            out[n] = ("set", s[1]) if s[0] == "set" else (s[0], None) if s[0] in ("mat", "graph") else ("list", s)
    return out


def one(names, st, kind, test):
    got = {}
    for n, (k, s) in names.items():
        if k == kind and test(s):
            got.setdefault(st.env[n].box if isinstance(st.env[n], H) else n, n)
    if len(got) != 1:
        raise Unsupported(f"role of a {kind} in a loop")
    return next(iter(got.values()))


def heap(st, n):
    h = st.env[n]
    if not isinstance(h, H) or h.kind == "list" and (h.frozen or h.box in st.frozen):
        raise Unsupported("variable of an invariant")
    return st.heap[h.box]


# ---------------------------------------------------------------------------------------------------------------- faces
def setup_faces(m, st, variant):
    p = m.plane = Plane(m, st)
    return dict(graph=p.graph, emb=Emb(p) if variant == "embedding" else None)


def loops_faces(m, s, st, changed, boxes, seq):
    p = m.plane
    names = named(st, changed, boxes)
    sets = [n for n, (k, t) in names.items() if k == "set" and t == PAIR]
    if seq is not None and getattr(seq, "kind", "") == "graph edges" and sets:
        S = one(names, st, "set", lambda t: t == PAIR)
        S0 = heap(st, S)

        def formulas(x, g, k):
            u, v = fresh("u"), fresh("v")
            T = heap(x, S)
            return [U("directed edges so far", (u, v), ex(T.mem((u, v))) == z3.Or(ex(S0.mem((u, v))), z3.And(p.D(u, v), p.eidx(u, v) < k)), *mem_pattern(T, (u, v)), p.D(u, v), marks=[(u, v)])]
        return Inv(formulas)
    if seq is None and sets:
        S = one(names, st, "set", lambda t: t == PAIR)
        P = one(names, st, "list", lambda t: t[0] in ("list", "fixed") and t[1] and (t[1] if t[0] == "list" else t[1][0]) == PAIR)
        F = one(names, st, "list", lambda t: t[0] == "list" and t[1] and t[1][0] in ("list", "fixed"))

        def init(x):
            n = ex(heap(x, F).length)
            return (lambda a, b: n, lambda a, b: z3.IntVal(0))

        def ghost():
            return (fun("own", Z, Z, Z), fun("pos", Z, Z, Z))

        def step(h, g, y):
            new = lambda a, b: z3.And(ex(heap(h, S).mem((a, b))), z3.Not(ex(heap(y, S).mem((a, b)))))
            n, k = ex(heap(y, F).length), ex(heap(y, P).length) - 1
            return (lambda a, b: z3.If(new(a, b), n, g[0](a, b)), lambda a, b: z3.If(new(a, b), k, g[1](a, b)))
        return Inv(lambda x, g, k: partition(p, m, lists(heap(x, F)), g[0], g[1], heap(x, S), heap(x, P)), ghost, init, step,
                   lambda h, y: (heap(h, S), heap(y, S), [heap(y, P).at(ex(heap(y, P).length) - 1)]))
    if sets or any(k == "list" and t[0] == "list" and t[1] and t[1][0] == "list" for k, t in names.values()):
        raise Unsupported("loop without a known role")
    return None


def lists(F):
    """an empty list literal as a list of lists"""
    if F.items is not None and not F.items:
        return Seq(None, 0, lambda i: Seq(None, 0, lambda j: (z3.IntVal(0), z3.IntVal(0))))
    return F


def post_faces(m, st0, st, val):
    p = m.plane
    if isinstance(val, Opaque):
        raise Unsupported("result")
    if not isinstance(val, H) or val.kind != "list" or "ghost" not in st.heap:
        return [("result is a list of faces", False)]
    R = st.heap[val.box]
    if R.items is not None:
        raise Unsupported("result")
    own, pos = st.heap["ghost"]
    u, v, f, g, i, j = (fresh(x) for x in "uvfgij")
    n = ex(R.length)
    here = lambda f, i: z3.And(f >= 0, f < n, i >= 0, i < ex(R.at(f).length))
    e, e2 = R.at(f).at(i), R.at(f).at(j)
    last = p.nxt(m, R.at(f).at(ex(R.at(f).length) - 1))
    found = [z3.And(here(a, pos(u, v)), ex(equal(R.at(a).at(pos(u, v)), (u, v)))) for a in (own(u, v), own(u, v) - 1, n - 1)]
    return [("only edges of the graph", z3.Implies(here(f, i), p.D(*map(ex, e)))),
            ("every directed edge is traversed", z3.Implies(p.D(u, v), z3.Or(*found)), mark((u, v))),
            ("no directed edge is traversed twice", z3.Implies(z3.And(here(f, i), here(g, j), ex(equal(e, R.at(g).at(j)))), z3.And(f == g, i == j))),
            ("a face follows the rotation of the embedding", z3.Implies(z3.And(here(f, i), here(f, j), j == i + 1), ex(equal(e2, p.nxt(m, e))))),
            ("a face is a closed walk", z3.Implies(z3.And(f >= 0, f < n), z3.And(ex(R.at(f).length) >= 1, ex(equal(R.at(f).at(0), last)))), mark(last))]


def call_faces(m, st, a):
    p = plane_of(st, a["graph"])
    emb = a.get("emb")
    if not (emb is None or isinstance(emb, Emb) and emb.e is p and not emb.path):
        raise Unsupported("embedding")
    return p.given(m, st)


def plane_of(st, g):
    if not isinstance(g, H) or g.kind != "graph" or "plane" not in st.heap[g.box].extra or st.heap[g.box].extra.get("tree of"):
        raise Unsupported("graph")
    return st.heap[g.box].extra["plane"]


Contract("ff_graph_theory.faces", ["C11"], ["embedding", "no embedding"], setup_faces, post_faces, loops_faces, call_faces)


@lib("networkx.check_planarity")
def _check(m, st, a, kw):
    m.assumed.add("networkx.check_planarity")
    return (True, Emb(plane_of(st, a[0])))


@lib("networkx.algorithms.planar_drawing.triangulate_embedding")
def _triangulate(m, st, a, kw):
    if not a or not isinstance(a[0], Emb) or a[0].path:
        raise Unsupported("triangulate_embedding")
    m.assumed.add("networkx triangulate_embedding")
    facts = []
    h = H("list", st.new_box())
    st.heap[h.box] = build(("list", ("int",)), [], facts, "outer")([])
    st.pc += facts
    return (Opaque(), h)


# ---------------------------------------------------------------------------------------------------------- dual graph
def spanning_tree(m, st, p):
    TE, TX, TY, tidx, nt = fun("TE", Z, Z, B), fun("tx", Z, Z), fun("ty", Z, Z), fun("tidx", Z, Z, Z), fresh("nt")
    u, v, i = fresh("u"), fresh("v"), fresh("i")
    st.pc += [nt >= 0, z3.ForAll([u, v], z3.Implies(TE(u, v), z3.And(TE(v, u), p.D(u, v))), patterns=[TE(u, v)]),
              z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nt), z3.And(TE(TX(i), TY(i)), tidx(TX(i), TY(i)) == i)), patterns=[TX(i)]),
              z3.ForAll([u, v], z3.Implies(TE(u, v), z3.And(tidx(u, v) >= 0, tidx(u, v) < nt, tidx(u, v) == tidx(v, u),
                                                             z3.Or(z3.And(TX(tidx(u, v)) == u, TY(tidx(u, v)) == v), z3.And(TX(tidx(u, v)) == v, TY(tidx(u, v)) == u)))),
                        patterns=marked((u, v), [TE(u, v)]))]
    es = Seq(None, nt, lambda k: (TX(k), TY(k)))
    es.kind, es.idx = "tree edges", tidx
    h = H("graph", st.new_box(), True)
    st.heap[h.box] = GraphV(st.heap[p.graph.box].nodes, lambda a, b: TE(ex(a), ex(b)), es, True, p.n, dict(plane=p))
    st.heap[h.box].extra["tree of"] = p
    p.TE, p.tree = TE, h
    return h


def cotree(p, st):
    """lemma about plane graphs (assumed): the edges outside a spanning tree form a tree on the faces; here: such an edge lies
    between two different faces"""
    u, v = fresh("u"), fresh("v")
    st.pc.append(z3.ForAll([u, v], z3.Implies(z3.And(p.D(u, v), z3.Not(p.TE(u, v))), p.own(u, v) != p.own(v, u)), patterns=[p.own(u, v)]))


def setup_dual(m, st, variant):
    p = m.plane = Plane(m, st)
    F = p.given(m, st)
    T = spanning_tree(m, st, p)
    cotree(p, st)
    return dict(G=p.graph, F=F, T=T)


def between(p, d):
    a, b = p.own(ex(d[0]), ex(d[1])), p.own(ex(d[1]), ex(d[0]))
    return z3.If(a <= b, a, b), z3.If(a <= b, b, a)


def loops_dual(m, s, st, changed, boxes, seq):
    p = m.plane
    names = named(st, changed, boxes)
    pairs = lambda t: t[0] in ("list",) and t[1] and (t[1] == ("fixed", (("int",), ("int",))) or t[1] == PAIR)
    if seq is p.faces or seq is not None and seq.items is None and not hasattr(seq, "kind") and ex(seq.length).eq(ex(p.faces.length)) and \
            any(k == "list" and t[0] == "list" and t[1] and t[1][0] == "list" for k, t in names.values()):
        FE = one(names, st, "list", lambda t: t[0] == "list" and t[1] and t[1][0] == "list")

        def formulas(x, g, k):
            f, i = fresh("f"), fresh("i")
            L = lists(heap(x, FE))
            e, d = L.at(f).at(i), p.faces.at(f).at(i)
            return [("one list of edges per face", ex(L.length) == k),
                    U("as many edges as the face", (f,), z3.Implies(z3.And(f >= 0, f < k), ex(L.at(f).length) == ex(p.faces.at(f).length)), ex(L.at(f).length), ex(p.faces.at(f).length)),
                    U("the edges of the face without direction", (f, i), z3.Implies(z3.And(f >= 0, f < k, i >= 0, i < ex(p.faces.at(f).length)),
                                                                                      z3.And(ex(e[0]) == lo(d), ex(e[1]) == hi(d))), ex(e[0]), ex(d[0]))]
        return Inv(formulas)
    if seq is not None and getattr(seq, "kind", "") == "edges":
        DE = one(names, st, "list", pairs)

        def formulas(x, g, k):
            L = heap(x, DE)
            j = fresh("j")
            if L.items is not None and not L.items:
                return [("one dual edge per edge", k == 0)]
            a, b = two(L.at(j))
            c, d = between(p, seq.at(j))
            return [("one dual edge per edge", ex(L.length) == k),
                    U("the dual edge joins the two faces of the edge", (j,), z3.Implies(z3.And(j >= 0, j < k), z3.And(z3.Or(z3.And(ex(a) == c, ex(b) == d), z3.And(ex(a) == d, ex(b) == c)), c >= 0, d < ex(p.faces.length))),
                      ex(a), ex(seq.at(j)[0]), marks=[seq.at(j), seq.at(j)[::-1]])]
        return Inv(formulas)
    outer = [q for q in m.stack if getattr(q[0], "kind", "") == "edges"]
    opt = [n for n, t in changed.items() if t == ("opt", ("int",))]
    if seq is not None and outer and opt:
        if len(opt) != 1 or names:
            raise Unsupported("role of a variable in a loop")
        e = outer[-1][0].at(outer[-1][1])
        c, d = between(p, e)

        def formulas(x, g, k):
            v = x.env[opt[0]]
            n, f = ("no face of the edge yet", k <= c) if v is None else ("first face of the edge", z3.And(ex(v) == c, c < k, k <= d))
            return [(n, f, lambda: f, mark(e) + mark(e[::-1]))]
        return Inv(formulas)
    if names:
        raise Unsupported("loop without a known role")
    return None


def two(x):
    if isinstance(x, tuple):
        return x
    return x.items


def lo(d):
    return z3.If(ex(d[0]) <= ex(d[1]), ex(d[0]), ex(d[1]))


def hi(d):
    return z3.If(ex(d[0]) <= ex(d[1]), ex(d[1]), ex(d[0]))


def post_dual(m, st0, st, val):
    p = m.plane
    if not isinstance(val, H) or val.kind != "graph":
        return [("result is a graph", False)]
    g = st.heap[val.box]
    es = g.es
    if es is None:
        raise Unsupported("edges of the result")
    x, u, v, k = (fresh(t) for t in "xuvk")
    nt = lambda a, b: z3.And(p.D(a, b), z3.Not(p.TE(a, b)))
    nF = ex(p.faces.length)
    out = [("vertices are the faces", ex(g.nodes(x)) == z3.And(x >= 0, x < nF))]
    idx = [f for f in [getattr(q, "idx", None) for q in m.cotree] if f is not None]
    if es.items is not None:
        out.append(("an edge for every edge outside the tree", z3.Not(nt(u, v)) if not es.items else False))
        return out
    a, b = two(es.at(k))
    hit = lambda a, b: z3.Or(z3.And(ex(a) == p.own(u, v), ex(b) == p.own(v, u)), z3.And(ex(a) == p.own(v, u), ex(b) == p.own(u, v)))
    n = ex(es.length)
    out.append(("an edge for every edge outside the tree",
                z3.Implies(nt(u, v), z3.Or(*[z3.And(f(u, v) >= 0, f(u, v) < n, hit(*two(es.at(f(u, v))))) for f in idx])) if idx else False, mark((u, v))))
    some = [z3.And(nt(*q.at(k)), z3.Or(*[z3.And(ex(a) == c, ex(b) == d) for c, d in (between(p, q.at(k)), between(p, q.at(k))[::-1])])) for q in m.cotree]
    out.append(("every edge belongs to an edge outside the tree", z3.Implies(z3.And(k >= 0, k < n), z3.Or(*some)) if some else False))
    return out


def call_dual(m, st, a):
    p = plane_of(st, a["G"])
    T = st.heap[a["T"].box] if isinstance(a["T"], H) and a["T"].kind == "graph" else None
    F = st.heap[a["F"].box] if isinstance(a["F"], H) and a["F"].kind == "list" else None
    if T is None or T.extra.get("tree of") is not p or F is not p.faces:
        raise Unsupported("arguments of dual_graph_H")
    m.assumed.add("lemma cotree")
    cotree(p, st)
    HE, hx, hy = fun("HE", Z, Z, B), fun("hx", Z, Z, Z), fun("hy", Z, Z, Z)
    u, v, f, g = (fresh(t) for t in "uvfg")
    D, TE, own = p.D, p.TE, p.own
    # every dual edge belongs to an edge (hx, hy), directed so that it lies in the first face; cotree: to one only
    st.pc += [z3.ForAll([u, v], z3.Implies(z3.And(D(u, v), z3.Not(TE(u, v))), z3.And(HE(own(u, v), own(v, u)), hx(own(u, v), own(v, u)) == u, hy(own(u, v), own(v, u)) == v)),
                        patterns=[own(u, v)]),
              z3.ForAll([f, g], z3.Implies(HE(f, g), z3.And(HE(g, f), D(hx(f, g), hy(f, g)), z3.Not(TE(hx(f, g), hy(f, g))), own(hx(f, g), hy(f, g)) == f,
                                                            own(hy(f, g), hx(f, g)) == g)), patterns=[HE(f, g)])]
    h = H("graph", st.new_box())
    nF = ex(p.faces.length)
    N = fun("N", Z, B)
    x = fresh("x")
    st.pc.append(z3.ForAll([x], N(x) == z3.And(x >= 0, x < nF), patterns=[N(x)]))
    st.heap[h.box] = GraphV(lambda y: N(ex(y)), lambda a, b: HE(ex(a), ex(b)), None, True, None, dict(dual=p))
    p.hx, p.hy = hx, hy
    return h


Contract("ff_graph_theory.dual_graph_H", ["C11"], [""], setup_dual, post_dual, loops_dual, call_dual)


# ------------------------------------------------------------------------------------------------------- pfo_algorithm
def setup_pfo(m, st, variant):
    p = m.plane = Plane(m, st, True)
    return dict(graph=p.graph)


@lib("networkx.maximum_spanning_tree", "networkx.minimum_spanning_tree")
def _mst(m, st, a, kw):
    m.assumed.add("networkx.maximum_spanning_tree")
    if len(a) != 1:
        raise Unsupported("spanning tree")
    return spanning_tree(m, st, plane_of(st, a[0]))


@lib("networkx.adjacency_matrix", "networkx.to_numpy_array")
def _adj(m, st, a, kw):
    if kw or len(a) != 1:
        raise Unsupported("adjacency matrix")
    m.assumed.add("networkx.adjacency_matrix")
    p = plane_of(st, a[0])
    w = fun("weight", Z, Z, z3.RealSort())
    h = H("mat", st.new_box())
    st.heap[h.box] = Mat(lambda i, j: w(i, j), lambda i, j: z3.RealVal(0), p.n)        # in the order of the nodes, whatever it is: no relation to D
    return h


def entries(p, M, upper):
    """entries: +1, -1 (no imaginary part) or imaginary; 0 off the edges; upper(i, j): which edges i < j are oriented"""
    i, j = fresh("i"), fresh("j")
    r = M.re(i, j)
    pat = [r] if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_UNINTERPRETED else []
    return [U("entries are signs or imaginary", (i, j), z3.And(z3.Or(r == 0, r == 1, r == -1), z3.Implies(r != 0, M.im(i, j) == 0)), *pat),
            U("nothing off the edges", (i, j), z3.Implies(z3.Not(p.D(i, j)), r == 0), *pat),
            U("which edges are oriented", (i, j), z3.Implies(z3.And(i < j, p.D(i, j)), (r != 0) == upper(i, j)), *pat, marks=[(i, j), (j, i)])]


def peel(p, x, nodes, M):
    """an edge is oriented unless both its faces are still there; completed faces are odd"""
    f = fresh("f")
    nF = ex(p.faces.length)
    N = lambda t: ex(nodes(t))
    r = entries(p, M, lambda i, j: z3.Or(p.TE(i, j), z3.Not(z3.And(N(p.own(i, j)), N(p.own(j, i))))))
    np_ = mem_pattern(SetV(nodes, None), f)
    return r + [U("completed faces are odd", (f,), z3.Implies(z3.And(f >= 0, f < nF, z3.Not(N(f))), M.odd(f)), M.odd(f) if z3.is_app(M.odd(f)) else f, *np_)]


def loops_pfo(m, s, st, changed, boxes, seq):
    p = m.plane
    names = named(st, changed, boxes)
    mats = sorted({st.env[n].box for n, (k, t) in names.items() if k == "mat"})
    graphs = sorted({st.env[n].box for n, (k, t) in names.items() if k == "graph"})
    if not mats and not graphs:
        return None
    if len(mats) != 1 or len(graphs) > 1 or p.faces is None and graphs:
        raise Unsupported("roles of a loop")
    M = mats[0]
    if not graphs:
        if getattr(seq, "kind", "") != "tree edges":
            raise Unsupported("loop over something else than the edges of the tree")
        return Inv(lambda x, g, k: entries(p, x.heap[M], lambda i, j: z3.And(p.TE(i, j), seq.idx(i, j) < k)))
    G = graphs[0]
    if "dual" not in st.heap[G].extra:
        raise Unsupported("roles of a loop")
    nF = ex(p.faces.length)
    root = nF - 1

    def common(x, g, k):
        gv = x.heap[G]
        y = fresh("y")
        return [("the last face stays", ex(gv.nodes(root))), ("the dual graph is a tree", ex(gv.tree)),
                U("vertices are faces", (y,), imp(gv.nodes(y), z3.And(y >= 0, y < nF)), *mem_pattern(node_set(gv), y))] + peel(p, x, gv.nodes, x.heap[M])
    if seq is None:
        def shrinks(h, y):
            first = [y.heap[v.box].at(0) for v in y.env.values() if isinstance(v, H) and v.kind == "list" and hasattr(y.heap[v.box], "indexof")]
            if not first:
                raise Unsupported("no list of leaves")
            return node_set(h.heap[G]), node_set(y.heap[G]), first
        return Inv(common, shrinks=shrinks)
    if not hasattr(seq, "indexof"):
        raise Unsupported("list of leaves")
    g0 = st.heap[G]

    def formulas(x, g, k):
        gv = x.heap[G]
        y = fresh("y")
        li = seq.indexof(y)
        gone = z3.And(li >= 0, li < k, ex(seq.at(li)) == y)
        return [U("the leaves so far are removed", (y,), ex(gv.nodes(y)) == z3.And(ex(g0.nodes(y)), z3.Not(gone)), *mem_pattern(node_set(gv), y), *mem_pattern(node_set(g0), y))] + common(x, g, k)
    return Inv(formulas)


def call_complete(m, st, a):
    """contract of complete_face (proved in contracts_graph.py): a face with exactly one edge without orientation becomes odd"""
    h, e = a["pfo"], a["edges"]
    if not (isinstance(h, H) and h.kind == "mat" and isinstance(e, H) and e.kind == "list") or a.get("verbose") is not False:
        raise Unsupported("complete_face")
    q, M = st.heap[e.box], st.heap[h.box]
    ps = [v.extra["dual"] for v in st.heap.values() if isinstance(v, GraphV) and "dual" in v.extra]
    gs = [v for b, v in st.heap.items() if isinstance(v, GraphV) and "dual" in v.extra]
    if q.origin is None or not ps or q.origin[0] is not ps[0].faces:
        raise Unsupported("complete_face of something else than a face")
    p, leaf = ps[0], q.origin[1]
    cands, hints = [], []
    for g in gs:
        st.pc.append(degree(g, st)(leaf) >= 0)
        nb = g.deg[1](leaf)
        d = (p.hx(leaf, nb), p.hy(leaf, nb))
        cands.append(p.pos(*d))
        hints += mark(d) + mark(d[::-1])
    i, j, f = fresh("i"), fresh("j"), fresh("f")
    L = ex(q.length)
    free = lambda k: M.re(lo(q.at(k)), hi(q.at(k))) == 0
    m.oblige(st, "complete_face/exactly one edge without orientation",
             disj(*[z3.And(c >= 0, c < L, free(c), z3.Implies(z3.And(i >= 0, i < L, free(i)), i == c)) for c in cands]), hints)
    m.oblige(st, "complete_face/entries are signs or imaginary",
             z3.Implies(z3.And(i >= 0, i < ex(M.n), j >= 0, j < ex(M.n)), z3.And(z3.Or(M.re(i, j) == 0, M.re(i, j) == 1, M.re(i, j) == -1), z3.Implies(M.re(i, j) != 0, M.im(i, j) == 0))))
    m.oblige(st, "complete_face/edges within the matrix", z3.Implies(z3.And(i >= 0, i < L), z3.And(lo(q.at(i)) >= 0, lo(q.at(i)) < hi(q.at(i)), hi(q.at(i)) < ex(M.n))))
    c = fresh("i0")
    u, v = fresh("u0"), fresh("v0")
    sgn = fresh("sign", z3.RealSort())
    st.pc += [c >= 0, c < L, free(c), u == lo(q.at(c)), v == hi(q.at(c)), z3.Or(sgn == 1, sgn == -1),
              z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < L, i != c), z3.Not(free(i))), patterns=[ex(q.at(i)[0])])]
    at = lambda x, y: z3.Or(z3.And(x == u, y == v), z3.And(x == v, y == u))
    odd = fun("odd", Z, B)
    re_ = fun("re", Z, Z, z3.RealSort())
    x, y = fresh("x"), fresh("y")
    old = M.re(x, y)
    st.pc.append(z3.ForAll([x, y], re_(x, y) == z3.If(at(x, y), sgn, old), patterns=[re_(x, y)] + ([old] if z3.is_app(old) and old.decl().kind() == z3.Z3_OP_UNINTERPRETED else [])))
    new = Mat(lambda x, y: re_(x, y), lambda x, y: z3.If(at(x, y), z3.RealVal(0), M.im(x, y)), M.n, odd)
    d = p.faces.at(f).at(i)
    nF = ex(p.faces.length)
    away = z3.And(f >= 0, f < nF, f != p.own(u, v), f != p.own(v, u))
    m.oblige(st, "complete_face/other faces keep their orientation",
             z3.Implies(z3.And(away, i >= 0, i < ex(p.faces.at(f).length)), new.re(lo(d), hi(d)) == M.re(lo(d), hi(d))))
    st.pc += [odd(leaf), z3.ForAll([f], z3.Implies(away, odd(f) == M.odd(f)), patterns=[odd(f)])]
    m.put(st, h, new)
    return h


def post_pfo(m, st0, st, val):
    p = m.plane
    if isinstance(val, Opaque):
        raise Unsupported("result")
    if not isinstance(val, H) or val.kind != "mat":
        return [("result is a matrix", False)]
    M = st.heap[val.box]
    i, j, f = fresh("i"), fresh("j"), fresh("f")
    r = M.re(i, j)
    out = [("order of the matrix", ex(M.n) == p.n), ("real", M.im(i, j) == 0),
           ("+1 or -1 at every edge", z3.Implies(z3.And(i < j, p.D(i, j)), z3.Or(r == 1, r == -1))),
           ("0 off the edges", z3.Implies(z3.Not(p.D(i, j)), r == 0))]
    if p.faces is None:
        return out + [("every face but the last is odd", False)]
    return out + [("every face but the last is odd", z3.Implies(z3.And(f >= 0, f < ex(p.faces.length) - 1), M.odd(f)))]


Contract("ff_graph_theory.pfo_algorithm", ["C11"], [""], setup_pfo, post_pfo, loops_pfo)
Contract("ff_graph_theory.complete_face", [], [], None, None, None, call_complete)


npm.TRUSTED.update({
    "networkx.check_planarity": "check_planarity(G): (planar?, embedding): for a planar graph the embedding holds exactly its edges, the rotation at a node is a cyclic order of its neighbours and belongs to a plane drawing",
    "networkx triangulate_embedding": "triangulate_embedding(emb): (an embedding, a set of outer nodes); not used by any promise",
    "networkx.maximum_spanning_tree": "maximum_spanning_tree(G): a spanning tree of a connected G: its nodes, and edges of G",
    "networkx.adjacency_matrix": "adjacency_matrix(G): a real square matrix with a row per node (nothing else is used)",
    "networkx.is_tree": "is_tree(G): connected, without cycles; such a graph with an edge has a node of degree 1, and removing a leaf leaves a tree",
    "lemma cotree": "the edges of a connected plane graph outside a spanning tree join its faces into a tree"})
