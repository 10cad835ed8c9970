"""Contracts of ff_graph_theory.py."""
from cbase import *


# ---------------------------------------------------------------------------------------------------------------- C11
ASG = z3.Function("asg", z3.IntSort(), z3.IntSort(), z3.BoolSort())     # is the edge oriented?
NEG = z3.Function("neg", z3.IntSort(), z3.IntSort(), z3.BoolSort())     # orientation of an oriented edge is -1
EA = z3.Function("ea", z3.IntSort(), z3.IntSort())
EB = z3.Function("eb", z3.IntSort(), z3.IntSort())


def orientation(n):
    """orientation matrix: 1 or -1 where an edge is oriented, any imaginary number elsewhere"""
    w = Sym("w", 2, real=True)

    def el(i, j):
        i, j = zint(i), zint(j)
        mark = Num([Term(GQ(0, 1), (), (), [Atom(w, (i, j))])], "c")
        return ite(ASG(i, j), ite(NEG(i, j), num(-1), num(1)), mark).with_kind("c")
    return AV((n, n), "c", el)


def face(m, hyp):
    n, L, k0 = intvar(m, "n", 1), intvar(m, "L", 1), intvar(m, "k0", 0)
    k = z3.Int("k")
    m.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < L), z3.And(EA(k) >= 0, EA(k) < n, EB(k) >= 0, EB(k) < n, EA(k) != EB(k)))))
    free = lambda k: z3.Not(ASG(lo(k), hi(k)))
    if hyp == "one":
        m.pc += [k0 < L, free(k0), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < L, k != k0), z3.Not(free(k))))]
    elif hyp == "none":
        m.pc += [z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < L), z3.Not(free(k))))]
    pfo = m.arr(orientation(n))
    m.pfo, m.face = pfo, (n, L, k0)
    return dict(pfo=pfo, edges=m.lst(LV(None, L, lambda k: (EA(zint(k)), EB(zint(k))))))


def lo(k):
    return z3.If(EA(k) < EB(k), EA(k), EB(k))


def hi(k):
    return z3.If(EA(k) < EB(k), EB(k), EA(k))


def direction(k):
    return ite(EA(k) > EB(k), num(-1), num(1))


def spec_complete_face(m, fro, out, gamma, name):
    """with exactly one edge without orientation: it gets, in both directions of the matrix, the value that makes the product of
    direction * orientation over the face -1, i.e. the number of edges against the direction of the face odd; nothing else changes"""
    n, L, k0 = m.face
    kind, val = out
    if kind != "return":
        return [Ob(name + "/returns", "refuted", f"{kind} {val}")]
    A = fro["pfo"]
    new = m.read(m.pfo)
    k = fresh("k")
    u, v = lo(k), hi(k)
    s = exe.prod(k, L, ite(ASG(u, v), ite(NEG(u, v), num(-1), num(1)) * direction(k), num(1)).with_kind("c"))
    obs = val_eq(val, new, gamma, name + "/result is the matrix")
    i, j = fresh("i"), fresh("j")
    g = list(gamma) + [i >= 0, i < n, j >= 0, j < n]
    here = z3.Or(z3.And(i == lo(k0), j == hi(k0)), z3.And(i == hi(k0), j == lo(k0)))
    obs += prove_num(g + [z3.Not(here)], new.at(i, j), A.at(i, j), name + "/other entries unchanged")
    sr = N.to_real(s)
    obs += prove_bool(g, simp(z3.Or(sr == 1, sr == -1)), name + "/the other edges of the face have a sign")
    for x in (1, -1):
        obs += prove_num(g + [here, sr == x], new.at(i, j) * direction(k0), num(-x), f"{name}/odd face if the other edges have sign {x}")
    return obs


def spec_full_face(m, fro, out, gamma, name):
    """without an edge lacking an orientation nothing changes"""
    if out[0] not in ("return", "normal"):
        return [Ob(name + "/returns", "refuted", f"{out[0]} {out[1]}")]
    n = m.face[0]
    i, j = fresh("i"), fresh("j")
    g = list(gamma) + [i >= 0, i < n, j >= 0, j < n]
    obs = prove_num(g, m.read(m.pfo).at(i, j), fro["pfo"].at(i, j), name + "/matrix unchanged")
    return obs + (val_eq(out[1], m.read(m.pfo), gamma, name + "/result is the matrix") if out[1] is not None else [])


Contract("ff_graph_theory.complete_face", ["C11"], {"one": lambda m: face(m, "one"), "none": lambda m: face(m, "none"),
                                                       "one,verbose": lambda m: dict(face(m, "one"), verbose=True), "none,verbose": lambda m: dict(face(m, "none"), verbose=True)},
         post=lambda m, fro, out, gamma, name: (spec_full_face if "[none" in name else spec_complete_face)(m, fro, out, gamma, name))


# ---------------------------------------------------------------------------------------------------------------- C10
import graphs as G                                                   # noqa: E402
from contracts_text import spec_clean                          # noqa: E402
from contracts_comb import spec_dt_eigen                             # noqa: E402


def graph(m):
    g = z3.Int("G")
    m.pc.append(G.NODES(g) >= 0)
    return dict(graph=G.GraphV(g))


def small(m):
    """brute force is documented for graphs of at most 15 nodes"""
    a = graph(m)
    m.pc.append(z3.Or(G.NODES(a["graph"].g) <= 15, G.NODES(a["graph"].g) % 2 == 1))
    return a


def planar_or_small(m):
    a = graph(m)
    g = a["graph"].g
    m.pc.append(z3.Or(G.PLANAR(g), G.NODES(g) <= 15, G.NODES(g) % 2 == 1))
    return a


def matchings(g):
    """the sets of n/2 edges whose end points are n different nodes, each once"""
    n, h = G.NODES(g), simp(G.NODES(g) / 2)
    e = G.edges(g)
    c = fresh("c")

    def comb(c):
        return LV(None, h, lambda j: e.at(G.COMB(zint(h), zint(c), zint(j))))

    def ends(c):
        x = comb(c)
        return LV(None, simp(2 * zint(h)), lambda k: simp(z3.If(zint(k) % 2 == 0, zint(x.at(simp(zint(k) / 2))[0]), zint(x.at(simp(zint(k) / 2))[1]))))
    cover = simp(zint(G.card(ends(c))) == n)
    return Piece(((c, G.NCOMB(zint(e.length), zint(h)), False),), cover, comb(c)).lv()


def spec_brute(m, a):
    g = a["graph"].g
    n = G.NODES(g)
    return [(simp(n % 2 != 0), ("return", LV([]))), (simp(n <= 15), ("return", matchings(g)))]


Contract("ff_graph_theory.find_perfect_matchings_brute", ["C10"], {"": small}, spec_brute)


COUNT = Sym("number of perfect matchings of", 1, real=True)           # of a planar graph


def count(g):
    return Num([Term(ONE, (), (), [Atom(COUNT, (zint(g),))])], "f")


def pfo(g):
    return AV((G.NODES(g), G.NODES(g)), "f", lambda i, j: Num([Term(ONE, (), (), [Atom(PFO, (zint(g), zint(i), zint(j)))])], "f"))


PFO = Sym("orientation", 3, real=True)
# its promise (every inner face odd) is the contract in contracts_faces.py, discharged by check C11
Contract("ff_graph_theory.pfo_algorithm", [], {}, lambda m, a: case(pfo(a["graph"].g)))


def skew(g):
    """upper triangle: orientation times adjacency; lower triangle: minus that; diagonal 0"""
    n, O, A = G.NODES(g), pfo(g), G.adjacency(g)

    def el(i, j):
        up, dn = num(O.at(i, j)) * num(A.at(i, j)), num(O.at(j, i)) * num(A.at(j, i))
        return up.guard(simp(zint(j) - zint(i) >= 0)) - dn.guard(simp(zint(i) - zint(j) >= 0))        # 0 if i = j
    return AV((n, n), "f", el)


def spec_planar(m, a):
    g = a["graph"].g
    n, c = G.NODES(g), G.PARTS(g)
    h = G.RELAB(g)
    N.add_fact(G.NODES(h) == G.NODES(g))
    k = fresh("k")
    det = spec_dt_eigen(m, dict(A=skew(h)))[0][1][1]
    root = spec_clean(m, dict(obj=ssqrt(det), threshold=10))
    return [(simp(Not(G.PLANAR(g))), ("raise", "AssertionError")), (simp(n == 0), ("return", 0)), (simp(n % 2 != 0), ("return", num(0))),
            (simp(Not(G.CONN(g))), ("return", exe.prod(k, c, count(G.PART(g, k)))))] + \
           [(simp(x), y) for x, y in root]


def call_planar(m, a):
    g = a["graph"].g
    return [(simp(Not(G.PLANAR(g))), ("raise", "AssertionError")), (True, ("return", count(g)))]


def comp_planar(m):
    a = graph(m)
    g, k = a["graph"].g, z3.Int("k")
    m.pc.append(z3.Implies(G.PLANAR(g), z3.ForAll([k], G.PLANAR(G.PART(g, k)))))       # parts of planar graphs are planar
    return a


Contract("ff_graph_theory.count_perfect_matchings_planar", ["C10"], {"": comp_planar}, spec_planar, call=call_planar)


def spec_count(m, a):
    g = a["graph"].g
    n = G.NODES(g)
    return [(simp(G.PLANAR(g)), ("return", count(g))), (simp(n % 2 != 0), ("return", 0)), (simp(n <= 15), ("return", matchings(g).length))]


Contract("ff_graph_theory.count_perfect_matchings", ["C10"], {"": planar_or_small}, spec_count)


# ---------------------------------------------------------------------------------------------------------------- C17
def random_planar(sd):
    def mk(m):
        n = z3.Int("n")
        m.pc.append(n >= 2)
        d = dict(n=n)
        if sd:
            d["seed"] = z3.Int("seed")
        return d
    return mk


def spec_random_planar(m, fro, out, gamma, name):
    """None or a connected planar graph with n nodes"""
    kind, val = out
    if kind == "raise":
        return prove_bool(gamma, False, f"{name}/raises", f"raises {val}")
    if val is None:
        return [Ob(f"{name}/None", "proved")]
    if not isinstance(val, G.GraphV):
        return [Ob(f"{name}/graph", "refuted", f"returns {desc(val)}")]
    g = val.g
    return [o for what, c in (("nodes", G.NODES(g) == fro["n"]), ("planar", G.PLANAR(g)), ("connected", G.CONN(g)))
            for o in prove_bool(gamma, simp(c), f"{name}/{what}", f"a returned graph need not be {what}")]


Contract("ff_graph_theory.generate_random_planar_graph", ["C17"], {"no seed": random_planar(False), "seed": random_planar(True)}, post=spec_random_planar)
