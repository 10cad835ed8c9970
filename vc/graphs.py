"""Graphs of networkx as values: a number that identifies the graph; everything known about it are functions of that number."""
import z3

import num as N
from num import Num, num, ite, Unsupported, zint, zbool, And, Or, Not, fresh, opaque, opaque_int, Atom, Term, ONE, Sym
from val import *
import exe
import npm

Z, B = z3.IntSort(), z3.BoolSort()
NODES = z3.Function("nodes", Z, Z)                 # number of nodes / edges / connected components
EDGES = z3.Function("edges", Z, Z)
PARTS = z3.Function("parts", Z, Z)
NODE = z3.Function("node", Z, Z, Z)                # k-th node, end points of the k-th edge
EX = z3.Function("edge_x", Z, Z, Z)
EY = z3.Function("edge_y", Z, Z, Z)
PLANAR = z3.Function("planar", Z, B)
CONN = z3.Function("connected", Z, B)
PART = z3.Function("part", Z, Z, Z)                # k-th connected component as a graph
RELAB = z3.Function("relabelled", Z, Z)            # the same graph with nodes 0..n-1
WEIGHT = Sym("weight", 3, real=True)               # of an edge (1 by default), 0 for no edge
COMB = z3.Function("combination", Z, Z, Z, Z)      # itertools.combinations of length h: index of the j-th item of the c-th one
NCOMB = z3.Function("binomial", Z, Z, Z)


class GraphV(Rec):
    def __init__(self, g):
        self.g = zint(g)

    def __str__(self):
        return f"graph {self.g}"


class PartV(Rec):
    """the nodes of the k-th connected component"""

    def __init__(self, g, k):
        self.g, self.k = zint(g), zint(k)


def nat(e):
    N.add_fact(e >= 0)
    return e


def nodes(g):
    return LV(None, nat(NODES(g)), lambda k: NODE(g, zint(k)))


def edges(g):
    return LV(None, nat(EDGES(g)), lambda k: (EX(g, zint(k)), EY(g, zint(k))))


def attribute(m, v, name):
    if name == "nodes":
        return nodes(v.g)
    if name == "edges":
        return edges(v.g)
    raise Unsupported(f"attribute {name} of a graph")


def method(m, v, name, a, kw):
    if kw:
        raise Unsupported(f"graph method {name}")
    if name in ("nodes", "edges") and not a:
        return attribute(m, v, name)
    if name in ("number_of_nodes", "order", "__len__") and not a:
        return nat(NODES(v.g))
    if name in ("number_of_edges", "size") and not a:
        return nat(EDGES(v.g))
    if name == "subgraph" and len(a) == 1 and isinstance(a[0], PartV) and a[0].g.eq(v.g):
        return GraphV(PART(v.g, a[0].k))
    if name == "copy" and not a:
        return v
    raise Unsupported(f"graph method {name}")


def one(f):
    def h(m, a, kw):
        if len(a) != 1 or kw or not isinstance(a[0], GraphV):
            raise Unsupported("graph function")
        return f(a[0].g)
    return h


npm.fn("networkx.is_planar", trusted="decides planarity")(one(lambda g: PLANAR(g)))
npm.fn("networkx.is_connected", trusted="decides connectedness")(one(lambda g: CONN(g)))
npm.fn("networkx.connected_components", trusted="the connected components, each once")(
    one(lambda g: LV(None, nat(PARTS(g)), lambda k: PartV(g, k))))
npm.fn("networkx.number_of_nodes")(one(lambda g: nat(NODES(g))))


@npm.fn("networkx.convert_node_labels_to_integers", trusted="an isomorphic graph on the nodes 0..n-1")
@one
def _relabel(g):
    h = RELAB(g)
    N.add_fact(NODES(h) == NODES(g))
    return GraphV(h)


class EmbV(Rec):
    """planar embedding of a planar graph (or the certificate of a non-planar one)"""

    def __init__(self, g):
        self.g = zint(g)


npm.fn("networkx.check_planarity", trusted="(is the graph planar, embedding)")(one(lambda g: (PLANAR(g), EmbV(g))))


@npm.fn("networkx.gnm_random_graph", trusted="gnm_random_graph(n, m), n >= 0: a graph with n nodes drawn with Python's generator")
def _gnm(m, a, kw):
    import rng
    npm.only(kw, "seed")
    if len(a) != 2 or not is_int(a[0]) or not is_int(a[1]):
        raise Unsupported("gnm_random_graph")
    n, e = zint(exe.as_int(a[0])), zint(exe.as_int(a[1]))
    if not m.branch(n >= 0):
        raise Unsupported("graph with a negative number of nodes")
    sd = kw.get("seed")
    if sd is None:
        st = rng.draw(m, rng.PY, "gnm", (n, e))
    elif is_int(sd):
        st = ("seed", zint(sd))
    else:
        raise Unsupported("seed of a graph")
    g = opaque_int("gnm", (st, n, e))
    m.pc.append(NODES(g) == n)
    return GraphV(g)


class Sparse:
    def __init__(self, av):
        self.av = av


def adjacency(g):
    def el(i, j):
        i, j = zint(i), zint(j)
        a, b = z3.If(i <= j, i, j), z3.If(i <= j, j, i)
        return Num([Term(ONE, (), (), [Atom(WEIGHT, (g, a, b))])], "f")
    return AV((nat(NODES(g)), nat(NODES(g))), "f", el)


npm.fn("networkx.adjacency_matrix", trusted="the symmetric matrix of edge weights in the order of the nodes, 0 where there is no edge")(one(lambda g: Sparse(adjacency(g))))
npm.fn("networkx.to_numpy_array", trusted="the symmetric matrix of edge weights in the order of the nodes, 0 where there is no edge")(
    lambda m, a, kw: m.arr(one(adjacency)(m, a, kw).with_kind("f")))


@npm.fn("itertools.combinations", trusted="combinations(s, h): every h-element sub-sequence of s, each once")
def _combinations(m, a, kw):
    if len(a) != 2 or kw:
        raise Unsupported("combinations")
    lv = m.to_lv(a[0])
    h = zint(a[1])
    if lv.items is not None or lv.prov is not None:
        raise Unsupported("combinations of a short list")
    return LV(None, nat(NCOMB(zint(lv.length), h)), lambda c: LV(None, simp(h), lambda j: lv.at(COMB(h, zint(c), zint(j)))))


def card(lv):
    """number of different values of a sequence of integers"""
    if lv.items is not None and not lv.items:
        return 0
    if lv.items is not None or lv.prov is not None:
        raise Unsupported("size of a set")
    c = opaque_int("card", (zint(lv.length), N.Lam(1, lambda k: N.int_num(zint(lv.at(k))), (lv.length,))))
    N.add_fact(z3.And(c >= 0, c <= zint(lv.length)))
    return c


def set_method(m, v, name, a, kw):
    if name == "add" and len(a) == 1 and not kw:
        m.write(v.box, m.lcat(m.heap[v.box], LV([a[0]])))
        return None
    if name == "update" and len(a) == 1 and not kw:
        m.write(v.box, m.lcat(m.heap[v.box], m.to_lv(a[0])))
        return None
    raise Unsupported(f"set method {name}")


def new_set(m, a, kw):
    if kw or len(a) > 1:
        raise Unsupported("set")
    return SetH(m.new(m.to_lv(a[0]) if a else LV([])))
