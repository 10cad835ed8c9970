"""Contracts of ff_combinatorics.py."""
from cbase import *


# ---------------------------------------------------------------------------------------------------------------- C09
def less(a, b):
    return simp(zint(a) < zint(b)) if is_int(a) and is_int(b) else cmp("<", a, b)


def inversions(p):
    """number of pairs i < j with p(i) > p(j)"""
    n = p.length
    i, j = fresh("i"), fresh("j")
    g = less(p.at(j), p.at(i))
    return opaque_int("isum", (bind(i, 0, n, bind(j, simp(i + 1), n, num(1).guard(g) if not isinstance(g, bool) else num(int(g)))),))


def sign(p):
    return simp(z3.If(inversions(p) % 2 == 0, z3.IntVal(1), z3.IntVal(-1)))


def seq(kind):
    def f(m):
        n = intvar(m, "n", 0)
        if kind == "int":
            return dict(permutation=intlist(m, "p", n))
        s = Sym("p", 1, real=True)
        return dict(permutation=m.lst(LV(None, n, lambda k: Num([Term(ONE, (), (), [Atom(s, (zint(k),))])], "f"))))
    return f


Contract("ff_combinatorics.sgn", ["C09"], {"ints": seq("int"), "floats": seq("float")}, lambda m, a: case(sign(a["permutation"])))


def as_matrix(m, A):
    return A if isinstance(A, AV) else m.av(A)


def perm_sum(n, body):
    f = N.fresh_perm()
    N.PERMN[f.name()] = zint(n)
    return N.bind_perm(f, n, num(body(PermList(None, n, lambda k: f(zint(k))))))


def half(kind_of_sign):
    def f(m, a):
        A = as_matrix(m, a["A"])
        n = A.shape[0]
        h = simp(zint(n) / 2)

        def body(p):
            k = fresh("k")
            pr = exe.prod(k, h, num(A.at(p.at(simp(2 * k)), p.at(simp(2 * k + 1)))))
            return pr * num(sign(p)) if kind_of_sign else pr
        tot = perm_sum(n, body)
        den = num(pow2(h)) * num(factorial(h))
        return [(simp(zint(n) % 2 != 0), ("return", 0)), (True, ("return", sdiv(tot, den)))]
    return f


def full(with_sign):
    def f(m, a):
        A = as_matrix(m, a["A"])
        n = A.shape[0]

        def body(p):
            k = fresh("k")
            pr = exe.prod(k, n, num(A.at(k, p.at(k))))
            return pr * num(sign(p)) if with_sign else pr
        return case(perm_sum(n, body))
    return f


def squares(m_kinds=("c", "f", "i")):
    out = {}
    for k in m_kinds:
        out[f"A:{k}"] = lambda m, k=k: (lambda n: dict(A=arr(m, "A", (n, n), k)))(intvar(m, "n", 1))

    def lst(m):
        n = intvar(m, "n", 1)
        x = arr_av("A", (n, n), "f")
        return dict(A=m.lst(LV(None, n, lambda i: LV(None, n, lambda j: x.at(zint(i), zint(j))))))
    out["list"] = lst
    return out


Contract("ff_combinatorics.pf", ["C09"], squares(), half(True))
Contract("ff_combinatorics.hf", ["C09"], squares(), half(False))
Contract("ff_combinatorics.pt", ["C09"], squares(), full(False))
Contract("ff_combinatorics.dt", ["C09"], squares(), full(True))


def spec_dt_eigen(m, a):
    A = a["A"]
    sq = simp(zint(A.shape[0]) == zint(A.shape[1]))
    k = fresh("k")
    n = A.shape[0]
    s = AV((n, n), A.kind, A.at)
    det = exe.prod(k, n, opaque("eigvals", npm.sq_lam(s), (k,)))
    return [(sq, ("return", det)), (True, ("return", None))]


def rect(m, k):
    return dict(A=arr(m, "A", (intvar(m, "r", 1), intvar(m, "s", 1)), k))


Contract("ff_combinatorics.dt_eigen", ["C09"], {f"A:{k}": (lambda m, k=k: rect(m, k)) for k in "cf"}, spec_dt_eigen)
