"""Contracts of clean, formatted_output and print_custom (ff_utils.py)."""
from cbase import *
import rng


# ---------------------------------------------------------------------------------------------------------------- C20
def digits(m, t):
    """(number of decimals, threshold) named by the argument threshold"""
    if is_int(t):
        return simp(zint(t)), num(spow(10, simp(-zint(t))))
    t = num(t)
    return simp(-zint(npm.b_round(m, [npm.slog10(t)], {}))), t


def small(x, thr):
    return simp(cmp("<", sabs(num(x)), thr))


def zeroed(x, thr):
    return ite(small(x, thr), num(0), num(x))


def spec_clean(m, a):
    obj, (nd, thr) = a["obj"], digits(m, a["threshold"])
    if isinstance(obj, LV):
        x = m.av(obj)
        if x.ndim != 1:
            return None
        r = entries_round(x, nd)
        return case(LV(None, x.shape[0], lambda k: zeroed(r.at(zint(k)), thr)))
    if isinstance(obj, AV):
        r = entries_round(obj, nd)
        if obj.kind != "c":
            return case(r)
        real = npm.b_all(m, AV(obj.shape, "b", lambda *i: small(num(obj.at(*i)).imag(), thr)))
        rr = entries_round(AV(obj.shape, "f", lambda *i: num(obj.at(*i)).real()), nd)
        return [(real, ("return", rr)), (True, ("return", AV(obj.shape, "c", lambda *i: zeroed(r.at(*i), thr))))]
    if isinstance(obj, (str, Str)):
        return None
    if is_scalar(obj):
        if kind_of(obj) == "c":
            return [(small(num(obj).imag(), thr), ("return", npm.sround(num(obj).real(), nd))), (True, ("return", npm.sround(num(obj), nd)))]
        return case(npm.sround(obj, nd))
    return [(True, ("raise", "TypeError"))]


def entries_round(x, nd):
    return AV(x.shape, x.kind, lambda *i: npm.sround(x.at(*i), nd, x.kind))


def clean_args(obj, thr):
    def f(m):
        d = dict(obj=obj(m))
        if thr == "int":
            d["threshold"] = intvar(m, "t")
        elif thr == "float":
            d["threshold"] = scalar("t", "f")
            m.pc.append(zbool(cmp(">", d["threshold"], 0)))
        elif thr is not None:
            d["threshold"] = thr
        return d
    return f


def objects():
    out = {}
    for k in "cfi":
        out[f"1-D {k}"] = lambda m, k=k: arr(m, "x", (intvar(m, "n", 0),), k)
        out[f"2-D {k}"] = lambda m, k=k: arr(m, "x", (intvar(m, "r", 0), intvar(m, "s", 0)), k)
        out[f"scalar {k}"] = lambda m, k=k: scalar("x", k) if k != "i" else intvar(m, "x")
        s = Sym("x", 1, real=k != "c")
        out[f"list {k}"] = lambda m, k=k, s=s: m.lst(LV(None, intvar(m, "n", 1), lambda j: Num([Term(ONE, (), (), [Atom(s, (zint(j),))])], k)))
    return out


Contract("ff_utils.clean", ["C20"],
         {**{f"{o},threshold {t}": clean_args(f, t) for o, f in objects().items() for t in ("int", "float")},
          **{f"{o},default": clean_args(f, None) for o, f in objects().items()},
          "None": clean_args(lambda m: None, "int"), "tuple": clean_args(lambda m: (1.5, 2.5), "int")}, spec_clean)


def fmt(x, p):
    return ("fmt", x, (".", ("fmt", p, ()), "f"))


def spec_format(m, a):
    x, p = a["obj"], a["precision"]
    if is_scalar(x):
        if kind_of(x) == "c":
            re, im = num(x).real(), num(x).imag()
            return [(cmp("<", sabs(im), num(Fr("1e-10"))), ("return", Str(parts=[fmt(re, p)]))),
                    (True, ("return", Str(parts=[fmt(re, p), " + ", fmt(im, p), "j"])))]
        return case(Str(parts=[fmt(x, p)]))
    return case(x if isinstance(x, str) else Str(parts=[("fmt", x, ("str",))]))


Contract("ff_utils.formatted_output", ["C20"],
         {**{f"scalar {k}": (lambda m, k=k: dict(obj=scalar("x", k) if k != "i" else intvar(m, "x"), precision=intvar(m, "p", 0))) for k in "cfi"},
          "scalar c,default": lambda m: dict(obj=scalar("x", "c")), "array": lambda m: dict(obj=arr(m, "x", (intvar(m, "n", 0),), "c")),
          "str": lambda m: dict(obj="text"), "None": lambda m: dict(obj=None)}, spec_format)


def post_precision(m, args, out, gamma, name):
    """numpy's print precision is what it was, also when the call fails"""
    return prove_bool(gamma, simp(zint(m.heap[rng.PRINT]) == rng.PRECISION), f"{name}/precision restored", f"print precision is left at {m.heap[rng.PRINT]}")


Contract("ff_utils.print_custom", ["C20"],
         {**{f"{o}": (lambda m, f=f: dict(obj=f(m), k=intvar(m, "k"))) for o, f in objects().items()},
          "nested list": lambda m: dict(obj=m.lst(LV(None, intvar(m, "n", 1), lambda j: arr_av("x", (3,), "c"))), k=intvar(m, "k")),
          "default": lambda m: dict(obj=arr(m, "x", (intvar(m, "n", 0),), "c")), "str": lambda m: dict(obj="text"), "None": lambda m: dict(obj=None)},
         lambda m, a: case(None), post=post_precision)
