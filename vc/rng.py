"""Random generators as ghost state.

The state of numpy's global generator is a term: START (whatever was drawn before), ("seed", s), or ("next", state, draw).
A draw is an uninterpreted function of the state and of its parameters; equal states give equal draws.  What the functions
below promise about a draw (orthogonal, sums to one, ...) is assumed of numpy / scipy."""
import z3

import num as N
from num import num, Unsupported, zint, opaque, opaque_int, Lam
from val import *
import exe
import npm
from npm import fn, getk, only

G0 = z3.Int("rng#start")         # unknown state of the global generator on entry
OS = z3.Int("rng#entropy")       # operating-system entropy
START = ("rng", G0)
PYSTART = ("rng", z3.Int("rng#python"))     # Python's own generator (module random), box -2
PY = -2
GLOBAL = 0
PRINT = -1                       # box of the ghost print options
PRECISION = z3.Int("print#precision")


class Gen:
    """numpy Generator / RandomState object"""

    def __init__(self, box):
        self.box = box


def seeded(m, s):
    if s is None:
        return ("rng", OS)
    if is_int(s):
        if not m.branch(z3.And(zint(s) >= 0, zint(s) < 2 ** 32)):
            raise exe.Raised("ValueError")
        return ("seed", zint(s))
    if isinstance(s, N.Num):
        return ("seed", s)
    raise Unsupported("seed")


def root(st):
    while st[0] == "next":
        st = st[1]
    return st


def draw(m, box, dist, params):
    """state before the draw; advances the state"""
    st = m.heap[box]
    if not isinstance(st, tuple):
        raise Unsupported("random state after a loop")
    m.write(box, ("next", st, dist, tuple(params)))
    return st


def box_of(m, rs):
    """generator selected by a random_state argument"""
    if rs is None:
        return GLOBAL
    if isinstance(rs, Gen):
        return rs.box
    if isinstance(rs, ModRef) and rs.name in ("numpy.random", "numpy.random.mtrand._rand"):
        return GLOBAL
    if is_int(rs):
        return m.new(seeded(m, rs))
    raise Unsupported("random_state")


def normal(m, box, shape, dist="normal", extra=(), **kw):
    st = draw(m, box, dist, tuple(zint(d) for d in shape) + tuple(extra))
    key = (st,) + tuple(zint(d) for d in shape) + tuple(extra)
    if not shape:
        return opaque("rng." + dist, key, real=True, **kw)
    return m.arr(AV(shape, "f", lambda *i: opaque("rng." + dist, key, i, real=True, **kw)))


def shape_of(m, s):
    if s is None:
        return ()
    return npm.shape_of(m, s)


@fn("numpy.random.seed", trusted="random.seed(s): restarts the global generator at a point that is a function of s")
def _seed(m, a, kw):
    only(kw, "seed")
    s = getk(a, kw, 0, "seed")
    m.write(GLOBAL, seeded(m, s))
    return None


@fn("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", trusted="default_rng(s) / RandomState(s): a generator whose draws are a function of s")
def _gen(m, a, kw):
    only(kw, "seed")
    s = getk(a, kw, 0, "seed")
    if isinstance(s, Gen):
        return s
    return Gen(m.new(seeded(m, s)))


@fn("numpy.random.get_state")
def _get(m, a, kw):
    return Gen(m.new(m.heap[GLOBAL]))


@fn("numpy.random.set_state")
def _set(m, a, kw):
    if not isinstance(a[0], Gen):
        raise Unsupported("set_state")
    m.write(GLOBAL, m.heap[a[0].box])
    return None


@fn("numpy.get_printoptions", trusted="get_printoptions()['precision'] is the current print precision; set_printoptions(precision=p) sets it")
def _getp(m, a, kw):
    only(kw)
    return exe.DictV({"precision": m.heap[PRINT]})


@fn("numpy.set_printoptions", trusted="get_printoptions()['precision'] is the current print precision; set_printoptions(precision=p) sets it")
def _setp(m, a, kw):
    p = getk(a, kw, 0, "precision")
    if p is not None:
        m.write(PRINT, exe.as_int(p))
    return None


@fn("random.seed", trusted="random.seed(s): restarts Python's generator at a point that is a function of s")
def _pyseed(m, a, kw):
    only(kw, "a")
    s = getk(a, kw, 0, "a")
    if s is not None and not is_int(s):
        raise Unsupported("seed")
    m.write(PY, ("rng", OS) if s is None else ("seed", zint(s)))
    return None


@fn("random.randint", trusted="random.randint(lo, hi): an integer in [lo, hi], ValueError if there is none")
def _pyrandint(m, a, kw):
    only(kw, "a", "b")
    lo, hi = zint(exe.as_int(getk(a, kw, 0, "a"))), zint(exe.as_int(getk(a, kw, 1, "b")))
    if not m.branch(lo <= hi):
        raise exe.Raised("ValueError")
    st = draw(m, PY, "randint", (lo, hi))
    r = opaque_int("py.randint", (st, lo, hi))
    m.pc.append(z3.And(r >= lo, r <= hi))
    return r


@fn("random.randrange", "random.getrandbits", trusted="random.randrange(lo, hi): an integer in [lo, hi); random.getrandbits(k): an integer in [0, 2^k)")
def _pyrandrange(m, a, kw, bits=False):
    only(kw)
    if len(a) not in (1, 2):
        raise Unsupported("randrange")
    lo, hi = (0, a[0]) if len(a) == 1 else a
    lo, hi = zint(exe.as_int(lo)), zint(exe.as_int(hi))
    if bits:
        hi = pow2(hi)
    if not m.branch(lo < hi):
        raise exe.Raised("ValueError")
    st = draw(m, PY, "randint", (lo, hi - 1))
    r = opaque_int("py.randint", (st, lo, hi - 1))
    m.pc.append(z3.And(r >= lo, r < hi))
    return r


npm.FUNCS["random.getrandbits"] = lambda m, a, kw: _pyrandrange(m, a, kw, True)

T = "draws: functions of the generator state and the parameters"


def pyreal(name, names, nonneg):
    def f(m, a, kw):
        only(kw, *names)
        par = [getk(a, kw, i, x, None) for i, x in enumerate(names)]
        st = draw(m, PY, name, tuple(num(x) for x in par if x is not None))
        return opaque("py." + name, (st,) + tuple(num(x) for x in par if x is not None), real=True, nonneg=nonneg)
    npm.FUNCS["random." + name] = f
    npm.TRUSTED["random." + name] = f"random.{name}: a real number; " + T


for _nm, _par, _nn in (("random", (), True), ("uniform", ("a", "b"), False), ("gauss", ("mu", "sigma"), False), ("normalvariate", ("mu", "sigma"), False),
                       ("expovariate", ("lambd",), False), ("betavariate", ("alpha", "beta"), True), ("triangular", ("low", "high", "mode"), False)):
    pyreal(_nm, _par, _nn)


def clock(name, integer):
    def f(m, a, kw):
        only(kw)
        t = z3.Int(f"clock#{len(CLOCK)}")
        CLOCK.append(t)
        if integer:
            m.pc.append(t >= 0)
            return t
        return opaque("clock", (("rng", t),), real=True, nonneg=True)
    npm.FUNCS[name] = f
    npm.TRUSTED[name] = f"{name}: a number that no argument determines"


CLOCK = []
for _nm in ("time.time", "time.perf_counter", "time.monotonic", "time.process_time"):
    clock(_nm, False)
for _nm in ("time.time_ns", "time.perf_counter_ns", "time.monotonic_ns", "os.getpid", "threading.get_ident"):
    clock(_nm, True)


@fn("numpy.random.randn", trusted=T)
def _randn(m, a, kw, box=GLOBAL):
    only(kw)
    return normal(m, box, tuple(exe.as_int(x) for x in a))


@fn("numpy.random.rand", "numpy.random.random", "numpy.random.random_sample", trusted=T)
def _rand(m, a, kw, box=GLOBAL):
    only(kw, "size")
    return normal(m, box, tuple(exe.as_int(x) for x in a), "uniform", nonneg=True)


@fn("numpy.random.standard_normal", trusted=T)
def _sn(m, a, kw, box=GLOBAL):
    only(kw, "size")
    return normal(m, box, shape_of(m, getk(a, kw, 0, "size")))


@fn("numpy.random.normal", trusted=T)
def _normal(m, a, kw, box=GLOBAL):
    only(kw, "loc", "scale", "size")
    return normal(m, box, shape_of(m, getk(a, kw, 2, "size")), "normal", (num(getk(a, kw, 0, "loc", 0.0)), num(getk(a, kw, 1, "scale", 1.0))))


@fn("numpy.random.uniform", trusted=T)
def _uniform(m, a, kw, box=GLOBAL):
    only(kw, "low", "high", "size")
    return normal(m, box, shape_of(m, getk(a, kw, 2, "size")), "uniform", (num(getk(a, kw, 0, "low", 0.0)), num(getk(a, kw, 1, "high", 1.0))))


@fn("numpy.random.exponential", trusted="random.exponential: non-negative; " + T)
def _exp(m, a, kw, box=GLOBAL):
    only(kw, "scale", "size")
    return normal(m, box, shape_of(m, getk(a, kw, 1, "size")), "exponential", (num(getk(a, kw, 0, "scale", 1.0)),), nonneg=True)


@fn("numpy.random.dirichlet", trusted="random.dirichlet(alpha): a vector of len(alpha) non-negative numbers with sum one; " + T)
def _dir(m, a, kw, box=GLOBAL):
    only(kw)
    al = m.av(a[0])
    n = al.shape[0]
    st = draw(m, box, "dirichlet", (zint(n), al.lam()))
    key = (zint(n), st, al.lam())
    r = AV((n,), "f", lambda i: opaque("rng.dirichlet", key, (i,), real=True, nonneg=True, attrs={"sum1": n}))
    return m.arr(r)


@fn("numpy.random.randint", "numpy.random.integers", trusted="random.randint(lo, hi): an integer in [lo, hi); " + T)
def _randint(m, a, kw, box=GLOBAL):
    only(kw, "low", "high")
    lo, hi = getk(a, kw, 0, "low"), getk(a, kw, 1, "high")
    if hi is None:
        lo, hi = 0, lo
    lo, hi = zint(exe.as_int(lo)), zint(exe.as_int(hi))
    if not m.branch(lo < hi):
        raise exe.Raised("ValueError")
    st = draw(m, box, "randint", (lo, hi))
    r = opaque_int("rng.randint", (st, lo, hi))
    m.pc.append(z3.And(r >= lo, r < hi))
    return r


@fn("numpy.random.choice", trusted="random.choice(n, size=k, replace=False): k distinct integers in 0 .. n-1; " + T)
def _choice(m, a, kw, box=GLOBAL):
    only(kw, "size", "replace", "a")
    n, k = getk(a, kw, 0, "a"), getk(a, kw, 1, "size")
    if not is_int(n) or k is None or isinstance(k, (tuple, exe.Lst)) or getk(a, kw, 2, "replace", True) not in (True, False):
        raise Unsupported("choice")
    replace = getk(a, kw, 2, "replace", True)
    n, k = zint(exe.as_int(n)), zint(exe.as_int(k))
    if not m.branch(k >= 0):
        raise exe.Raised("ValueError")
    if not m.branch(n >= 1 if replace else k <= n):
        raise exe.Raised("ValueError")
    st = draw(m, box, "choice", (n, k, int(replace)))
    c = npm.family(1, lambda i: opaque_int("rng.choice", (st, n, k, int(replace), zint(i))))
    i, j = npm.fresh("i"), npm.fresh("j")
    m.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), z3.And(c(i) >= 0, c(i) < n))))
    if not replace:
        m.pc.append(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < k, j >= 0, j < k, i != j), c(i) != c(j))))
    return m.arr(AV((k,), "i", c))


@fn("numpy.random.permutation", trusted="random.permutation(n): a permutation of 0 .. n-1; " + T)
def _permutation(m, a, kw, box=GLOBAL):
    only(kw)
    n = a[0]
    if not is_int(n):
        raise Unsupported("permutation")
    return _choice(m, [n], {"size": n, "replace": False}, box)


def group(name, real):
    def rvs(m, a, kw):
        only(kw, "dim", "size", "random_state")
        if kw.get("size") not in (None, 1) or len(a) > 1 or a and "dim" in kw:
            raise Unsupported("rvs arguments")
        d = exe.as_int(getk(a, kw, 0, "dim"))
        if not m.branch(zint(d) >= (2 if real else 1)):
            raise Unsupported("dimension of a random rotation")
        box = box_of(m, kw.get("random_state"))
        st = draw(m, box, name, (zint(d),))
        key = (zint(d), st)
        return m.arr(AV((d, d), "f" if real else "c", lambda i, j: opaque("rng." + name, key, (i, j), real=real, attrs={"unitary": d}), tags={"unitary"}))
    return rvs


for nm, real in (("special_ortho_group", True), ("ortho_group", True), ("unitary_group", False)):
    npm.FUNCS[f"scipy.stats.{nm}.rvs"] = group(nm, real)
    npm.TRUSTED[f"scipy.stats.{nm}.rvs"] = f"{nm}.rvs(dim): {'a real orthogonal' if real else 'a unitary'} dim x dim matrix (determinant not modelled), a function of the generator state"


METHODS = dict(randn=_randn, rand=_rand, random=_rand, standard_normal=_sn, normal=_normal, uniform=_uniform, exponential=_exp, dirichlet=_dir, randint=_randint, integers=_randint,
               random_sample=_rand)


def method(m, v, name, a, kw):
    f = METHODS.get(name)
    if f is None:
        raise Unsupported(f"method {name} of a random generator")
    return f(m, a, kw, box=v.box)


# --------------------------------------------------------------------------------------------------------------- stim
class Tableau(Rec):
    def __init__(self, n, st):
        self.n, self.st = zint(n), st


ENTROPY = 0


@fn("stim.Tableau.random", trusted="Tableau.random(n), n >= 0: a Clifford tableau on n qubits; draws do not touch numpy's generator")
def _tableau(m, a, kw):
    only(kw)
    if len(a) != 1 or not is_int(a[0]):
        raise Unsupported("stim.Tableau.random")
    if not m.branch(zint(a[0]) >= 0):
        raise exe.Raised("ValueError")
    return Tableau(exe.as_int(a[0]), N.fresh("stim"))


@fn("stim.Tableau.to_state_vector", trusted="to_state_vector(): a 1-D array of 2^n complex numbers with norm one")
def _state_vector(m, a, kw):
    only(kw)
    if len(a) != 1 or not isinstance(a[0], Tableau):
        raise Unsupported("to_state_vector")
    d = pow2(a[0].n)
    key = (zint(d), a[0].n, a[0].st)               # a unit vector is a column of some unitary
    return m.arr(AV((d,), "c", lambda i: opaque("stim.state", key, (i, z3.IntVal(0)), attrs={"unitary": d})))
