"""Run-time contract harness: evaluates the postconditions of /verif/vc's contracts on the real code.

Bounded stand-in / replay harness.  Runs under the repository's own interpreter (/opt/venv/bin/python) against the
current working tree of the repository (VERIF_REPO, default /repo)."""
import ast
import contextlib
import io
import math
import os
import sys
import time
import traceback
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "src"))

import numpy as np  # noqa: E402

warnings.filterwarnings("ignore")


class ContractBroken(AssertionError):
    """A postcondition evaluated to false on the real code."""


def require(cond, msg, **witness):
    if not cond:
        raise ContractBroken(msg + ("" if not witness else " | " + describe(witness)))


def describe(w):
    out = []
    for k, v in w.items():
        with np.printoptions(precision=17, threshold=400, linewidth=160):
            s = repr(v)
        if len(s) > 3000:
            s = s[:3000] + "..."
        out.append(f"{k} = {s}")
    return "; ".join(out)


def close(a, b, tol=1e-8):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        with np.errstate(all="ignore"):
            return bool(np.array_equal(np.isinf(a), np.isinf(b))
                        and not np.isnan(a).any() and not np.isnan(b).any()
                        and np.all(a[np.isinf(a)] == b[np.isinf(b)])
                        and close(a[np.isfinite(a)], b[np.isfinite(b)], tol))
    scale = max(1.0, float(np.max(np.abs(b))))
    return bool(np.max(np.abs(a - b)) <= tol * scale)


def eq(name, got, want, tol=1e-8, **witness):
    if not close(got, want, tol):
        raise ContractBroken(f"{name}: result differs from the specification | "
                             + describe(dict(got=got, want=want, **witness)))


def eqw(name, got, want, slack, **witness):
    """component-wise comparison: |got - want| <= slack (an array of rounding bounds)"""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape or not np.all(np.abs(got - want) <= np.asarray(slack) * (1 + 1e-9) + 1e-290):
        raise ContractBroken(f"{name}: result differs from the specification | "
                             + describe(dict(got=got, want=want, **witness)))


def raises(exc, fn, what):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:  # noqa: BLE001
        raise ContractBroken(f"{what}: raised {type(e).__name__}: {e} instead of {exc}") from None
    raise ContractBroken(f"{what}: returned {r!r} instead of raising {exc}")


class Ctx:
    def __init__(self, seed, tier, hints=None):
        self.seed = seed
        self.deep = hints is not None       # some obligation is open: look further
        self.numbers = list(hints or ())
        self.hints = [int(x) for x in self.numbers if x == int(x)]
        self.tier = tier
        self.quick = tier == "quick"
        self.consts = mine_ints()

    def rng(self, *key):
        import zlib
        return np.random.default_rng([self.seed & 0xFFFFFFFF, zlib.crc32(repr(key).encode())])

    def sizes(self, base, hi, lo=1):
        """base sizes plus integer constants (and neighbours) mentioned in the source, capped by hi."""
        out = list(base)
        for c in sorted(self.consts) + self.hints:
            for d in (c - 1, c, c + 1):
                if lo <= d <= hi and d not in out:
                    out.append(d)
        return sorted(out)

    def mags(self, lo, hi, decades=True):
        """magnitudes in lo..hi: decades, and around the numbers in the functions whose obligations are open"""
        out = {10.0 ** k for k in range(-13, 9)} if self.deep and decades else set()
        for c in self.numbers:
            for f in (0.5, 0.9, 1, 1.1, 2):
                out.add(abs(c) * f)
        return sorted(x for x in out if lo <= x <= hi)

    def large(self, lo, hi):
        """sizes in lo..hi suggested by the functions whose obligations are open (none on a proved tree)"""
        out = set()
        for c in self.hints:
            for b in (c, c / 2, c ** 0.5, c ** 0.5 / 2, math.log2(c) if c > 1 else 0):
                for d in (-1, 0, 1, 2):
                    if lo <= int(b) + d <= hi:
                        out.add(int(b) + d)
        return sorted(out)


def mine_ints():
    out = set()
    d = os.path.join(REPO, "src", "ff")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            try:
                t = ast.parse(open(os.path.join(d, f)).read())
            except SyntaxError:
                continue
            for n in ast.walk(t):
                if isinstance(n, ast.Compare):
                    for c in ast.walk(n):
                        if isinstance(c, ast.Constant) and type(c.value) is int:
                            out.add(c.value)
    return out


def literals():
    """every number written in the code of the package (docstrings excluded): replay inputs are placed around them"""
    out = set()
    d = os.path.join(REPO, "src", "ff")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            try:
                t = ast.parse(open(os.path.join(d, f)).read())
            except SyntaxError:
                continue
            for n in ast.walk(t):
                if isinstance(n, ast.Constant) and type(n.value) in (int, float):
                    out.add(n.value)
    return out


def mine_floats():
    return {c for c in literals() if type(c) is float and 0 < c < 1} | {1e-8, 1e-5}


def epsilons():
    """small magnitudes: one per decade, and just below / above every small number written in the code"""
    out = {10.0 ** -k for k in range(2, 13)}
    for c in mine_floats():
        if c < 0.05:
            out |= {0.4 * c, 0.9 * c, 2 * c}
    return sorted(out)


def bigs(lo, hi):
    """numbers in [lo, hi] written in the code, and their neighbours"""
    out = set()
    for c in literals():
        for d in (c - 1, c, c + 1, 2 * c, c / 2):
            if lo <= d <= hi:
                out.add(d)
    return sorted(out)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def run(prop, gen, ctx, budget, only=None, max_viol=5):
    """gen yields (name, thunk[, nontrivial]); returns a report dict."""
    t0 = time.time()
    rep = dict(property=prop, seed=ctx.seed, tier=ctx.tier, evaluations=0, distinct_nontrivial=0, samples=[],
               violations=[], truncated=False)
    names = set()
    it = iter(gen(ctx))
    while True:
        if time.time() - t0 > budget and only is None:
            rep["truncated"] = True
            break
        try:
            with quiet():
                item = next(it)
        except StopIteration:
            break
        except Exception as e:  # a generator that needs the real code to build its next case
            rep["violations"].append(dict(case="generator", message=f"{type(e).__name__}: {e}",
                                          traceback=traceback.format_exc()[-3000:]))
            break
        name, thunk = item[0], item[1]
        if only is not None and name != only:
            continue
        try:
            with quiet():
                thunk()
        except ContractBroken as e:
            rep["violations"].append(dict(case=name, message=str(e), traceback=""))
        except Exception as e:  # noqa: BLE001
            rep["violations"].append(dict(case=name, message=f"unexpected {type(e).__name__}: {e}",
                                          traceback=traceback.format_exc()[-3000:]))
        rep["evaluations"] += 1
        if name not in names:
            names.add(name)
            if len(item) < 3 or item[2]:
                rep["distinct_nontrivial"] += 1
        if len(rep["samples"]) < 12 or rep["evaluations"] % 97 == 0 and len(rep["samples"]) < 30:
            rep["samples"].append(name)
        if len(rep["violations"]) >= max_viol:
            break
    rep["wall_s"] = round(time.time() - t0, 3)
    return rep
