"""Symbolic executor: runs the functions of /repo/src/ff (parsed from their source at every run) on symbolic arguments,
path by path; loops are summarised for an arbitrary number of iterations, calls use the callee's contract or its body."""
import ast
import os

import z3

import num as N
from num import (Num, num, ite, Unsupported, zint, zbool, And, Or, Not, fresh, fresh_perm, opaque, opaque_int, valid, unsat, cmp,
                 kmax, bind, bind_perm, Sum, Lam, Sym, Atom, Term, ONE, GQ, occurs, int_num, pred)
from val import *

SRC = os.environ.get("VERIF_REPO", "/repo") + "/src/ff"
UNROLL = 8


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Raised(Exception):
    def __init__(self, typ, msg=""):
        self.typ, self.msg = typ, msg


class NeedBox(Exception):
    def __init__(self, box):
        self.box = box


class NeedRebind(Exception):
    pass


class Explorer:
    def __init__(self, prefix):
        self.prefix, self.pos, self.pending = list(prefix), 0, []


BUILTIN_EXC = {"ValueError", "TypeError", "AssertionError", "IndexError", "KeyError", "ZeroDivisionError", "RuntimeError",
               "NotImplementedError", "Exception", "OverflowError", "AttributeError", "UFuncTypeError"}


class Module:
    def __init__(self, name):
        self.name = name
        path = os.path.join(SRC, name + ".py")
        self.tree = ast.parse(open(path).read())
        self.funcs, self.globals = {}, {}
        for n in self.tree.body:
            self.load(n)
        for x in mutated_globals(self.tree):
            if isinstance(self.globals.get(x), tuple) and self.globals[x][0] in ("expr", "mutable"):
                self.globals[x] = ("mutable", x)

    def load(self, n):
        if isinstance(n, ast.FunctionDef):
            if n.decorator_list:
                self.globals[n.name] = ("mutable", n.name)
                return
            self.funcs[n.name] = n
            self.globals[n.name] = Func(n.name, n, None, self)
        elif isinstance(n, ast.Import):
            for a in n.names:
                self.globals[a.asname or a.name.split(".")[0]] = ModRef(a.name if a.asname else a.name.split(".")[0])
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                if n.level:
                    self.globals[a.asname or a.name] = ("ff", (n.module or "__init__"), a.name)
                else:
                    self.globals[a.asname or a.name] = ModRef(n.module + "." + a.name)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            self.globals[n.targets[0].id] = ("expr", n.value)
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            self.globals[n.target.id] = ("expr", n.value)
        elif not isinstance(n, (ast.Expr, ast.ClassDef)) and not is_main_guard(n):
            for x in ast.walk(n):          # names bound by other top-level code have no value the verifier knows
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    self.globals[x.id] = ("mutable", x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    self.globals[x.name] = ("mutable", x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    for a in x.names:
                        self.globals[(a.asname or a.name).split(".")[0]] = ("mutable", a.name)


def is_main_guard(n):
    return isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == "__name__"


MUTATORS = {"append", "extend", "insert", "update", "setdefault", "pop", "popitem", "clear", "add", "remove", "discard", "sort", "reverse", "fill", "put", "resize"}


def mutated_globals(tree):
    """module-level names that some code of the module rebinds or mutates (caches and the like)"""
    out = set()
    for x in ast.walk(tree):
        if isinstance(x, ast.Global):
            out |= set(x.names)
        elif isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
            b = x.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                out.add(b.id)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and isinstance(x.func.value, ast.Name):
            out.add(x.func.value.id)
        elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
            pass
    return out


_mods = {}


def module(name):
    if name not in _mods:
        _mods[name] = Module(name)
    return _mods[name]


class Machine:
    def __init__(self, contracts=None, inline_only=()):
        import rng
        # box 0: ghost state of numpy's global random generator; box -1: numpy's print precision
        self.heap = {0: rng.START, -1: rng.PRECISION, -2: rng.PYSTART}
        self.rng_loop = False      # a random generator was used in a loop
        self.nbox = 0
        self.owner = {}             # box -> parameter name
        self.pc = []
        self.explorers = []
        self.guardboxes = []        # stack of (limit box id, allowed set): writes to other old boxes raise NeedBox
        self.contracts = contracts or {}
        self.used = set()           # contracts relied upon
        self.assumed = set()        # external contracts
        self.inlined = set()
        self.frame = []             # frame violations
        self.side = []              # side obligations discharged or not: (name, status)
        self.depth = 0
        self.loops = 0
        self.current = "?"
        self.ro, self.snap = set(), set()      # boxes that are copies of views of other boxes / boxes with such copies
        self.ghost = {}             # specification values named by a precondition

    # ------------------------------------------------------------------------------------------------ heap
    def new(self, v):
        self.nbox += 1
        self.heap[self.nbox] = v
        return self.nbox

    def arr(self, av):
        return Arr(self.new(av))

    def lst(self, lv):
        return Lst(self.new(lv))

    def read(self, h):
        if isinstance(h, (Arr, Lst)) and isinstance(self.heap[h.box], Poison):
            raise Unsupported(self.heap[h.box].why)
        if isinstance(h, Arr):
            base = self.heap[h.box]
            if h.vmap is None:
                return base
            vm = h.vmap
            return AV(h.vshape, base.kind, lambda *i: base.at(*vm(*i)))
        if isinstance(h, Lst):
            return self.heap[h.box]
        return h

    def viewof(self, h, av):
        """a numpy view modelled by a copy: neither side may be written afterwards"""
        r = self.arr(av)
        self.ro.add(r.box)
        self.snap.add(h.box)
        return r

    def write(self, box, v):
        if box in self.owner and (box in self.ro or box in self.snap):
            self.frame.append((self.owner[box], list(self.pc)))
        if box in self.ro or box in self.snap:
            raise Unsupported("write to an array that has views")
        for limit, allowed in self.guardboxes:
            if box <= limit and box not in allowed:
                raise NeedBox(box)
        if box in self.owner:
            self.frame.append((self.owner[box], list(self.pc)))
        self.heap[box] = v

    def freeze(self, v):
        """immutable value (deep)"""
        if isinstance(v, Arr):
            return self.read(v)
        if isinstance(v, Lst):
            return self.freeze(self.heap[v.box])
        if isinstance(v, LV):
            if v.items is not None:
                return type(v)([self.freeze(x) for x in v.items])
            if v.prov is not None and v.prov[0] in ("cat", "fcat", "filter"):
                return v
            h = dict(self.heap)
            return v
        if isinstance(v, tuple):
            return tuple(self.freeze(x) for x in v)
        return v

    def thaw(self, v):
        if isinstance(v, AV):
            return self.arr(v)
        if isinstance(v, LV) and not isinstance(v, PermList):
            if v.items is not None:
                v = LV([self.thaw(x) for x in v.items])
            return self.lst(v)
        if isinstance(v, tuple):
            return tuple(self.thaw(x) for x in v)
        return v

    def av(self, v):
        """array value of an array-like"""
        if isinstance(v, AV):
            return v
        if isinstance(v, Arr):
            return self.read(v)
        if isinstance(v, Lst):
            return self.av(self.heap[v.box])
        if isinstance(v, tuple):
            return self.av(LV(list(v)))
        if isinstance(v, Rng):
            return AV((v.length(),), "i", lambda i: int_num(zint(v.at(i))))
        if isinstance(v, LV):
            if v.items is not None:
                if not v.items:
                    return AV((0,), "f", lambda i: num(0))
                its = [x if is_scalar(x) else self.av(x) for x in v.items]
                if all(is_scalar(x) for x in its):
                    k = kmax(*[kind_of(x) for x in its])
                    return AV((len(its),), k, lambda i: sel(i, its))
                if all(isinstance(x, AV) for x in its):
                    sh = its[0].shape
                    for x in its:
                        if len(x.shape) != len(sh) or not all(self.same_dim(p, q) for p, q in zip(x.shape, sh)):
                            raise Unsupported("ragged nested list")
                    k = kmax(*[x.kind for x in its])
                    return AV((len(its),) + sh, k, lambda i, *r: sel(i, [num(x.at(*r)) for x in its]))
                raise Unsupported("nested list")
            if piece_of(v) is not None:
                if not is_scalar(v.prov[1].value):
                    raise Unsupported("array of filtered items")
                return piece_av(v.prov[1])
            x = v.at(fresh("probe"))
            x = self.freeze(x)
            if is_scalar(x):
                return AV((v.length,), kind_of(x), lambda i: v.at(i))
            if isinstance(x, (AV, LV)):
                y = self.av(x)
                return AV((v.length,) + y.shape, y.kind, lambda i, *r: self.av(self.freeze(v.at(i))).at(*r))
        raise Unsupported(f"array-like {type(v).__name__}")

    def same_dim(self, p, q):
        return same(p, q) or valid(self.pc, zint(p) == zint(q))

    # ------------------------------------------------------------------------------------------------ branching
    def branch(self, c):
        c = simp(c)
        if isinstance(c, bool):
            return c
        if valid(self.pc, c):
            return True
        if valid(self.pc, z3.Not(c)):
            return False
        if not self.explorers:
            raise Unsupported("branch outside exploration")
        ex = self.explorers[-1]
        if ex.pos < len(ex.prefix):
            d = ex.prefix[ex.pos]
        else:
            d = True
            ex.pending.append(ex.prefix + [False])
            ex.prefix.append(True)
        ex.pos += 1
        self.pc.append(c if d else simp(z3.Not(c)))
        return d

    def explore(self, thunk):
        """all paths of thunk(): list of dict(pc=extra conditions, out=(kind, value), heap, env)"""
        heap0, pc0, own0 = dict(self.heap), list(self.pc), dict(self.owner)
        queue, res = [[]], []
        while queue:
            prefix = queue.pop()
            self.heap, self.pc, self.owner = dict(heap0), list(pc0), dict(own0)
            ex = Explorer(prefix)
            self.explorers.append(ex)
            try:
                try:
                    out = ("normal", thunk())
                except Return as r:
                    out = ("return", r.v)
                except Break:
                    out = ("break", None)
                except Continue:
                    out = ("normal", None)
                except Raised as r:
                    out = ("raise", r.typ)
            finally:
                self.explorers.pop()
            res.append({"pc": self.pc[len(pc0):], "out": out, "heap": self.heap, "owner": self.owner})
            queue += ex.pending
            if len(res) + len(queue) > 400:
                raise Unsupported("too many paths")
        self.heap, self.pc, self.owner = heap0, pc0, own0
        return res

    # ------------------------------------------------------------------------------------------------ functions
    def lookup(self, name, env, mod):
        if name in env:
            v = env[name]
            if isinstance(v, Poison):
                raise Unsupported(f"{name}: {v.why}")
            return v
        return self.global_name(name, mod)

    def global_name(self, name, mod):
        g = mod.globals.get(name) if mod else None
        if isinstance(g, tuple) and g[0] == "ff":
            if g[1] == "__init__":
                return ModRef("ff." + g[2])
            m2 = module(g[1])
            return self.global_name(g[2], m2)
        if isinstance(g, tuple) and g[0] == "mutable":
            raise Unsupported(f"module-level name {name} may change")
        if isinstance(g, tuple) and g[0] == "expr":
            return self.locked(self.eval(g[1], {}, mod))
        if g is not None:
            return g
        if name in BUILTIN_EXC:
            return TypeRef(name)
        import npm
        if name in npm.BUILTINS:
            return Builtin(name, npm.BUILTINS[name])
        if name in ("int", "float", "complex", "bool", "str", "list", "tuple", "set", "dict"):
            return TypeRef(name)
        raise Unsupported(f"name {name}")

    def locked(self, v):
        """a value shared by all calls (module constant, default argument): must not be written to"""
        if isinstance(v, (Arr, Lst)):
            self.ro.add(v.box)
        if isinstance(v, Lst) and self.heap[v.box].items is not None:
            for x in self.heap[v.box].items:
                self.locked(x)
        if isinstance(v, tuple):
            for x in v:
                self.locked(x)
        return v

    def bind_args(self, node, args, kwargs, mod, what):
        a = node.args
        if a.vararg or a.kwarg:
            raise Unsupported("variadic function")
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names):
            raise Raised("TypeError")
        for n, v in zip(names, args):
            env[n] = v
        for k, v in kwargs.items():
            if k in env or k not in names + [x.arg for x in a.kwonlyargs]:
                raise Raised("TypeError")
            env[k] = v
        ds = a.defaults
        for n, d in zip(names[len(names) - len(ds):], ds):
            if n not in env:
                env[n] = self.locked(self.eval(d, {}, mod))
        for n, d in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
            if n not in env and d is not None:
                env[n] = self.locked(self.eval(d, {}, mod))
        for n in names:
            if n not in env:
                raise Raised("TypeError")
        return env

    def call_func(self, f, args, kwargs):
        mod = f.module
        if isinstance(f.node, ast.Lambda):
            env = dict(f.env)
            env.update(self.bind_args(f.node, args, kwargs, mod, "lambda"))
            return self.eval(f.node.body, env, mod)
        qn = f"{mod.name}.{f.name}"
        env = self.bind_args(f.node, args, kwargs, mod, qn)
        if f.env is None and qn in self.contracts and self.depth > 0:
            r = self.apply_contract(qn, env)
            if r is not NotImplemented:
                return r
        if f.env is not None:
            e2 = dict(f.env)
            e2.update(env)
            env = e2
        if self.depth > 12:
            raise Unsupported("recursion")
        self.depth += 1
        if self.depth > 1:
            self.inlined.add(qn)
        try:
            self.block(f.node.body, env, mod)
            return None
        except Return as r:
            return r.v
        finally:
            self.depth -= 1

    def apply_contract(self, qn, env):
        c = self.contracts[qn]
        fro = {k: self.freeze(v) for k, v in env.items()}
        cases = c.cases(self, fro)
        if cases is None:
            return NotImplemented
        self.used.add(qn)
        for cond, out in cases:
            if self.branch(cond):
                if out[0] == "raise":
                    raise Raised(out[1])
                for f in (out[2] if len(out) > 2 else ()):
                    self.pc.append(f)
                return self.thaw(out[1])
        raise Unsupported(f"call of {qn} outside its precondition")

    # ------------------------------------------------------------------------------------------------ statements
    def block(self, body, env, mod):
        for s in body:
            self.stmt(s, env, mod)

    def stmt(self, s, env, mod):
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return
            self.eval(s.value, env, mod)
        elif t is ast.Assign:
            v = self.eval(s.value, env, mod)
            for tg in s.targets:
                self.assign(tg, v, env, mod)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, env, mod), env, mod)
        elif t is ast.AugAssign:
            self.augassign(s, env, mod)
        elif t is ast.Return:
            raise Return(self.eval(s.value, env, mod) if s.value is not None else None)
        elif t is ast.If:
            if self.truth(self.eval(s.test, env, mod)):
                self.block(s.body, env, mod)
            else:
                self.block(s.orelse, env, mod)
        elif t is ast.For:
            self.for_(s, env, mod)
        elif t is ast.Assert:
            if not self.truth(self.eval(s.test, env, mod)):
                raise Raised("AssertionError")
        elif t is ast.Raise:
            self.raise_(s, env, mod)
        elif t is ast.Pass:
            pass
        elif t is ast.Continue:
            raise Continue()
        elif t is ast.Break:
            raise Break()
        elif t is ast.FunctionDef:
            env[s.name] = Func(s.name, s, env, mod)
        elif t in (ast.Import, ast.ImportFrom):
            tmp = Module.__new__(Module)
            tmp.funcs, tmp.globals = {}, {}
            Module.load(tmp, s)
            for k, v in tmp.globals.items():
                env[k] = self.global_name(v[2], module(v[1])) if isinstance(v, tuple) else v
        elif t is ast.Try:
            self.try_(s, env, mod)
        elif t is ast.While:
            self.while_(s, env, mod)
        elif t is ast.Delete:
            for tg in s.targets:
                if isinstance(tg, ast.Name):
                    env.pop(tg.id, None)
                else:
                    raise Unsupported("del")
        elif t is ast.With:
            raise Unsupported("with")
        else:
            raise Unsupported(f"statement {t.__name__}")

    def while_(self, s, env, mod):
        for _ in range(UNROLL):
            c = self.eval(s.test, env, mod)
            c = simp(c) if is_bool(c) else c
            if not (isinstance(c, bool) or not isinstance(c, z3.ExprRef)):
                return self.counted(s, env, mod)
            if not self.truth(c):
                return
            try:
                self.block(s.body, env, mod)
            except Continue:
                continue
            except Break:
                return
        raise Unsupported("while loop")

    def counted(self, s, env, mod):
        """`while i < e: ...; i += c` runs as `for i in range(i, e, c): ...`, then i gets its final value"""
        t = s.test
        if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            raise Unsupported("while loop")
        lhs, op, rhs = t.left, type(t.ops[0]), t.comparators[0]
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        names = assigned(s.body)

        def counter(x):
            return isinstance(x, ast.Name) and x.id in names
        if not counter(lhs) and counter(rhs) and op in flip:
            lhs, op, rhs = rhs, flip[op], lhs
        if not counter(lhs) or op not in flip:
            raise Unsupported("while loop")
        i = lhs.id
        for x in ast.walk(rhs):            # the bound must not change in the loop
            if isinstance(x, ast.Name) and (x.id in names or not is_scalar(env.get(x.id)) and not (x.id == "len" and "len" not in env)) and not \
                    (isinstance(env.get(x.id), (Arr, tuple))):
                raise Unsupported("while loop with a changing bound")
            if not isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Call, ast.operator, ast.unaryop, ast.expr_context, ast.Attribute, ast.Subscript)):
                raise Unsupported("while loop")
        step, body = None, None
        for k, st in enumerate(s.body):    # exactly one top-level i += c, and i is read only before it
            if i in assigned([st]):
                if step is not None or not (isinstance(st, ast.AugAssign) and isinstance(st.op, (ast.Add, ast.Sub)) and isinstance(st.value, ast.Constant)
                                            and type(st.value.value) is int):
                    raise Unsupported("while loop")
                step = st.value.value if isinstance(st.op, ast.Add) else -st.value.value
                rest = s.body[k + 1:]
                if any(isinstance(x, ast.Name) and x.id == i for y in rest for x in ast.walk(y)):
                    raise Unsupported("while loop reads its counter after the step")
                body = s.body[:k] + rest
        if not step or any(isinstance(x, (ast.Continue, ast.Break)) for y in s.body for x in ast.walk(y)):
            raise Unsupported("while loop")
        start, end = self.eval(lhs, env, mod), self.eval(rhs, env, mod)
        if not (is_int(start) and is_int(end)):
            raise Unsupported("while loop")
        if op in (ast.LtE, ast.GtE):
            end = simp(zint(end) + (1 if op is ast.LtE else -1))
        if (step > 0) != (op in (ast.Lt, ast.LtE)):
            raise Unsupported("while loop that may not end")
        if step < -1:
            raise Unsupported("while loop")
        r = Rng(start, end, step)
        n = r.length()
        hid = f"@while{s.lineno}"
        env[hid] = r
        loop = ast.For(target=ast.Name(id=i, ctx=ast.Store()), iter=ast.Name(id=hid, ctx=ast.Load()), body=body or [ast.Pass()], orelse=[], lineno=s.lineno, col_offset=0)
        self.for_(loop, env, mod)
        del env[hid]
        env[i] = simp(zint(start) + zint(n) * step)

    def raise_(self, s, env, mod):
        e = s.exc
        if e is None:
            raise Unsupported("re-raise")
        if isinstance(e, ast.Call):
            e = e.func
        v = self.eval(e, env, mod)
        if isinstance(v, TypeRef):
            raise Raised(v.name)
        if isinstance(v, ModRef):
            raise Raised(v.name)
        raise Unsupported("raise")

    def try_(self, s, env, mod):
        def run():
            try:
                self.block(s.body, env, mod)
            except Raised as r:
                for h in s.handlers:
                    if self.matches(h.type, r.typ, env, mod):
                        self.block(h.body, env, mod)
                        return
                raise
            self.block(s.orelse, env, mod)
        if not s.finalbody:
            run()
            return
        try:
            run()
        except (Return, Break, Continue, Raised):
            self.block(s.finalbody, env, mod)
            raise
        self.block(s.finalbody, env, mod)

    def matches(self, t, typ, env, mod):
        if t is None:
            return True
        ts = t.elts if isinstance(t, ast.Tuple) else [t]
        for x in ts:
            v = self.eval(x, env, mod)
            nm = v.name if isinstance(v, (TypeRef, ModRef)) else None
            if nm in ("Exception", typ) or (nm and nm.split(".")[-1] == typ.split(".")[-1]):
                return True
        return False

    # ------------------------------------------------------------------------------------------------ assignment
    def assign(self, tg, v, env, mod):
        if isinstance(tg, ast.Name):
            env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(tg.elts))
            for x, y in zip(tg.elts, vs):
                self.assign(x, y, env, mod)
        elif isinstance(tg, ast.Subscript):
            base = self.eval(tg.value, env, mod)
            self.setitem(base, self.index(tg.slice, env, mod), v)
        elif isinstance(tg, ast.Attribute):
            base = self.eval(tg.value, env, mod)
            if isinstance(base, Arr) and tg.attr in ("real", "imag"):
                cur, w = self.read(base), self.av(v) if not is_scalar(v) else None
                if cur.kind != "c":
                    raise Unsupported("attribute assignment")
                part = (lambda *i: num(w.at(*i))) if w is not None else (lambda *i: num(v))
                if tg.attr == "real":
                    self.store(base, AV(cur.shape, "c", lambda *i: (part(*i) + cur.at(*i).imag() * N.I).with_kind("c")))
                else:
                    self.store(base, AV(cur.shape, "c", lambda *i: (cur.at(*i).real() + part(*i) * N.I).with_kind("c")))
                return
            raise Unsupported("attribute assignment")
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, Lst):
            v = self.heap[v.box]
        if isinstance(v, tuple):
            vs = list(v)
        elif isinstance(v, LV):
            if v.items is None:
                if isinstance(v.length, int) and v.length == n:
                    return [v.at(i) for i in range(n)]
                raise Unsupported("unpacking of a symbolic list")
            vs = list(v.items)
        elif isinstance(v, Arr):
            a = self.read(v)
            if not isinstance(a.shape[0], int) or a.shape[0] != n:
                raise Unsupported("unpacking of an array")
            return [self.getitem(v, (i,)) for i in range(n)]
        else:
            raise Unsupported("unpacking")
        if len(vs) != n:
            raise Raised("ValueError")
        return vs

    def store(self, h, av):
        """replace the contents seen through the handle"""
        old = self.heap[h.box]
        if h.vmap is None:
            self.write(h.box, AV(old.shape, old.kind, cast(av, old.kind), av.prov if av.kind == old.kind else None))
        else:
            raise Unsupported("in-place operation on a view")

    def augassign(self, s, env, mod):
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, env, mod)
            v = self.eval(s.value, env, mod)
            if isinstance(cur, Arr):
                r = self.binop(s.op, cur, v)
                rv = self.read(r)
                old = self.read(cur)
                if KO[rv.kind] > KO[old.kind]:
                    raise Raised("UFuncTypeError")
                if len(rv.shape) != len(old.shape) or not all(self.same_dim(a, b) for a, b in zip(rv.shape, old.shape)):
                    raise Raised("ValueError")
                if cur.vmap is None:
                    self.store(cur, rv)
                else:
                    self.store_view(cur, rv)
                return
            if isinstance(cur, Lst) and isinstance(s.op, ast.Add):
                lv = self.heap[cur.box]
                self.write(cur.box, self.lcat(lv, self.to_lv(v)))
                return
            env[s.target.id] = self.binop(s.op, cur, v)
        elif isinstance(s.target, ast.Subscript):
            base = self.eval(s.target.value, env, mod)
            ix = self.index(s.target.slice, env, mod)
            cur = self.getitem(base, ix)
            v = self.eval(s.value, env, mod)
            r = self.binop(s.op, cur, v)
            if isinstance(base, Arr) and KO[kind_of(self.freeze(r))] > KO[self.read(base).kind] and isinstance(cur, Arr):
                raise Raised("UFuncTypeError")
            self.setitem(base, ix, r)
        else:
            raise Unsupported("augmented assignment")

    def store_view(self, h, av):
        self.put(h, self.read(h), lambda *i: True, av.at)

    # ------------------------------------------------------------------------------------------------ subscripts
    def index(self, node, env, mod):
        if isinstance(node, ast.Tuple):
            return tuple(self.index1(x, env, mod) for x in node.elts)
        return (self.index1(node, env, mod),)

    def index1(self, node, env, mod):
        if isinstance(node, ast.Slice):
            return ("slice", *[None if x is None else self.eval(x, env, mod) for x in (node.lower, node.upper, node.step)])
        return self.eval(node, env, mod)

    def norm_index(self, i, dim):
        """python index to 0..dim-1; out of range raises IndexError"""
        i = simp(as_int(i))
        if isinstance(i, int):
            if i < 0:
                i2 = simp(zint(dim) + i)
                if not self.branch(zint(i2) >= 0):
                    raise Raised("IndexError")
                return i2
            if isinstance(dim, int) and i < dim:
                return i
            if not self.branch(i < zint(dim)):
                raise Raised("IndexError")
            return i
        if self.branch(z3.And(i >= 0, i < zint(dim))):
            return i
        if self.branch(z3.And(i >= -zint(dim), i < 0)):
            return simp(zint(dim) + i)
        raise Raised("IndexError")

    def slice_bounds(self, sl, dim):
        _, lo, hi, st = sl
        if st is not None:
            st = simp(as_int(st))
            if not isinstance(st, int):
                raise Unsupported("slice step")
        else:
            st = 1
        if st == -1 and lo is None and hi is None:
            return simp(zint(dim) - 1), None, -1, dim
        if st < 1:
            raise Unsupported("slice step")

        def clamp(x, default):
            if x is None:
                return default
            x = simp(as_int(x))
            if isinstance(x, int) and x < 0 or (isinstance(x, z3.ExprRef) and not valid(self.pc, x >= 0)):
                if isinstance(x, int) or valid(self.pc, x < 0):
                    x = simp(zint(dim) + x)
                    x = x if valid(self.pc, zint(x) >= 0) else simp(z3.If(zint(x) < 0, z3.IntVal(0), zint(x)))
                else:
                    raise Unsupported("slice bound of unknown sign")
            if valid(self.pc, zint(x) <= zint(dim)):
                return x
            return simp(z3.If(zint(x) <= zint(dim), zint(x), zint(dim)))
        lo, hi = clamp(lo, 0), clamp(hi, dim)
        ln = simp(zint(hi) - zint(lo))
        if not valid(self.pc, zint(ln) >= 0):
            ln = simp(z3.If(zint(ln) >= 0, zint(ln), z3.IntVal(0)))
        if st != 1:
            ln = simp((zint(ln) + (st - 1)) / st)
        return lo, hi, st, ln

    def getitem(self, base, ix):
        if isinstance(base, (tuple, Lst, LV)) and len(ix) == 1 and not isinstance(ix[0], tuple):
            lv = LV(list(base)) if isinstance(base, tuple) else (self.heap[base.box] if isinstance(base, Lst) else base)
            i = self.norm_index(ix[0], lv.length)
            if lv.items is not None and not isinstance(i, int):
                v = lv.at(i) if all(is_scalar(self.freeze(x)) for x in lv.items) else LV([self.freeze(x) for x in lv.items]).at(i)
            else:
                v = lv.at(i)
            return self.thaw_elem(v, base)
        if isinstance(base, (Lst, LV, tuple)) and isinstance(ix[0], tuple) and ix[0][0] == "slice":
            lv = LV(list(base)) if isinstance(base, tuple) else (self.heap[base.box] if isinstance(base, Lst) else base)
            lo, hi, st, ln = self.slice_bounds(ix[0], lv.length)
            if lv.items is not None and all(isinstance(x, int) for x in (lo, ln)):
                r = LV([lv.items[lo + st * j] for j in range(ln)])
            else:
                r = LV(None, ln, lambda k: lv.at(simp(zint(lo) + st * zint(k))))
            return tuple(r.items) if isinstance(base, tuple) and r.items is not None else self.lst(r)
        if isinstance(base, Rng) and len(ix) == 1:
            return base.at(self.norm_index(ix[0], base.length()))
        if isinstance(base, Arr):
            return self.arr_getitem(base, ix)
        if isinstance(base, DictV):
            return base.get(self, ix[0])
        raise Unsupported(f"subscript of {type(base).__name__}")

    def thaw_elem(self, v, base=None):
        """an element of a list given by a formula: a copy that must not be written to"""
        if isinstance(v, AV):
            r = self.arr(v)
            self.ro.add(r.box)
            if isinstance(base, Lst) and base.box in self.owner:
                self.owner[r.box] = self.owner[base.box]
            return r
        return v

    def arr_getitem(self, h, ix):
        a = self.read(h)
        if any(x is None for x in ix):
            if any(x is Ellipsis for x in ix):
                raise Unsupported("newaxis with an ellipsis")
            base = self.arr_getitem(h, tuple(x for x in ix if x is not None)) if any(x is not None for x in ix) else h
            b = self.read(base) if isinstance(base, Arr) else AV((), kind_of(base), lambda: num(base))
            shape, keep, nd = [], [], 0
            for x in list(ix) + [("slice", None, None, None)] * (a.ndim - sum(x is not None for x in ix)):
                if x is None:
                    shape.append(1)
                    keep.append(False)
                elif isinstance(x, tuple) or isinstance(x, (Arr, Lst, LV)):
                    shape.append(b.shape[nd])
                    keep.append(True)
                    nd += 1
            if nd != b.ndim:
                raise Unsupported("newaxis")
            r = AV(tuple(shape), b.kind, lambda *i: b.at(*[x for x, k in zip(i, keep) if k]))
            return self.viewof(h, r)
        ix = self.ellipsis(ix, a)
        if any(isinstance(x, (Arr, Lst, LV)) for x in ix):
            return self.fancy(a, ix)
        if len(ix) > a.ndim:
            raise Raised("IndexError")
        plan, shape = [], []
        for d, x in enumerate(list(ix) + [("slice", None, None, None)] * (a.ndim - len(ix))):
            if isinstance(x, tuple) and x and x[0] == "slice":
                lo, hi, st, ln = self.slice_bounds(x, a.shape[d])
                plan.append(("s", lo, st))
                shape.append(ln)
            else:
                plan.append(("i", self.norm_index(x, a.shape[d])))

        def vm(*i):
            i, out = list(i), []
            for p in plan:
                if p[0] == "i":
                    out.append(zint(p[1]))
                else:
                    j = i.pop(0)
                    out.append(zint(p[1]) + (zint(j) if p[2] == 1 else zint(j) * p[2]))
            return out
        if not shape:
            return a.at(*vm())
        new, nd = [], 0
        for p in plan:
            new.append(("i", p[1]) if p[0] == "i" else ("d", nd, p[1], p[2]))
            nd += p[0] != "i"
        if h.vmap is not None:
            pv = h.vmap
            pl = None
            if h.plan is not None:
                pl = []
                for q in h.plan:
                    if q[0] == "d":
                        r = new[q[1]]
                        lo = simp(zint(q[2]) + zint(q[3]) * zint(r[1] if r[0] == "i" else r[2]))
                        q = ("i", lo) if r[0] == "i" else ("d", r[1], lo, q[3] * r[3])
                    pl.append(q)
            return Arr(h.box, lambda *i: pv(*vm(*i)), tuple(shape), pl)
        return Arr(h.box, vm, tuple(shape), new)

    def ellipsis(self, ix, a):
        if not any(x is Ellipsis for x in ix):
            return ix
        n = [j for j, x in enumerate(ix) if x is Ellipsis]
        if len(n) > 1:
            raise Raised("IndexError")
        j = n[0]
        return ix[:j] + (("slice", None, None, None),) * (a.ndim - len(ix) + 1) + ix[j + 1:]

    def int_list(self, x, dim):
        """entries of an integer index list, checked against the dimension: (length, k -> index)"""
        w = self.av(x)
        if w.ndim != 1:
            raise Unsupported("fancy index")
        if w.kind == "b":
            raise Unsupported("boolean mask read")
        if w.kind != "i":
            raise Raised("IndexError")
        n = w.shape[0]
        if isinstance(n, int) and n <= 16:
            its = [self.norm_index(as_int(w.at(j)), dim) for j in range(n)]
            return n, lambda k: zint(LV(its).at(k))
        j = fresh("j")
        e = as_int(w.at(j))
        if valid(self.pc + [j >= 0, j < zint(n)], z3.And(zint(e) >= 0, zint(e) < zint(dim))):
            return n, lambda k: zint(as_int(w.at(k)))
        raise Unsupported("fancy index of unknown range")

    def fancy(self, a, ix):
        """integer-list indices: one of them, or an open mesh, or index lists of equal length (a copy)"""
        if len(ix) == 1 and isinstance(ix[0], LV) and ix[0].prov is not None and ix[0].prov[0] == "mesh":
            ix = ix[0].items
            mesh = True
        else:
            mesh = False
        ix = tuple(ix)
        if len(ix) > a.ndim:
            raise Raised("IndexError")
        ix = ix + (("slice", None, None, None),) * (a.ndim - len(ix))
        lists = [d for d, x in enumerate(ix) if isinstance(x, (Arr, Lst, LV))]
        if not mesh and len(lists) > 1:
            if len(lists) != a.ndim:
                raise Unsupported("fancy index")
            sel_ = [self.int_list(x, a.shape[d]) for d, x in enumerate(ix)]
            if not all(self.same_dim(sel_[0][0], x[0]) for x in sel_):
                raise Unsupported("fancy index")
            return self.arr(AV((sel_[0][0],), a.kind, lambda k: a.at(*[f(k) for _, f in sel_])))
        if not mesh and any(not isinstance(x, (Arr, Lst, LV, tuple)) for x in ix) and lists != [0]:
            raise Unsupported("fancy index")       # an integer next to a list: order of the axes
        plan, shape = [], []
        for d, x in enumerate(ix):
            if d in lists:
                n, f = self.int_list(x, a.shape[d])
                plan.append(f)
                shape.append(n)
            elif isinstance(x, tuple) and x and x[0] == "slice":
                lo, hi, st, ln = self.slice_bounds(x, a.shape[d])
                plan.append((lambda lo, st: lambda k: zint(lo) + st * zint(k))(lo, st))
                shape.append(ln)
            else:
                plan.append(self.norm_index(x, a.shape[d]))

        def el(*i):
            i, out = list(i), []
            for p in plan:
                out.append(p(i.pop(0)) if callable(p) else zint(p))
            return a.at(*out)
        return self.arr(AV(tuple(shape), a.kind, el))

    def setitem(self, base, ix, v):
        if isinstance(base, Lst):
            lv = self.heap[base.box]
            i = self.norm_index(ix[0], lv.length)
            if lv.items is None or not isinstance(i, int):
                raise Unsupported("assignment into a symbolic list")
            its = list(lv.items)
            its[i] = v
            self.write(base.box, LV(its))
            return
        if not isinstance(base, Arr):
            raise Unsupported(f"item assignment on {type(base).__name__}")
        a = self.read(base)
        self.put(base, a, *self.cells(a, ix, v))

    def put(self, base, a, cond, val):
        """overwrite the cells of the array (or view) that satisfy cond; a: its current contents"""
        ka = a.kind
        if base.vmap is None:
            old, conv = a, None
        else:
            if base.plan is None:
                raise Unsupported("assignment through a view")
            old = self.heap[base.box]
            plan, vshape = base.plan, base.vshape

            def conv(*i):
                """(is the cell seen through the view, its index in the view)"""
                g, j = [], [z3.IntVal(0)] * len(vshape)
                for x, p in zip(i, plan):
                    if p[0] == "i":
                        g.append(x == zint(p[1]))
                        continue
                    _, d, lo, st = p
                    off = simp(zint(x) - zint(lo))
                    if st == 1:
                        j[d] = zint(off)
                    elif st > 1:
                        g.append(zint(off) % st == 0)
                        j[d] = zint(simp(zint(off) / st))
                    else:
                        g.append(zint(off) % -st == 0)
                        j[d] = zint(simp(zint(-zint(off)) / -st))
                    g += [j[d] >= 0, j[d] < zint(vshape[d])]
                return g, j

        def elem(*i):
            if conv is None:
                g, j = [], i
            else:
                g, j = conv(*i)
            c = cond(*j)
            c = simp(And(*g, c))
            if c is False:
                return old.at(*i)
            if ka == "b":
                return merge_val(c, tobool(val(*j)), old.at(*i))
            return ite(c, castnum(num(val(*j)), ka), old.at(*i))
        self.write(base.box, AV(old.shape, old.kind, elem))

    def cells(self, a, ix, v):
        """(condition on the index, value at the index) of the assignment a[ix] = v"""
        if len(ix) == 1 and isinstance(ix[0], Arr) and self.av(ix[0]).kind == "b":
            m = self.av(ix[0])
            if m.ndim == a.ndim and is_scalar(v) and a.kind != "b":
                vv = castnum(num(v), a.kind)
                return m.at, lambda *i: vv
            raise Unsupported("fancy assignment")
        if len(ix) == 1 and isinstance(ix[0], (Arr, Lst)) and a.ndim == 1 and is_scalar(v) and self.av(ix[0]).kind == "i" and self.av(ix[0]).ndim == 1:
            return self.scatter(a, self.av(ix[0]), v)
        ix = self.ellipsis(ix, a)
        if len(ix) > a.ndim:
            raise Raised("IndexError")
        conds, dims = [], []
        for d, x in enumerate(list(ix) + [("slice", None, None, None)] * (a.ndim - len(ix))):
            if isinstance(x, tuple) and x and x[0] == "slice":
                lo, hi, st, ln = self.slice_bounds(x, a.shape[d])
                if st == -1:
                    raise Unsupported("slice step")
                conds.append(("s", lo, st, ln))
                dims.append(ln)
            elif isinstance(x, (Arr, Lst, LV)):
                raise Unsupported("fancy assignment")
            else:
                conds.append(("i", self.norm_index(x, a.shape[d])))
        if is_scalar(v):
            val = lambda *j: v
            vk = kind_of(v)
        else:
            w = self.av(v)
            vk = w.kind
            w = self.broadcast_to(w, dims)
            val = w.at
        if vk == "c" and a.kind != "c" and is_scalar(v):
            raise Raised("TypeError")

        def split(*i):
            g, j = [], []
            for p, x in zip(conds, i):
                if p[0] == "i":
                    g.append(x == zint(p[1]))
                else:
                    _, lo, st, ln = p
                    off = simp(x - zint(lo))
                    if st == 1:
                        g += [zint(off) >= 0, zint(off) < zint(ln)]
                        j.append(off)
                    else:
                        g += [zint(off) >= 0, zint(off) % st == 0, zint(off) / st < zint(ln)]
                        j.append(simp(zint(off) / st))
            return g, j

        def cond(*i):
            g = split(*i)[0]
            return simp(And(*g)) if g else True
        return cond, lambda *i: val(*split(*i)[1])

    def scatter(self, a, x, v):
        """a[x] = v for a vector x of indices: the cells j that are some x[k]"""
        n, ln = zint(a.shape[0]), zint(x.shape[0])
        f = lambda k: zint(as_int(x.at(k)))
        k = fresh("k")
        if not valid(self.pc + [k >= 0, k < ln], z3.And(f(k) >= 0, f(k) < n)):
            raise Unsupported("indices of a scattered assignment")
        lam = N.Lam(1, f, (ln,))
        hit = lambda j: N.pred("hit", (ln, lam, zint(j)))
        self.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ln), hit(f(k)))))
        j = fresh("j")
        w = N.opaque_int("hitat", (ln, lam, j))
        self.pc.append(z3.ForAll([j], z3.Implies(hit(j), z3.And(w >= 0, w < ln, z3.substitute(f(k), (k, w)) == j))))
        return hit, lambda *i: v

    def broadcast_to(self, w, dims):
        """value of shape w seen with shape dims"""
        if w.ndim > len(dims):
            extra = w.ndim - len(dims)
            if all(same(d, 1) for d in w.shape[:extra]):
                w0 = w
                w = AV(w.shape[extra:], w.kind, lambda *i: w0.at(*([0] * extra), *i))
            else:
                raise Raised("ValueError")
        pad = len(dims) - w.ndim
        m = []
        for d, e in zip(dims[pad:], w.shape):
            if self.same_dim(d, e):
                m.append(True)
            elif same(e, 1):
                m.append(False)
            elif unsat(self.pc + [zint(d) == zint(e)]):
                raise Raised("ValueError")
            elif self.branch(zint(d) == zint(e)):
                m.append(True)
            elif self.branch(zint(e) == 1):
                m.append(False)
            else:
                raise Raised("ValueError")
        if pad == 0 and all(m):
            return w
        return AV(dims, w.kind, lambda *i: w.at(*[x if f else 0 for f, x in zip(m, i[pad:])]))

    def broadcast(self, a, b):
        n = max(a.ndim, b.ndim)
        sa, sb = (1,) * (n - a.ndim) + a.shape, (1,) * (n - b.ndim) + b.shape
        out = []
        for d, e in zip(sa, sb):
            if same(d, e):
                out.append(d)
            elif same(d, 1):
                out.append(e)
            elif same(e, 1):
                out.append(d)
            elif self.branch(zint(d) == zint(e)):
                out.append(d)
            elif self.branch(zint(e) == 1):
                out.append(d)
            elif self.branch(zint(d) == 1):
                out.append(e)
            else:
                raise Raised("ValueError")
        return self.broadcast_to(a, out), self.broadcast_to(b, out)

    # ------------------------------------------------------------------------------------------------ expressions
    def truth(self, v):
        if v is None:
            return False
        if is_bool(v):
            return self.branch(v)
        if isinstance(v, (str, tuple)):
            return bool(v)
        if is_int(v):
            return self.branch(simp(zint(v) != 0)) if isinstance(v, z3.ExprRef) else bool(v)
        if isinstance(v, (float, complex)):
            return bool(v)
        if isinstance(v, Num):
            return self.branch(cmp("!=", v, 0))
        if isinstance(v, Lst):
            v = self.heap[v.box]
        if isinstance(v, LV):
            return self.branch(simp(zint(v.length) != 0))
        if isinstance(v, Arr):
            a = self.read(v)
            if all(same(d, 1) for d in a.shape):
                return self.truth(a.at(*([0] * a.ndim)))
            raise Raised("ValueError")
        if isinstance(v, (Func, Builtin, ModRef, TypeRef)):
            return True
        raise Unsupported(f"truth value of {type(v).__name__}")

    def eval(self, e, env, mod):
        t = type(e)
        if t is ast.Constant:
            return e.value
        if t is ast.Name:
            return self.lookup(e.id, env, mod)
        if t is ast.BinOp:
            return self.binop(e.op, self.eval(e.left, env, mod), self.eval(e.right, env, mod))
        if t is ast.UnaryOp:
            return self.unop(e.op, self.eval(e.operand, env, mod))
        if t is ast.Call:
            return self.call(e, env, mod)
        if t is ast.Attribute:
            return self.attr(self.eval(e.value, env, mod), e.attr)
        if t is ast.Subscript:
            return self.getitem(self.eval(e.value, env, mod), self.index(e.slice, env, mod))
        if t is ast.Compare:
            return self.compare(e, env, mod)
        if t is ast.BoolOp:
            return self.boolop(e, env, mod)
        if t is ast.IfExp:
            if self.truth(self.eval(e.test, env, mod)):
                return self.eval(e.body, env, mod)
            return self.eval(e.orelse, env, mod)
        if t is ast.Tuple:
            return tuple(self.eval(x, env, mod) for x in e.elts)
        if t is ast.List:
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out += list(self.unpack_all(self.eval(x.value, env, mod)))
                else:
                    out.append(self.eval(x, env, mod))
            return self.lst(LV(out))
        if t in (ast.ListComp, ast.GeneratorExp):
            return self.comp(e, env, mod)
        if t is ast.SetComp:
            return SetH(self.new(self.to_lv(self.comp(e, env, mod))))
        if t is ast.JoinedStr:
            return self.fstring(e, env, mod)
        if t is ast.Lambda:
            return Func("<lambda>", e, env, mod)
        if t is ast.NamedExpr:
            v = self.eval(e.value, env, mod)
            env[e.target.id] = v
            return v
        if t is ast.Dict and all(isinstance(k, ast.Constant) for k in e.keys):
            return DictV({k.value: self.eval(v, env, mod) for k, v in zip(e.keys, e.values)})
        raise Unsupported(f"expression {t.__name__}")

    def fstring(self, e, env, mod):
        """an f-string of plain names and attributes keeps its parts; any other one is opaque"""
        def plain(v):
            return isinstance(v, (ast.Name, ast.Constant)) or isinstance(v, ast.Attribute) and plain(v.value)
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(x.value)
            elif isinstance(x, ast.FormattedValue) and plain(x.value) and x.conversion == -1:
                try:
                    v = self.eval(x.value, env, mod)
                    sp = self.fstring(x.format_spec, env, mod) if x.format_spec is not None else Str(parts=[])
                except Unsupported:
                    return Str()
                if sp.parts is None:
                    return Str()
                out.append(("fmt", self.freeze(v), tuple(sp.parts)))
            else:
                return Str()
        return Str(parts=out)

    def unpack_all(self, v):
        if isinstance(v, tuple):
            return v
        if isinstance(v, Lst):
            v = self.heap[v.box]
        if isinstance(v, LV) and v.items is not None:
            return v.items
        if isinstance(v, Rng) and isinstance(v.length(), int):
            return [v.at(i) for i in range(v.length())]
        raise Unsupported("unpacking")

    def boolop(self, e, env, mod):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env, mod)
            if i == len(e.values) - 1:
                return v
            if is_bool(v):
                sv = simp(v)
                if isinstance(sv, bool):
                    if sv != isand:
                        return sv
                    continue
                # pure boolean formula when the rest is pure
                if pure(e.values[i + 1:]):
                    try:
                        rest = [self.peek(y, env, mod, sv if isand else simp(z3.Not(sv))) for y in e.values[i + 1:]]
                    except (Unsupported, Raised):
                        rest = None
                    if rest is not None and all(is_bool(r) for r in rest):
                        return simp(And(sv, *rest) if isand else Or(sv, *rest))
            tv = self.truth(v)
            if tv != isand:
                return v
        return v

    def peek(self, e, env, mod, assume):
        """value of a pure expression under an extra assumption, without branching"""
        n = len(self.pc)
        self.pc.append(assume)
        ex, self.explorers = self.explorers, []
        try:
            return self.eval(e, dict(env), mod)
        finally:
            self.explorers = ex
            del self.pc[n:]

    def compare(self, e, env, mod):
        left = self.eval(e.left, env, mod)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env, mod)
            res.append(self.cmpop(op, left, right))
            left = right
        if len(res) == 1:
            return res[0]
        return simp(And(*res))

    def cmpop(self, op, a, b):
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            r = self.is_(a, b)
            return r if t is ast.Is else simp(Not(r))
        if t in (ast.In, ast.NotIn):
            r = self.contains(a, b)
            return r if t is ast.In else simp(Not(r))
        o = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[t]
        if isinstance(a, Arr) or isinstance(b, Arr):
            x = self.av(a) if not is_scalar(a) else AV((), kind_of(a), lambda: num(a))
            y = self.av(b) if not is_scalar(b) else AV((), kind_of(b), lambda: num(b))
            x, y = self.broadcast(x, y)
            return self.arr(AV(x.shape, "b", lambda *i: simp(cmp(o, tonum(x.at(*i)), tonum(y.at(*i))))))
        if is_int(a) and is_int(b):
            x, y = simp(a), simp(b)
            if isinstance(x, int) and isinstance(y, int):
                return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[o]
            x, y = zint(x), zint(y)
            return simp({"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[o])
        if is_bool(a) and is_bool(b) and o in ("==", "!="):
            r = simp(zbool(a) == zbool(b))
            return r if o == "==" else simp(Not(r))
        if is_scalar(a) and is_scalar(b):
            if inf(a) or inf(b):
                return cmp_inf(o, a, b)
            if is_bool(a):
                a = num(a)
            if is_bool(b):
                b = num(b)
            if o in ("==", "!="):
                import npm
                r = npm.quotient_eq(self, a, b)
                if r is not None:
                    return r if o == "==" else simp(Not(r))
            return simp(cmp(o, a, b))
        if o in ("==", "!="):
            if isinstance(a, str) and isinstance(b, str) or a is None or b is None:
                r = (a == b) if not (is_scalar(a) or is_scalar(b)) else False
                return r if o == "==" else not r
            if isinstance(a, Dtype) and isinstance(b, (Dtype, TypeRef)):
                import npm
                r = a.kind == npm.dtype_kind(b)
                return r if o == "==" else not r
            if isinstance(a, (tuple, Lst, LV)) and isinstance(b, (tuple, Lst, LV)):
                x, y = self.to_lv(a), self.to_lv(b)
                if x.items is not None and y.items is not None:
                    r = False if len(x.items) != len(y.items) else simp(And(*[self.cmpop(ast.Eq(), p, q) for p, q in zip(x.items, y.items)]))
                    return r if o == "==" else simp(Not(r))
            if (is_scalar(a) and not is_scalar(b)) or (is_scalar(b) and not is_scalar(a)):
                return o == "!="
        raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")

    def is_(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(b, bool):
            if isinstance(a, bool):
                return a is b
            if isinstance(a, z3.BoolRef):
                return simp(a == b)
            return False
        if isinstance(a, (Arr, Lst)) and isinstance(b, (Arr, Lst)):
            return type(a) is type(b) and a.box == b.box and getattr(a, "vmap", None) is getattr(b, "vmap", None)
        raise Unsupported("identity test")

    def contains(self, a, b):
        if isinstance(b, (tuple, Lst, LV)):
            lv = self.to_lv(b)
            if lv.items is not None:
                return simp(Or(*[self.cmpop(ast.Eq(), a, x) for x in lv.items]))
        if isinstance(b, Rng) and is_int(a) and b.step == 1:
            return simp(z3.And(zint(a) >= zint(b.lo), zint(a) < zint(b.hi)))
        if isinstance(b, DictV) and isinstance(a, str):
            return a in b.d
        raise Unsupported("membership test")

    def to_lv(self, v):
        if isinstance(v, Lst):
            return self.heap[v.box]
        if isinstance(v, LV):
            return v
        if isinstance(v, tuple):
            return LV(list(v))
        if isinstance(v, Rng):
            n = v.length()
            if isinstance(n, int):
                return LV([v.at(i) for i in range(n)])
            return LV(None, n, v.at)
        if isinstance(v, Arr):
            a = self.read(v)
            if a.ndim == 1:
                return LV(None, a.shape[0], lambda k: a.at(k))
            return LV(None, a.shape[0], lambda k: AV(a.shape[1:], a.kind, lambda *i: a.at(k, *i)))
        raise Unsupported(f"list of {type(v).__name__}")

    def unop(self, op, v):
        if isinstance(op, ast.Not):
            if is_bool(v):
                return simp(Not(v))
            return not self.truth(v)
        if isinstance(v, Arr):
            a = self.read(v)
            if isinstance(op, ast.USub):
                return self.scaled(a, num(-1), kmax(a.kind, "i"))
            if isinstance(op, ast.UAdd):
                return self.arr(a)
            if isinstance(op, ast.Invert) and a.kind == "b":
                return self.arr(AV(a.shape, "b", lambda *i: simp(Not(a.at(*i)))))
            raise Unsupported("unary operator")
        if isinstance(op, ast.USub):
            if isinstance(v, (bool, int, float, complex)):
                return -v
            if is_int(v):
                return simp(-zint(v))
            if is_bool(v):
                v = num(v)
            return -num(v)
        if isinstance(op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def binop(self, op, a, b):
        t = type(op)
        if isinstance(a, Str) or isinstance(b, Str) or isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str) and t is ast.Add:
                return a + b
            if t is ast.Add and isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
                x, y = [[q] if isinstance(q, str) else q.parts for q in (a, b)]
                return Str(parts=x + y) if x is not None and y is not None else Str()
            return Str()
        if t is ast.MatMult:
            import npm
            return npm.matmul(self, a, b)
        if isinstance(a, (Lst, tuple, LV)) and isinstance(b, (Lst, tuple, LV)) and t is ast.Add:
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            return self.lst(self.lcat(self.to_lv(a), self.to_lv(b)))
        if isinstance(a, (Lst, tuple)) and is_int(b) and t is ast.Mult:
            lv = self.to_lv(a)
            n = simp(b)
            if lv.items is not None and isinstance(n, int):
                r = lv.items * n
                return tuple(r) if isinstance(a, tuple) else self.lst(LV(list(r)))
            if lv.items is not None and len(lv.items) == 1:
                x = lv.items[0]
                return self.lst(LV(None, n, lambda k: x))
            raise Unsupported("list repetition")
        if isinstance(a, (Arr, Lst, tuple)) or isinstance(b, (Arr, Lst, tuple)):
            if is_scalar(a) or is_scalar(b):
                return self.scalar_arr(t, a, b)
            x, y = self.av(a), self.av(b)
            if t is ast.Mult and {x.ndim, y.ndim} == {1, 2}:
                r = self.column_scaled(*((x, y) if x.ndim == 2 else (y, x)))
                if r is not None:
                    return r
            x, y = self.broadcast(x, y)
            k = kmax(x.kind, y.kind)
            if k == "b":
                if t is ast.BitAnd:
                    return self.arr(AV(x.shape, "b", lambda *i: simp(And(x.at(*i), y.at(*i)))))
                if t is ast.BitOr:
                    return self.arr(AV(x.shape, "b", lambda *i: simp(Or(x.at(*i), y.at(*i)))))
            kk = kmax(k, "f") if t in (ast.Div,) else k
            if kk == "b":
                kk = "i"
            return self.arr(AV(x.shape, kk, lambda *i: num(self.sbin(t, tonum(x.at(*i)), tonum(y.at(*i))))))
        if not (is_scalar(a) and is_scalar(b)):
            raise Unsupported(f"operator on {type(a).__name__} and {type(b).__name__}")
        return self.sbin(t, a, b)

    def column_scaled(self, x, y):
        """x * y for a square matrix x with known factors or facts and a vector y: the product x diag(y)"""
        if x.mm is None and not x.tags or not self.same_dim(x.shape[0], x.shape[1]) or not self.same_dim(x.shape[1], y.shape[0]):
            return None
        import npm
        d = self.av(npm._diag(self, [self.arr(y)], {}))
        r = AV(x.shape, kmax(x.kind, y.kind, "i"), lambda i, j: num(x.at(i, j)) * num(y.at(j)))
        return self.arr(npm.tag_mm(self, x, d, r))

    def scalar_arr(self, t, a, b):
        pc = piece_of(self.av(b if is_scalar(a) else a))
        if pc is not None:
            return self.arr(piece_av(pc.map(lambda v: num(self.sbin(t, a, tonum(v)) if is_scalar(a) else self.sbin(t, tonum(v), b)))))
        if is_scalar(a):
            y = self.av(b)
            k = kmax(kind_of(a), y.kind, "i")
            if t is ast.Mult:
                return self.scaled(y, num(a), k)
            kk = kmax(k, "f") if t is ast.Div else k
            return self.arr(AV(y.shape, kk, lambda *i: num(self.sbin(t, a, tonum(y.at(*i))))))
        x = self.av(a)
        k = kmax(kind_of(b), x.kind, "i")
        if t is ast.Mult:
            return self.scaled(x, num(b), k)
        if t is ast.Div:
            r = self.scaled(x, sinv(num(b)), kmax(k, "f"))
            import npm
            if x.ndim == 2 and x.tags and self.same_dim(x.shape[0], x.shape[1]) and N.prove_equal(num(b), npm.tr(self, x), self.pc)[0] == "proved":
                # x / Tr x; the trace of a positive definite matrix is positive
                y = self.read(r)
                self.heap[r.box] = npm.with_tags(y, {"trace1"} | (x.tags & {"herm"}) | ({"psd"} if "pd" in x.tags and "herm" in x.tags else set()))
            return r
        return self.arr(AV(x.shape, k, lambda *i: num(self.sbin(t, tonum(x.at(*i)), b))))

    def scaled(self, x, c, k):
        import npm
        r = npm.scaled_word(x, c, scale(x, c, k))
        t = npm.scale_tags(self, x, c)
        return self.arr(npm.with_tags(r, t) if t else r)

    def sbin(self, t, a, b):
        if is_bool(a) and not isinstance(a, bool):
            a = int_of_bool(a)
        if is_bool(b) and not isinstance(b, bool):
            b = int_of_bool(b)
        conc = all(isinstance(x, (bool, int, float, complex)) for x in (a, b))
        if conc and (inf(a) or inf(b)):
            raise Unsupported("infinite constant")
        if t is ast.Pow:
            if conc and not (isinstance(a, float) and not float(a).is_integer()):
                try:
                    r = a ** b
                    if isinstance(r, int) or (isinstance(b, int) and isinstance(a, int)):
                        return num(N.Fr(a) ** b).with_kind("f") if isinstance(b, int) and b < 0 else r
                except (ZeroDivisionError, OverflowError):
                    raise Unsupported("constant power")
            return spow(a if is_int(a) else num(a), b)
        if is_int(a) and is_int(b):
            if t is ast.Add:
                return simp(zint(a) + zint(b))
            if t is ast.Sub:
                return simp(zint(a) - zint(b))
            if t is ast.Mult:
                return simp(zint(a) * zint(b))
            if t in (ast.FloorDiv, ast.Mod):
                x, y = simp(a), simp(b)
                if isinstance(y, int) and y == 0:
                    raise Raised("ZeroDivisionError")
                if isinstance(x, int) and isinstance(y, int):
                    return x // y if t is ast.FloorDiv else x % y
                if not self.branch(zint(y) > 0):
                    if self.branch(zint(y) == 0):
                        raise Raised("ZeroDivisionError")
                    raise Unsupported("division by a negative integer")
                return simp(zint(x) / zint(y)) if t is ast.FloorDiv else simp(zint(x) % zint(y))
            if t is ast.Div:
                y = simp(b)
                if isinstance(y, int) and y == 0:
                    raise Raised("ZeroDivisionError")
                if not isinstance(y, int) and not self.branch(zint(y) != 0):
                    raise Raised("ZeroDivisionError")
                return IntDiv.make(a, b)
            if t is ast.LShift:
                if not self.branch(zint(b) >= 0):
                    raise Raised("ValueError")
                return simp(zint(a) * zint(pow2(b)))
            raise Unsupported(f"integer operator {t.__name__}")
        if t in (ast.FloorDiv, ast.Mod):
            x = num(a)
            ia, ib = as_int_opt(a), as_int_opt(b)
            if ia is not None and ib is not None:
                r = self.sbin(t, ia, ib)
                return num(r).with_kind("f")
            raise Unsupported("floor division of floats")
        a, b = num(a), num(b)
        if t is ast.Add:
            return a + b
        if t is ast.Sub:
            return a - b
        if t is ast.Mult:
            return a * b
        if t is ast.Div:
            return sdiv(a, b)
        raise Unsupported(f"operator {t.__name__}")

    def lcat(self, a, b):
        if a.items is not None and b.items is not None:
            return LV(a.items + b.items)
        if a.prov is not None and a.prov[0] in ("ph", "cat"):
            if b.items is None:
                raise Unsupported("concatenation in a loop")
            base = a.prov[1]
            old = a.prov[2] if a.prov[0] == "cat" else []
            return LV(None, a.length, a.elem, ("cat", base, old + [self.freeze(x) for x in b.items]))
        la = a.length
        if isinstance(la, int) and la == 0:
            return b
        return LV(None, simp(zint(a.length) + zint(b.length)),
                  lambda k: cat_elem(self, a, b, k))

    # ------------------------------------------------------------------------------------------------ calls, attributes
    def call(self, e, env, mod):
        import npm
        if isinstance(e.func, ast.Name) and e.func.id == "print" and "print" not in env:
            return None
        f = self.eval(e.func, env, mod) if not isinstance(e.func, ast.Attribute) else None
        args, kw = None, None

        def ev():
            args, kwargs = [], {}
            for a in e.args:
                if isinstance(a, ast.Starred):
                    args += list(self.unpack_all(self.eval(a.value, env, mod)))
                else:
                    args.append(self.eval(a, env, mod))
            for k in e.keywords:
                if k.arg is None:
                    raise Unsupported("** arguments")
                kwargs[k.arg] = self.eval(k.value, env, mod)
            return args, kwargs
        if f is None:
            obj = self.eval(e.func.value, env, mod)
            if isinstance(obj, ModRef):
                f = self.attr(obj, e.func.attr)
            else:
                args, kw = ev()
                return npm.method(self, obj, e.func.attr, args, kw)
        args, kw = ev()
        return self.apply(f, args, kw)

    def apply(self, f, args, kw):
        import npm
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Builtin):
            return f.fn(self, args, kw)
        if isinstance(f, ModRef):
            fn = npm.FUNCS.get(npm.canon(f.name))
            self.assumed.add(npm.canon(f.name))
            if fn is None:
                raise Unsupported(f"external function {f.name}")
            return fn(self, args, kw)
        if isinstance(f, TypeRef):
            return npm.construct(self, f.name, args, kw)
        if callable(f):
            return f(self, args, kw)
        raise Unsupported(f"call of {type(f).__name__}")

    def attr(self, v, name):
        import npm
        if isinstance(v, ModRef):
            full = npm.canon(v.name + "." + name)
            if full in npm.CONSTS:
                return npm.CONSTS[full]
            if full.startswith("ff."):
                parts = full.split(".")
                m = module(parts[1])
                if len(parts) == 3:
                    return self.global_name(parts[2], m)
            return ModRef(full)
        return npm.attribute(self, v, name)

    # ------------------------------------------------------------------------------------------------ comprehensions
    def comp(self, e, env, mod):
        if len(e.generators) != 1:
            return self.comp_nested(e, env, mod)
        g = e.generators[0]
        it = self.eval(g.iter, env, mod)
        n, item, perm = self.iterable(it)
        if isinstance(n, int) and n <= 64:
            out = []
            for k in range(n):
                en = dict(env)
                self.assign(g.target, item(k), en, mod)
                if all(self.truth(self.eval(c, en, mod)) for c in g.ifs):
                    out.append(self.eval(e.elt, en, mod))
            return self.lst(LV(out))
        if g.ifs or perm is not None:
            return self.lst(self.comp_piece(e.generators, e.elt, env, mod, (), True).lv())
        k = fresh("c")

        def body():
            en = dict(env)
            self.assign(g.target, item(k), en, mod)
            return self.freeze(self.eval(e.elt, en, mod))
        self.pc.append(z3.And(k >= 0, k < zint(n)))
        lim = self.nbox
        self.guardboxes.append((lim, set()))
        try:
            paths = self.explore(body)
        except NeedBox:
            raise Unsupported("side effect in a comprehension")
        finally:
            self.guardboxes.pop()
            self.pc.pop()
        v = self.merge_paths(paths, lambda p: p["out"][1])
        if any(p["out"][0] != "normal" for p in paths):
            raise Unsupported("exception inside a comprehension")
        return self.lst(LV(None, n, lambda j: subst_val(v, [(k, zint(j))])))

    def comp_nested(self, e, env, mod):
        g0 = e.generators[0]
        n, item, perm = self.iterable(self.eval(g0.iter, env, mod))
        if not (isinstance(n, int) and n <= 64):
            r = None if perm is not None or len(e.generators) != 2 or g0.ifs or e.generators[1].ifs else self.comp_fixed(e, n, item, env, mod)
            return self.lst(r if r is not None else self.comp_piece(e.generators, e.elt, env, mod, (), True).lv())
        out = []
        inner = type(e)(elt=e.elt, generators=e.generators[1:])
        for k in range(n):
            en = dict(env)
            self.assign(g0.target, item(k), en, mod)
            if all(self.truth(self.eval(c, en, mod)) for c in g0.ifs):
                lv = self.heap[self.comp(inner, en, mod).box]
                if lv.items is None:
                    return self.lst(self.comp_piece(e.generators, e.elt, env, mod, (), True).lv())
                out += lv.items
        return self.lst(LV(out))

    def comp_fixed(self, e, n, item, env, mod):
        """[f(x) for y in ys for x in y] where every y has the same constant number of items"""
        k = fresh("c")
        g0, g1 = e.generators

        def body():
            en = dict(env)
            self.assign(g0.target, item(k), en, mod)
            c, it, perm = self.iterable(self.eval(g1.iter, en, mod))
            if not isinstance(c, int) or c > 64 or perm is not None:
                return None
            out = []
            for q in range(c):
                ei = dict(en)
                self.assign(g1.target, it(q), ei, mod)
                out.append(self.freeze(self.eval(e.elt, ei, mod)))
            return tuple(out)
        self.pc.append(z3.And(k >= 0, k < zint(n)))
        try:
            vs = self.pure_eval(body)
        finally:
            self.pc.pop()
        return None if not isinstance(vs, tuple) or not vs else self.repeated(vs, k, n)

    def comp_piece(self, gens, elt, env, mod, binders, guard):
        """the items of a comprehension over symbolic ranges, with conditions and nested generators"""
        if not gens:
            v = self.pure_eval(lambda: self.freeze(self.eval(elt, env, mod)))
            return Piece(binders, guard, v)
        g = gens[0]
        n, item, perm = self.iterable(self.eval(g.iter, env, mod))
        k = fresh("c") if perm is None else None
        en = dict(env)
        mark = len(self.pc)
        if perm is None:
            self.pc.append(z3.And(k >= 0, k < zint(n)))
        try:
            self.assign(g.target, item(k), en, mod)
            for c in g.ifs:
                t = simp(self.pure_eval(lambda: self.truth(self.eval(c, en, mod))))
                if not is_bool(t):
                    raise Unsupported("condition of a comprehension")
                guard = simp(And(guard, t))
                if t is not True:
                    self.pc.append(zbool(t))
            return self.comp_piece(gens[1:], elt, en, mod, binders + ((k if perm is None else perm, n, perm is not None),), guard)
        finally:
            del self.pc[mark:]

    def pure_eval(self, body):
        """value of an expression without side effects, all its paths merged"""
        lim = self.nbox
        self.guardboxes.append((lim, set()))
        try:
            paths = self.explore(body)
        except NeedBox:
            raise Unsupported("side effect in a comprehension")
        finally:
            self.guardboxes.pop()
        if any(p["out"][0] != "normal" for p in paths):
            raise Unsupported("exception inside a comprehension")
        return self.merge_paths(paths, lambda p: p["out"][1])

    def merge_paths(self, paths, get):
        vals = [(And(*p["pc"]), get(p)) for p in paths]
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            r = merge_val(c, v, r)
        return r

    # ------------------------------------------------------------------------------------------------ loops
    def iterable(self, it):
        """(length, k -> item, permutation binder or None)"""
        if isinstance(it, Rng):
            return it.length(), it.at, None
        if isinstance(it, Perms):
            f = fresh_perm()
            N.PERMN[f.name()] = zint(it.n)
            return it.n, (lambda k: PermList(None, it.n, lambda i: f(zint(i)))), f
        if isinstance(it, Enum):
            n, item, p = self.iterable(it.it)
            return n, (lambda k: (k if it.start == 0 else simp(zint(k) + zint(it.start)), item(k))), p
        if isinstance(it, Zip):
            xs = [self.iterable(x) for x in it.its]
            if any(x[2] is not None for x in xs):
                raise Unsupported("zip")
            n = xs[0][0]
            for x in xs[1:]:
                if not self.same_dim(n, x[0]):
                    raise Unsupported("zip of different lengths")
            return n, (lambda k: tuple(x[1](k) for x in xs)), None
        if isinstance(it, tuple):
            return len(it), (lambda k: it[k]), None
        if isinstance(it, Prod2):
            it = it.lv()
        if isinstance(it, ItProd):
            return it.length(), it.at, None
        if isinstance(it, (Lst, LV)):
            lv = self.heap[it.box] if isinstance(it, Lst) else it
            if lv.items is not None:
                return len(lv.items), (lambda k: lv.items[k]), None
            return lv.length, (lambda k: self.thaw_elem(lv.at(k), it)), None
        if isinstance(it, Arr):
            a = self.read(it)
            if a.ndim == 1:
                return a.shape[0], (lambda k: scal(a.at(k), a.kind)), None
            return a.shape[0], (lambda k: self.getitem(it, (k,))), None
        if isinstance(it, str):
            return len(it), (lambda k: it[k]), None
        raise Unsupported(f"iteration over {type(it).__name__}")

    def for_(self, s, env, mod):
        it = self.eval(s.iter, env, mod)
        if isinstance(it, Prod2):
            return self.for_prod(s, it, env, mod)
        n, item, perm = self.iterable(it)
        import npm
        n = npm.pick(self.pc, simp(n))
        if perm is None and isinstance(n, int) and n <= 64:
            for k in range(n):
                self.assign(s.target, item(k), env, mod)
                try:
                    self.block(s.body, env, mod)
                except Continue:
                    continue
                except Break:
                    return
            self.block(s.orelse, env, mod)
            return
        if s.orelse:
            raise Unsupported("for-else over a symbolic range")
        self.sym_for(s, env, mod, n, item, perm)

    def for_prod(self, s, it, env, mod):
        """a loop over a product of two ranges runs as two nested loops"""
        if s.orelse or own_break(s.body):
            raise Unsupported("loop over a product")
        ha, hb, xa, xb = (f"@{q}{s.lineno}.{s.col_offset}" for q in ("ia", "ib", "xa", "xb"))
        env[ha], env[hb] = it.a, it.b
        nm = lambda q, c: ast.Name(id=q, ctx=c())
        pair = ast.Assign(targets=[s.target], value=ast.Tuple(elts=[nm(xa, ast.Load), nm(xb, ast.Load)], ctx=ast.Load()), lineno=s.lineno)
        inner = ast.For(target=nm(xb, ast.Store), iter=nm(hb, ast.Load), body=[pair] + s.body, orelse=[], lineno=s.lineno, col_offset=s.col_offset)
        self.for_(ast.For(target=nm(xa, ast.Store), iter=nm(ha, ast.Load), body=[inner], orelse=[], lineno=s.lineno, col_offset=s.col_offset), env, mod)
        for q in (ha, hb, xa, xb):
            env.pop(q, None)

    def sym_for(self, s, env, mod, n, item, perm):
        self.loops += 1
        names = assigned(s.body) | targets(s.target)
        k = fresh("k") if perm is None else None
        rebound, chainmode, boxes, widened, own, plain = set(), set(), set(), {}, {}, set()
        for attempt in range(12):
            res = self.iterate(s, env, mod, n, item, perm, k, names, rebound, chainmode, boxes, widened, own)
            if res is not None and perm is None and self.own_cells(res, boxes, own, plain, n, item(k), k):
                res = None
            if res is not None:
                break
        else:
            raise Unsupported("loop summary did not converge")
        ph, phbox, paths, mark = res
        exits = [p for p in paths if p["out"][0] not in ("normal", "continue")]
        norm = [p for p in paths if p["out"][0] in ("normal", "continue")]
        syms = set(ph.syms)
        if exits and perm is not None:
            raise Unsupported("early exit from a loop over permutations")
        if not norm and exits:
            norm = []
        rng = (0, n)
        # path conditions must not depend on the carried state, except through the exits below
        final_env, final_heap = {}, {}
        if norm:
            for nm in names:
                vals = [p["env"].get(nm, Poison("unassigned")) for p in norm]
                if nm in ph.names and ph.names[nm] is not None:
                    final_env[nm] = (nm, "carried", self.merge_paths(norm, lambda p: p["env"].get(nm, Poison("unassigned"))))
                else:
                    final_env[nm] = (nm, "temp", self.merge_paths(norm, lambda p: freeze_in(self, p, p["env"].get(nm, Poison("unassigned")))))
            for b in boxes:
                final_heap[b] = self.merge_paths(norm, lambda p: p["heap"][b])

        def state_at(m):
            """environment and heap after m complete iterations (closed form)"""
            e2, h2 = {}, {}
            for nm, (_, cls, F) in final_env.items():
                init = env.get(nm)
                if cls == "temp":
                    e2[nm] = self.last_value(F, init if nm in env else None, nm in env, k, perm, m, syms)
                else:
                    e2[nm] = self.close(nm, wide(self.freeze(init), widened.get(nm)), F, ph.names[nm], k, perm, m, syms, nm in chainmode)
            for b, F in final_heap.items():
                h2[b] = self.close(f"box{b}", self.heap[b], F, phbox[b], k, perm, m, syms, False, own.get(b))
            return e2, h2
        if not exits:
            e2, h2 = state_at(n)
            for nm, v in e2.items():
                if nm in ph.same:
                    continue
                env[nm] = v if isinstance(v, Poison) else self.thaw(v)
            for b, v in h2.items():
                self.write(b, v)
            return
        self.exit_loop(s, env, mod, n, item, k, names, exits, norm, state_at, ph, boxes)

    def own_cells(self, res, boxes, own, plain, n, it, k):
        """arrays whose k-th row is read and written in the iteration k only: that row has its initial value there"""
        ph, phbox, paths, mark = res
        e = it if is_int(it) else k
        if not paths or any(p["out"][0] not in ("normal", "continue") for p in paths) or occurs(k, zint(simp(zint(e) - k))):
            return False
        new = False
        for b in boxes:
            if b in own or b in plain or not isinstance(self.heap[b], AV) or self.heap[b].ndim < 1:
                continue
            v = self.close(f"box{b}", self.heap[b], self.merge_paths(paths, lambda p: p["heap"][b]), phbox[b], k, None, n, set(ph.syms), False)
            if isinstance(v, Poison) and ("array recurrence" in v.why or "array scaled" in v.why):
                own[b] = zint(e)
                new = True
            else:
                plain.add(b)
        return new

    def exit_loop(self, s, env, mod, n, item, k, names, exits, norm, state_at, ph, boxes):
        """second phase for loops with an early exit: run one iteration from the closed-form state to get the exit condition"""
        def enter(kk):
            e2, h2 = state_at(kk) if norm else ({}, {})
            en = dict(env)
            for nm, v in e2.items():
                if nm not in ph.same:
                    en[nm] = v if isinstance(v, Poison) else self.thaw(v)
            for b, v in h2.items():
                self.heap[b] = v
            return en

        def one(kk, collect):
            def body():
                en = enter(kk)
                collect.append(en)
                self.assign(s.target, item(kk), en, mod)
                self.block(s.body, en, mod)
                return None
            return body
        q = fresh("q")
        self.pc.append(z3.And(q >= 0, q < zint(n)))
        try:
            paths = self.explore(one(q, []))
        finally:
            self.pc.pop()
        ex = simp(Or(*[And(*p["pc"]) for p in paths if p["out"][0] not in ("normal", "continue")]))
        E = lambda j: simp(z3.substitute(zbool(ex), (q, zint(j))))
        j = fresh("j")
        hit = fresh("hit")
        some = z3.Exists([j], z3.And(j >= 0, j < zint(n), zbool(E(j))))
        if self.branch(some):
            j2 = fresh("j")
            self.pc.append(z3.And(hit >= 0, hit < zint(n), zbool(E(hit))))
            self.pc.append(z3.ForAll([j2], z3.Implies(z3.And(j2 >= 0, j2 < hit), z3.Not(zbool(E(j2))))))
            en = enter(hit)
            self.assign(s.target, item(hit), en, mod)
            try:
                self.block(s.body, en, mod)
            except Continue:
                raise Unsupported("inconsistent exit")
            except Break:
                for nm in en:
                    env[nm] = en[nm]
                return
            raise Unsupported("inconsistent exit")
        e2, h2 = state_at(n)
        for nm, v in e2.items():
            if nm not in ph.same:
                env[nm] = v if isinstance(v, Poison) else self.thaw(v)
        for b, v in h2.items():
            self.write(b, v)

    def iterate(self, s, env, mod, n, item, perm, k, names, rebound, chainmode, boxes, widened, own=()):
        """one symbolic iteration from placeholder state; None: restart with more placeholders"""
        heap0 = dict(self.heap)
        mark = self.nbox
        ph = PH()
        en0 = dict(env)
        phbox = {}
        for b in boxes:
            v = self.heap[b]
            phbox[b], self.heap[b] = make_ph(ph, v, f"box{b}")
            if b in own:
                self.heap[b] = AV(v.shape, v.kind, lambda *i, v=v, q=self.heap[b], e=own[b]: ite(simp(zint(i[0]) == e), num(v.at(*i)), num(q.at(*i))))
        for nm in names:
            if nm not in env or isinstance(env[nm], Poison):
                en0.pop(nm, None)
                en0[nm] = Poison("read before it is assigned in the loop")
                continue
            v = env[nm]
            if nm in chainmode:
                tok = object()
                r, c = fresh("r"), fresh("c")
                s0 = Sym("ph_" + nm, 2)
                ph.syms.append(s0)
                av = AV((r, c), "c", lambda i, j: Num([Term(ONE, (), (), [Atom(s0, (i, j))])], "c"), ("chain", (), tok))
                ph.names[nm] = ("chain", tok)
                en0[nm] = self.arr(av)
            elif isinstance(v, (Arr, Lst, SetH)) and nm not in rebound:
                ph.names[nm] = None
                ph.same.add(nm)
            elif isinstance(v, (Arr, Lst)):
                tok, pv = make_ph(ph, self.freeze(v), nm)
                ph.names[nm] = tok
                en0[nm] = self.thaw(pv)
            elif is_scalar(v):
                if nm in widened:
                    v = num(int_of_bool(v) if is_bool(v) else v).with_kind(widened[nm])
                tok, pv = make_ph(ph, v, nm)
                ph.names[nm] = tok
                en0[nm] = pv
            elif isinstance(v, (str, Str)):
                ph.names[nm] = None
                en0[nm] = Str()
            else:
                ph.names[nm] = None
                en0[nm] = Poison("carried value of unsupported type")
                ph.poison.add(nm)
        pc_save, own_save = list(self.pc), dict(self.owner)
        if perm is None:
            self.pc.append(z3.And(k >= 0, k < zint(n)))
        it = item(k)
        envs = []

        def body():
            en = dict(en0)
            self.assign(s.target, it, en, mod)
            cell.append(en)
            self.block(s.body, en, mod)
            return None
        self.guardboxes.append((mark, set(boxes)))
        cell = []
        try:
            heapx, pcx = self.heap, self.pc
            paths = []
            queue = [[]]
            h0, p0, o0 = dict(self.heap), list(self.pc), dict(self.owner)
            while queue:
                prefix = queue.pop()
                self.heap, self.pc, self.owner = dict(h0), list(p0), dict(o0)
                ex = Explorer(prefix)
                self.explorers.append(ex)
                cell.clear()
                try:
                    try:
                        body()
                        out = ("normal", None)
                    except Return as r:
                        out = ("return", None)
                    except Break:
                        out = ("break", None)
                    except Continue:
                        out = ("continue", None)
                    except Raised as r:
                        out = ("raise", r.typ)
                finally:
                    self.explorers.pop()
                en = cell[0]
                for nm in list(names):
                    if nm in en:
                        w = en[nm]
                        if nm in ph.same and out[0] in ("normal", "continue"):
                            o = env[nm]
                            if type(w) is not type(o) or w.box != o.box or getattr(w, "vmap", None) is not getattr(o, "vmap", None):
                                rebound.add(nm)
                                return None
                        if ph.names.get(nm) is not None:
                            en[nm] = self.freeze(w)
                            if ph.names[nm][0] in ("int", "num") and isinstance(en[nm], Num) and out[0] in ("normal", "continue"):
                                have = "i" if ph.names[nm][0] == "int" else kind_of(en0[nm])
                                if ph.names[nm][0] == "int" or KO[en[nm].kind] > KO[have]:
                                    widened[nm] = kmax("f", en[nm].kind)
                                    return None
                            if out[0] in ("normal", "continue") and nm not in chainmode and want_chain(env[nm], self.freeze(env[nm]), en[nm], self):
                                chainmode.add(nm)
                                return None
                paths.append({"pc": self.pc[len(p0):], "out": out, "heap": self.heap, "env": en})
                queue += ex.pending
                if len(paths) + len(queue) > 64:
                    raise Unsupported("too many paths in a loop body")
            return ph, phbox, paths, mark
        except NeedBox as nb:
            if nb.box > mark or nb.box in boxes:
                raise
            # an outer loop also needs to know
            for limit, allowed in self.guardboxes[:-1]:
                if nb.box <= limit and nb.box not in allowed:
                    raise
            boxes.add(nb.box)
            if nb.box in self.owner:
                self.frame.append((self.owner[nb.box], list(self.pc)))
            return None
        finally:
            self.guardboxes.pop()
            self.heap, self.pc, self.owner = heap0, pc_save, own_save

    def last_value(self, F, init, has_init, k, perm, m, syms):
        if isinstance(F, Poison) or perm is not None:
            return Poison("value of the last iteration")
        try:
            if depends(F, syms):
                return Poison("depends on carried state")
            v = subst_val(F, [(k, zint(simp(zint(m) - 1)))])
        except Unsupported as u:
            return Poison(str(u))
        if isinstance(v, (Func, Builtin)):
            return Poison("function defined in a loop")
        if valid(self.pc, zint(m) >= 1):
            return v
        if has_init:
            i = self.freeze(init)
            return merge_val(zint(m) >= 1, v, i)
        return Poison("may be unassigned after the loop")

    def close(self, nm, init, F, tok, k, perm, m, syms, chain, own=None):
        """closed form of a carried value after m iterations"""
        if isinstance(F, Poison):
            return F
        if tok is None:
            return Poison("carried value")
        try:
            return self.close_(nm, init, F, tok, k, perm, m, syms, own)
        except Unsupported as u:
            return Poison(f"loop summary of {nm}: {u}")

    def close_(self, nm, init, F, tok, k, perm, m, syms, own=None):
        kind = tok[0]
        if kind == "chain":
            return close_chain(init, F, tok[1], k, m, syms)
        if kind == "list":
            if not isinstance(F, LV) or F.prov is None:
                raise Unsupported("list is not extended by appending")
            if F.prov[0] == "ph" and F.prov[1] is tok[1]:
                return init
            if F.prov[0] not in ("cat", "fcat") or F.prov[1] is not tok[1]:
                raise Unsupported("list is not extended by appending")
            if F.prov[0] == "fcat" or init.prov is not None and init.prov[0] in ("ph", "fcat", "cat"):
                return close_filter(init, F, k, perm, m, syms)
            c = len(F.prov[2])
            if c > 4:
                raise Unsupported("several appends per iteration")
            if c > 1:
                return self.close_several(init, F.prov[2], k, perm, m, syms)
            v = F.prov[2][0]
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            if depends(v, syms):
                raise Unsupported("appended value depends on carried state")
            if perm is not None:
                raise Unsupported("list over permutations")
            li = init.length
            return LV(None, simp(zint(li) + zint(m)),
                      lambda j: subst_val(v, [(k, zint(j))]) if (isinstance(li, int) and li == 0)
                      else cat_elem(self, init, LV(None, m, lambda i: subst_val(v, [(k, zint(i))])), j))
        if kind == "rng":              # an unknown state for every number of iterations
            import rng
            if not isinstance(F, tuple) or not (rng.root(F)[0] == "rng" and rng.root(F)[1].eq(tok[1])):
                raise Unsupported("generator seeded in a loop")
            self.rng_loop = True
            st = z3.Function(f"rngstate!{tok[1]}", z3.IntSort(), z3.IntSort())
            return ("next", init, "loop", (st(zint(m)),))
        if kind == "int":
            P = tok[1]
            if not is_int(F):
                F = num(F)
                if occurs_num(F, P):
                    raise Unsupported("integer turned into a number")
                raise Unsupported("integer rebound to a float")
            D = simp(zint(F) - P)
            if isinstance(D, z3.ExprRef) and (occurs(P, D)):
                D2 = solve_div(F, P)
                if D2 is None:
                    return self.close_sign(init, F, P, k, perm, m, syms)
                D = D2
            if depends(D, syms, skip=P):
                raise Unsupported("coupled recurrence")
            if isinstance(D, int):
                cnt = zint(m) if perm is None else zint(factorial(m))
                return simp(zint(init) + D * cnt)
            dn = int_num(zint(D))
            tot = bind(k, 0, m, dn) if perm is None else bind_perm(perm, m, dn)
            if perm is None and not any(occurs(k, c) for c in [zint(D)]):
                return simp(zint(init) + zint(D) * zint(m))
            return simp(zint(init) + opaque_int("isum", (tot,)))
        if kind == "bool":
            P = tok[1]
            F = zbool(F)
            t1, f1 = simp(z3.substitute(F, (P, z3.BoolVal(True)))), simp(z3.substitute(F, (P, z3.BoolVal(False))))
            if perm is not None or depends(t1, syms) or depends(f1, syms):
                raise Unsupported("boolean recurrence")
            j = fresh("j")
            if t1 is True:
                if f1 is True:
                    return simp(Or(init, zint(m) >= 1))
                if f1 is False:
                    return init
                return simp(Or(init, z3.Exists([j], z3.And(j >= 0, j < zint(m), zbool(z3.substitute(zbool(f1), (k, j)))))))
            if f1 is False:
                return simp(And(init, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(m)), zbool(z3.substitute(zbool(t1), (k, j)))))))
            raise Unsupported("boolean recurrence")
        if kind == "num":
            if not is_scalar(F):
                raise Unsupported("number rebound to an array")
            return self.close_num(num(init), num(F), tok[1], (), k, perm, m, syms)
        if kind == "arr":
            if not isinstance(F, AV) or F.ndim != init.ndim or not all(same(a, b) or valid(self.pc, zint(a) == zint(b)) for a, b in zip(F.shape, init.shape)):
                raise Unsupported("array changes shape in the loop")
            return self.close_arr(init, F, tok[1], k, perm, m, syms, own)
        raise Unsupported("carried value")

    def close_several(self, init, vs, k, perm, m, syms):
        """the same number of items appended in every iteration"""
        if perm is not None or any(isinstance(v, Poison) or depends(v, syms) for v in vs) or not (isinstance(init.length, int) and init.length == 0):
            raise Unsupported("several appends per iteration")
        return self.repeated(vs, k, m)

    def repeated(self, vs, k, m):
        """the items vs(0), vs(1), .. vs(m - 1), one after the other"""
        c = len(vs)

        def at(j):
            q, r = simp(zint(j) / c), simp(zint(j) % c)
            out = [subst_val(v, [(k, zint(q))]) for v in vs]
            if isinstance(r, int):
                return out[r]
            x = out[-1]
            for i in range(c - 2, -1, -1):
                x = merge_val(simp(zint(r) == i), out[i], x)
            return x
        return LV(None, simp(c * zint(m)), at)

    def close_sign(self, init, F, P, k, perm, m, syms):
        """integer multiplied by a sign in every iteration: the parity of the number of changes"""
        f1 = simp(z3.substitute(zint(F), (P, z3.IntVal(1))))
        if depends(f1, syms) or perm is not None or not valid(self.pc, z3.And(zint(F) == P * zint(f1), z3.Or(zint(f1) == 1, zint(f1) == -1))):
            raise Unsupported("integer recurrence")
        cnt = sign_exponent(f1)
        if cnt is None:
            cnt = z3.If(zint(f1) == -1, z3.IntVal(1), z3.IntVal(0))
        tot = bind(k, 0, m, int_num(zint(cnt)))
        return simp(zint(init) * z3.If(opaque_int("isum", (tot,)) % 2 == 0, z3.IntVal(1), z3.IntVal(-1)))

    def close_num(self, init, F, P, idx, k, perm, m, syms):
        c, D = split_linear(F, P, idx)
        if depends(c, syms) or depends(D, syms):
            raise Unsupported("coupled recurrence")
        cc = c.const()
        if cc is not None and cc == GQ(1):
            tot = bind(k, 0, m, D) if perm is None else bind_perm(perm, m, D)
            return (init + tot).with_kind(kmax(init.kind, F.kind))
        if cc is not None and cc.zero():
            raise Unsupported("value of the last iteration")
        if D.is_zero() or not N.simplify(D, self.pc).terms:
            if perm is not None:
                raise Unsupported("product over permutations")
            return init * prod(k, m, c)
        raise Unsupported("linear recurrence")

    def close_arr(self, init, F, P, k, perm, m, syms, own=None):
        vs = [fresh("x") for _ in init.shape]
        rng = [z3.And(v >= 0, v < zint(d)) for v, d in zip(vs, init.shape)]
        f = F.at(*vs)
        kind = init.kind if F.kind == init.kind else kmax(init.kind, F.kind)
        if init.kind == "b":
            raise Unsupported("boolean array in a loop")
        f = num(f)
        if not occurs_num(f, P):
            raise Unsupported("array replaced in every iteration")
        same_, other = [], []
        for t in f.terms:
            at = [a for a in t.atoms if a.sym is P]
            if not at:
                other.append(t)
            elif len(at) == 1 and not at[0].conj and all(x.eq(y) for x, y in zip(at[0].idx, vs)):
                same_.append(Term(t.coef, t.binders, t.guards, [a for a in t.atoms if a is not at[0]]))
            else:
                if own is None and perm is None:
                    return self.close_linear(init, f, vs, P, k, m, syms, kind)
                raise Unsupported("array recurrence")
        c, D = Num(N.merge(same_), "c"), Num(N.merge(other), f.kind)
        c = N.simplify(c, self.pc + rng)
        if depends(D, syms) or depends(c, syms):
            raise Unsupported("coupled array recurrence")
        cc = c.const()
        if cc is not None and cc == GQ(1) and own is None:
            def elem(*i):
                d = D.subst(list(zip(vs, i)))
                return init.at(*i) + (bind(k, 0, m, d) if perm is None else bind_perm(perm, m, d))
            return AV(init.shape, kind, elem)
        # written cells: c is an indicator (coefficient 1 or 0) of the cells left alone
        if perm is not None:
            raise Unsupported("array writes over permutations")
        if any(t.binders or t.atoms or t.coef != GQ(1) for t in c.terms):
            if D.is_zero():
                raise Unsupported("array scaled in a loop")
            raise Unsupported("array recurrence")
        keep = simp(Or(*[And(*t.guards) if t.guards else True for t in c.terms])) if c.terms else False
        # disjoint guards
        W = zbool(simp(Not(keep)))
        if own is not None and not valid(self.pc + rng + [k >= 0, k < zint(m), W], vs[0] == own):
            raise Unsupported("coupled array recurrence")
        if len(c.terms) > 1:
            gs = [zbool(And(*t.guards)) for t in c.terms]
            for a in range(len(gs)):
                for b in range(a):
                    if not unsat(self.pc + rng + [gs[a], gs[b]]):
                        raise Unsupported("overlapping writes")
        k2 = fresh("k")
        W2 = z3.substitute(W, (k, k2))
        inj = unsat(self.pc + rng + [k >= 0, k < zint(m), k2 >= 0, k2 < zint(m), W, W2, k != k2])
        if not inj:
            # every iteration writes the same value: harmless when the value does not depend on k
            raise Unsupported("cells written more than once")

        hitc = exists_index(W, k, m)

        def elem(*i):
            sb = list(zip(vs, i))
            d = D.subst(sb)
            ini = init.at(*i)
            # D already carries its guards; the initial value survives where no iteration writes
            r = bind(k, 0, m, d)
            if ini.terms:
                r = r + ini.guard(simp(Not(z3.substitute(zbool(hitc), *sb))))
            return r
        return AV(init.shape, kind, elem)


    def close_linear(self, init, f, vs, P, k, m, syms, kind):
        """x_{k+1} = M_k x_k for linear maps M_k of whole arrays: iter(m, M, x_0), an opaque function of the maps and the start"""
        ys = [fresh("y") for _ in vs]
        out = []
        for t in f.terms:
            at = [a for a in t.atoms if a.sym is P]
            if len(at) != 1 or at[0].conj or at[0].fidx:
                raise Unsupported("array recurrence")
            t = t.refresh()
            a = next(a for a in t.atoms if a.sym is P)
            binders, guards, rest = list(t.binders), list(t.guards), [b for b in t.atoms if b is not a]
            pairs = []
            for y, e, d in zip(ys, a.idx, init.shape):
                b = next((b for b in binders if not b.perm and b.var.eq(zint(e)) and same(b.lo, 0) and self.same_dim(simp(b.hi), d)), None)
                if b is not None:
                    binders.remove(b)
                    pairs.append((b.var, y))
                else:
                    guards.append(z3.simplify(y == zint(e)))
            u = Num(N.merge([Term(t.coef, binders, guards, rest)]), kind)
            out += u.subst(pairs).terms if pairs else u.terms
        ker = Num(N.merge(out), kind)
        if depends(ker, syms):
            raise Unsupported("coupled array recurrence")
        d = len(vs)
        M = Lam(1 + 2 * d, lambda *x: ker.subst(list(zip([k] + vs + ys, [zint(e) for e in x]))), (m,) + init.shape + init.shape)
        x0 = Lam(d, lambda *x: num(init.at(*x)), init.shape)
        return AV(init.shape, kind, lambda *i: opaque("iter", (zint(m), M, x0), tuple(zint(e) for e in i), kind=kind, real=kind != "c"))


def exists_index(w, k, m):
    """exists 0 <= k < m with w(k), without a quantifier where an equality of w determines k"""
    w = z3.simplify(zbool(w))
    if z3.is_or(w):
        return simp(Or(*[exists_index(c, k, m) for c in w.children()]))
    gs = list(N.conjuncts(w))
    dep = [g for g in gs if occurs(k, g)]
    if not dep:
        return simp(And(*gs, zint(m) >= 1))
    for g in gs:
        s = N.solve_eq(g, k)
        if s is not None:
            hit, used = s, (g,)
            break
    else:
        s = N.solve_divmod(gs, k)
        if s is None:
            for g in gs:
                h = nnf(g) if occurs(k, g) else g
                if z3.is_or(h):
                    rest = [x for x in gs if x is not g]
                    return simp(Or(*[exists_index(z3.And(*rest, c), k, m) for c in h.children()]))
                if not h.eq(g) and z3.is_and(h):
                    return exists_index(z3.And(*[x for x in gs if x is not g], *h.children()), k, m)
            j = fresh("j")
            return z3.Exists([j], z3.And(j >= 0, j < zint(m), z3.substitute(w, (k, j))))
        hit, used = s[:2], s[2]
    e, extra = hit
    rest = [z3.substitute(g, (k, e)) for g in gs if not any(g is u for u in used)]
    return simp(And(*rest, *extra, e >= 0, e < zint(m)))


def nnf(g, neg=False):
    """negations moved inside conjunctions and disjunctions"""
    if z3.is_not(g):
        return nnf(g.children()[0], not neg)
    if z3.is_and(g) or z3.is_or(g):
        cs = [nnf(c, neg) for c in g.children()]
        return z3.And(*cs) if z3.is_and(g) != neg else z3.Or(*cs)
    return z3.Not(g) if neg else g


# ------------------------------------------------------------------------------------------------------------ helpers
KO = N.KORD


class PH:
    def __init__(self):
        self.names, self.syms, self.same, self.poison = {}, [], set(), set()


class Enum:
    def __init__(self, it, start=0):
        self.it, self.start = it, start


class Zip:
    def __init__(self, its):
        self.its = its


class DictV:
    def __init__(self, d):
        self.d = d

    def get(self, m, k):
        if k in self.d:
            return self.d[k]
        raise Unsupported("dictionary")


DIGITB = z3.Function("digitb", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


def digitb(b, p, n, x):
    """p-th (most significant first) of the n digits of x in base b"""
    if b == 2:
        return digit(p, n, x)
    e = DIGITB(z3.IntVal(b), zint(p), zint(n), zint(x))
    N.add_fact(z3.And(e >= 0, e < b))
    return e


class ItProd:
    """itertools.product(items, repeat=n)"""

    def __init__(self, items, n):
        self.items, self.n = items, n

    def length(self):
        b = len(self.items)
        if b & (b - 1):
            raise Unsupported("product of a list whose length is no power of two")
        return pow2(simp(zint(self.n) * (b.bit_length() - 1)))

    def at(self, k):
        lv = LV(self.items)
        return LV(None, self.n, lambda i: lv.at(digitb(len(self.items), i, self.n, k)))


class Prod2:
    """itertools.product(a, b) of two ranges"""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def lv(self):
        import npm
        n1, n2 = self.a.length(), self.b.length()
        return LV(None, simp(zint(n1) * zint(n2)), lambda k: (self.a.at(npm.idiv(k, n2)), self.b.at(npm.imod(k, n2))))


def own_break(body):
    """does the loop body leave its own loop by break?"""
    for s in body:
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, ast.If) and (own_break(s.body) or own_break(s.orelse)):
            return True
        if isinstance(s, (ast.With, ast.Try)):
            return any(isinstance(x, ast.Break) for x in ast.walk(s))
    return False


class IntDiv:
    """quotient of two integers as a float; recognised by int(), comparisons with int(...)"""
    @staticmethod
    def make(a, b):
        x, y = simp(a), simp(b)
        if isinstance(x, int) and isinstance(y, int):
            return num(N.Fr(x, y)).with_kind("f")
        if isinstance(y, int):
            r = num(x) * num(N.Fr(1, y))
            return r.with_kind("f")
        return opaque("idiv", (zint(x), zint(y)), real=True)


def sel(i, its):
    """its[i] for a symbolic index"""
    i = simp(i)
    if isinstance(i, int):
        return its[i]
    allb = all(is_bool(x) for x in its)
    if allb:
        r = its[-1]
        for j in range(len(its) - 2, -1, -1):
            r = merge_val(i == j, its[j], r)
        return r
    r = num(0)
    for j, x in enumerate(its):
        r = r + num(x).guard(simp(i == j))
    k = kmax(*[kind_of(x) for x in its])
    return r.with_kind(k)


def tonum(x):
    return num(x)


def tobool(x):
    return x if is_bool(x) else simp(cmp("!=", num(x), 0))


def scal(x, kind):
    """element of a 1-D array as a python-level scalar"""
    if kind == "i":
        r = as_int_opt(x)
        if r is not None:
            return r
    return x


def castnum(x, k):
    """value stored into an array of kind k"""
    if KO[x.kind] <= KO[k]:
        return x.with_kind(k)
    if x.kind == "c" and k == "f":
        return x.real()
    if k == "i":
        c = x.const()
        if c is not None and c.re.denominator == 1:
            return Num(num(int(c.re)).terms, "i")
        if as_int_opt(x) is not None:
            return x.with_kind("i")
        if all(t.coef.im == 0 and t.coef.re.denominator == 1 and all(a.sym is INTSYM for a in t.atoms) for t in x.terms):
            return x.with_kind("i")
    return opaque("trunc", (x,), real=True).with_kind(k) if k == "i" else x.with_kind(k)


def cast(av, k):
    if av.kind == k:
        return av.at
    return lambda *i: castnum(num(av.at(*i)), k)


def as_int(x):
    r = as_int_opt(x)
    if r is None:
        raise Unsupported("index is not an integer")
    return r


def as_int_opt(x):
    """z3 integer / python int of an integer-valued number"""
    if isinstance(x, bool):
        return int(x)
    if is_int(x):
        return simp(x)
    if isinstance(x, z3.BoolRef):
        return int_of_bool(x)
    if isinstance(x, float) and x == int(x):
        return int(x)
    if isinstance(x, Num):
        tot = z3.IntVal(0)
        for t in x.terms:
            if t.coef.im != 0 or t.coef.re.denominator != 1 or t.binders or any(a.sym is not INTSYM for a in t.atoms):
                return intval_atom(x)
            e = z3.IntVal(int(t.coef.re))
            for a in t.atoms:
                e = e * a.idx[0]
            if t.guards:
                e = z3.If(z3.And(*t.guards), e, z3.IntVal(0))
            tot = tot + e
        return simp(tot)
    return None


def intval_atom(x):
    """integer-kind opaque entries as z3 integers"""
    if x.kind != "i":
        return None
    tot = z3.IntVal(0)
    for t in x.terms:
        if t.coef.im != 0 or t.coef.re.denominator != 1 or t.binders:
            return opaque_int("ival", (x,))
        e = z3.IntVal(int(t.coef.re))
        for a in t.atoms:
            if a.sym is INTSYM:
                e = e * a.idx[0]
            else:
                f = a.sym.attrs.get("asint")
                if f is None:
                    f = z3.Function(f"I#{a.sym.name}#{a.sym.id}", *([z3.IntSort()] * a.sym.arity), z3.IntSort()) if a.sym.arity else z3.Int(f"I#{a.sym.name}#{a.sym.id}")
                    a.sym.attrs["asint"] = f
                e = e * (f(*a.idx) if a.idx else f)
        if t.guards:
            e = z3.If(z3.And(*t.guards), e, z3.IntVal(0))
        tot = tot + e
    return simp(tot)


def int_of_bool(b):
    return int(b) if isinstance(b, bool) else z3.If(b, z3.IntVal(1), z3.IntVal(0))


def inf(x):
    return isinstance(x, float) and (x != x or abs(x) == float("inf"))


def cmp_inf(o, a, b):
    if inf(a) and inf(b):
        return {"==": a == b, "!=": a != b}.get(o) if o in ("==", "!=") else False
    v = a if inf(a) else b
    if o == "==":
        return False
    if o == "!=":
        return True
    big = v > 0
    first = inf(a)
    lt = (not big) if first else big
    return lt if o in ("<", "<=") else not lt


def scale(a, c, k=None):
    k = k or kmax(a.kind, c.kind, "i")
    p = None
    if a.prov is not None and a.prov[0] == "chain" and isinstance(a.prov[2], Num):
        p = ("chain", a.prov[1], a.prov[2] * c)
    return AV(a.shape, k, lambda *i: num(a.at(*i)) * c, p)


def pure(nodes):
    for e in nodes:
        for n in ast.walk(e):
            if isinstance(n, (ast.NamedExpr, ast.Yield, ast.Await, ast.Lambda, ast.ListComp)):
                return False
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "pop", "sort", "add", "discard", "seed"):
                return False
    return True


def assigned(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            if isinstance(n, ast.FunctionDef):
                out.add(n.name)
    # names local to comprehensions and nested functions do not matter, a superset is sound
    return out


def targets(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def wide(v, k):
    return v if k is None else num(int_of_bool(v) if is_bool(v) else v)


def make_ph(ph, v, nm):
    """placeholder for a carried value: (token, value)"""
    if isinstance(v, AV):
        if v.kind == "b":
            raise Unsupported("boolean array in a loop")
        s = Sym("ph_" + nm, v.ndim, real=v.kind != "c")
        ph.syms.append(s)
        return ("arr", s), AV(v.shape, v.kind, lambda *i: Num([Term(ONE, (), (), [Atom(s, i)])], v.kind))
    if isinstance(v, LV):
        tok = object()

        def no(k):
            raise Unsupported("read of a list that grows in the loop")
        return ("list", tok), LV(None, fresh("len"), no, ("ph", tok, []))
    if is_bool(v):
        p = z3.Bool(f"ph_{nm}!{next(N._fresh)}")
        ph.syms.append(p)
        return ("bool", p), p
    if is_int(v):
        p = fresh("ph_" + nm)
        ph.syms.append(p)
        return ("int", p), p
    if isinstance(v, tuple):           # state of a random generator
        p = fresh("ph_" + nm)
        ph.syms.append(p)
        return ("rng", p), ("rng", p)
    k = kind_of(v)
    s = Sym("ph_" + nm, 0)
    ph.syms.append(s)
    return ("num", s), Num([Term(ONE, (), (), [Atom(s)])], k)


def freeze_in(m, p, v):
    h = m.heap
    m.heap = p["heap"]
    try:
        return m.freeze(v)
    finally:
        m.heap = h


def want_chain(init, finit, F, m):
    if is_scalar(finit) and isinstance(F, AV):
        return True
    if isinstance(finit, AV) and isinstance(F, AV) and F.prov is not None and F.prov[0] in ("chain", "prechain"):
        return not all(same(a, b) for a, b in zip(F.shape, finit.shape))
    if isinstance(finit, AV) and isinstance(F, AV) and (F.ndim != finit.ndim or not all(same(a, b) for a, b in zip(F.shape, finit.shape))):
        # kron of a placeholder without chain form
        return finit.prov is not None and finit.prov[0] == "chain" or all(same(d, 2) for d in finit.shape)
    return False


def close_chain(init, F, tok, k, m, syms):
    from npm import as_chain, chain_av
    if isinstance(F, ChainMerge):
        raise Unsupported("chain")
    if isinstance(F, AV) and F.prov is not None and F.prov[0] == "dsum" and F.prov[2] is tok:
        return close_dsum(init, F.prov[1], k, m, syms)
    if not isinstance(F, AV) or F.prov is None or F.prov[0] not in ("chain", "prechain") or F.prov[2] is not tok:
        raise Unsupported("array changes shape in the loop")
    segs = F.prov[1]
    ci = as_chain(init)
    if ci is None:
        raise Unsupported("kron chain from an array that is no chain")
    if len(segs) != 1 or not (isinstance(segs[0][0], int) and segs[0][0] == 1):
        raise Unsupported("kron chain")
    x = segs[0][1](0)
    if depends(x, syms):
        raise Unsupported("coupled chain")
    if F.prov[0] == "prechain":
        return chain_av(((simp(m), lambda p: subst_val(x, [(k, zint(m) - 1 - zint(p))])),) + tuple(ci[0]), ci[1])
    return chain_av(tuple(ci[0]) + ((simp(m), lambda p: subst_val(x, [(k, zint(p))])),), ci[1])


def close_dsum(init, items, k, m, syms):
    """init (+) x(0) (+) x(1) ... for 2 x 2 summands"""
    if len(items) != 1 or not isinstance(items[0], AV) or not all(same(d, 2) for d in init.shape + items[0].shape):
        raise Unsupported("direct sum of blocks that are not 2 x 2")
    x = items[0]
    if depends(x, syms):
        raise Unsupported("coupled direct sum")
    d = simp(2 * (zint(m) + 1))

    def elem(i, j):
        same_block = simp(zint(i) / 2 == zint(j) / 2)
        r, c = simp(zint(i) % 2), simp(zint(j) % 2)
        first = num(init.at(r, c)).guard(simp(zint(i) < 2))
        rest = num(subst_val(x, [(k, zint(simp(zint(i) / 2 - 1)))]).at(r, c)).guard(simp(zint(i) >= 2))
        return (first + rest).guard(same_block)
    return AV((d, d), kmax(init.kind, x.kind), elem)


class ChainMerge:
    pass


def sign_exponent(e):
    """c when e is literally If(c % 2 == 0, 1, -1)"""
    e = zint(e)
    if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE):
        return None
    g, a, b = e.children()
    if not (z3.is_int_value(a) and z3.is_int_value(b) and a.as_long() == 1 and b.as_long() == -1 and z3.is_eq(g)):
        return None
    for x, y in (g.children(), g.children()[::-1]):
        if z3.is_int_value(y) and y.as_long() == 0 and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(x.children()[1]) \
                and x.children()[1].as_long() == 2:
            return x.children()[0]
    return None


def solve_div(F, P):
    """F - P when P occurs only additively under If"""
    one, two = z3.substitute(zint(F), (P, z3.IntVal(0))), None
    d = z3.simplify(one)
    if unsat([zint(F) != P + d]):
        return simp(d)
    return None


def occurs_num(x, s):
    return depends(x, {s})


def split_linear(F, P, idx):
    c, d = [], []
    for t in F.terms:
        at = [a for a in t.atoms if a.sym is P]
        if not at:
            d.append(t)
        elif len(at) == 1 and not at[0].conj:
            c.append(Term(t.coef, t.binders, t.guards, [a for a in t.atoms if a is not at[0]]))
        else:
            raise Unsupported("non-linear recurrence")
    return N.simplify(Num(N.merge(c), "c"), []), Num(N.merge(d), F.kind)


def prod(k, m, c):
    """product over 0 <= k < m of c(k)"""
    if not any(occurs(k, g) for t in c.terms for g in list(t.guards) + [e for a in t.atoms for e in a.idx] + [x for b in t.binders for x in (b.lo, b.hi)]):
        if c.const() is not None and c.const() == GQ(1):
            return num(1)
    real = c.kind != "c" and all(a.sym.real for t in c.terms for a in t.atoms)
    r = opaque("prod", (zint(m), Lam(1, lambda p: c.subst([(k, zint(p))]), (m,))), real=real or c.is_sign(), kind=c.kind)
    if c.is_sign():
        x = N.to_real(r)
        N.add_fact(z3.Or(x == 1, x == -1))         # a product of signs is a sign
    return r


_declsym = {}


def depends(x, syms, skip=None):
    """does a value mention a placeholder (also inside the arguments of opaque symbols)?"""
    zs = [s for s in syms if isinstance(s, z3.ExprRef) and not (skip is not None and s.eq(skip))]
    ss = {s for s in syms if isinstance(s, Sym)}
    seen = set()

    def z(e):
        stack, ids = [e], set()
        while stack:
            t = stack.pop()
            if t.get_id() in ids:
                continue
            ids.add(t.get_id())
            if any(t.eq(p) for p in zs):
                return True
            if z3.is_quantifier(t):
                stack.append(t.body())
                continue
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and "#" in t.decl().name():
                s = sym_of_decl(t.decl().name())
                if s is not None and sym(s):
                    return True
            stack.extend(t.children())
        return False

    def sym(s):
        if s in ss:
            return True
        if s.id in seen:
            return False
        seen.add(s.id)
        if s.args is not None:
            return go(s.args)
        return False

    def go(v):
        if isinstance(v, Num):
            for t in v.terms:
                for b in t.binders:
                    if z(b.lo) or z(b.hi):
                        return True
                if any(z(g) for g in t.guards):
                    return True
                for a in t.atoms:
                    if sym(a.sym) or any(z(e) for e in a.idx):
                        return True
            return False
        if isinstance(v, z3.ExprRef):
            return z(v)
        if isinstance(v, AV):
            if any(go(d) for d in v.shape):
                return True
            if piece_of(v) is not None:
                p = v.prov[1]
                return any(go(n) for _, n, _ in p.binders) or (is_z3(p.guard) and z(p.guard)) or go(p.value)
            if v.prov is not None and v.prov[0] == "chain":
                q = fresh("y")
                return any(go(fn(q)) or go(ln) for ln, fn in v.prov[1]) or (isinstance(v.prov[2], Num) and go(v.prov[2]))
            return go(v.at(*[fresh("y") for _ in v.shape]))
        if isinstance(v, LV):
            if v.items is not None:
                return any(go(i) for i in v.items)
            if v.prov is not None and v.prov[0] in ("ph", "cat", "fcat"):
                return True
            if piece_of(v) is not None:
                p = v.prov[1]
                return any(go(n) for _, n, _ in p.binders) or (is_z3(p.guard) and z(p.guard)) or go(p.value)
            return go(v.length) or go(v.at(fresh("y")))
        if isinstance(v, (tuple, list)):
            return any(go(i) for i in v)
        if isinstance(v, Lam):
            return go(v.fn(*[fresh("y") for _ in range(v.arity)]))
        if isinstance(v, Poison):
            return True
        if isinstance(v, Rec):
            return any(go(i) for i in vars(v).values())
        return False
    return go(x)


def sym_of_decl(name):
    try:
        i = int(name.rsplit("#", 1)[1])
    except (ValueError, IndexError):
        return None
    return N.SYMS.get(i)


def close_filter(init, F, k, perm, m, syms):
    """a list extended under a condition, or in nested loops"""
    p = grown(F.prov)
    if p is False:
        raise Unsupported("several appends per iteration")
    if depends((p.guard if is_z3(p.guard) else 0, p.value, tuple(n for _, n, _ in p.binders)), syms):
        raise Unsupported("appended value depends on carried state")
    kk = k if perm is None else perm
    q = Piece(((kk, m, perm is not None),) + p.binders, p.guard, p.value)
    if init.prov is not None and init.prov[0] == "ph":
        return LV(None, fresh("len"), init.elem, ("fcat", init.prov[1], q))
    if init.items is not None and not init.items:
        return q.lv()
    raise Unsupported("list that is not empty before the loop")


def cat_elem(m, a, b, k):
    la = zint(a.length)
    k = simp(k)
    if isinstance(k, int) and isinstance(a.length, int):
        return a.at(k) if k < a.length else b.at(k - a.length)
    kz = zint(k)
    if valid(m.pc, kz < la):
        return a.at(k)
    if valid(m.pc, kz >= la):
        return b.at(simp(kz - la))
    x = a.at(k) if not (a.items is not None and not a.items) else None
    y = b.at(simp(kz - la))
    if x is None:
        return y
    return merge_val(kz < la, m.freeze(x), m.freeze(y))
