"""Effect contracts, checked function by function over the real source by abstract interpretation of the AST.

For functions outside the reach of the symbolic executor (networkx graphs, sets, dictionaries, while loops) two kinds of clause
are still decided for all inputs:
  modifies nothing (or only the named parameters): no object reachable from an argument, a module variable or a default value is
      written to on any path;
  depends only on its arguments: with a seed, neither the result nor the path taken depends on the state in which the global
      random generators are entered (noninterference), and without one nothing is re-seeded.
Objects are allocation sites; everything reachable from an argument is that argument's object.  Heap and taints only grow, so loops
reach a fixed point.  Names that are not in the tables below (methods, library functions) give up the function: no verdict."""
import ast
import os

from val import Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "src", "ff")

MUTATORS = set("""append extend insert remove pop clear sort reverse add discard update setdefault popitem add_edge add_edges_from add_node
add_nodes_from remove_edge remove_edges_from remove_node remove_nodes_from add_weighted_edges_from fill resize put itemset partition setflags
intersection_update difference_update symmetric_difference_update add_half_edge __setitem__""".split())
READERS = set("""nodes edges degree neighbors adjacency is_directed is_multigraph number_of_nodes number_of_edges has_edge has_node order size
items keys values index count get copy toarray todense astype conj conjugate flatten dot sum mean max min any all tolist lower upper format
join split startswith endswith strip replace union intersection difference issubset issuperset isdisjoint symmetric_difference to_state_vector
nonzero round argsort cumsum trace prod std var item to_undirected to_directed traverse_face neighbors_cw_order get_edge_data bit_length
isnumeric isdigit isalpha title capitalize lstrip rstrip splitlines zfill find rfind encode most_common next_face_half_edge edge_subgraph""".split())
VIEWS = set("subgraph transpose reshape ravel view squeeze swapaxes diagonal real imag T flat adj A".split())
NP_VIEWS = set("""asarray asanyarray reshape ravel real imag diag diagonal transpose squeeze atleast_1d atleast_2d swapaxes moveaxis
broadcast_to triu_ flipud fliplr flip rot90 expand_dims ascontiguousarray conj conjugate array_split split""".split())
NP_WRITES = {"fill_diagonal": 0, "copyto": 0, "put": 0, "place": 0, "putmask": 0, "put_along_axis": 0}
NX_WRITES = {"set_node_attributes": 0, "set_edge_attributes": 0, "add_path": 0, "add_cycle": 0, "add_star": 0}
NX_RANDOM = {"gnm_random_graph": "py", "gnp_random_graph": "py", "erdos_renyi_graph": "py", "fast_gnp_random_graph": "py", "dense_gnm_random_graph": "py",
             "spring_layout": "np", "fruchterman_reingold_layout": "np", "random_layout": "np", "random_tree": "py", "random_regular_graph": "py",
             "random_labeled_tree": "py", "barabasi_albert_graph": "py", "watts_strogatz_graph": "py"}
BUILTINS = set("""len range min max abs sum sorted list tuple set dict frozenset enumerate zip map filter reversed isinstance print round int float complex bool str
any all type repr iter next hash pow divmod chr ord format id callable getattr hasattr slice""".split())
FRESH_CONTAINER = set("list tuple set dict frozenset sorted enumerate zip map filter reversed iter next max min sum getattr".split())
EXC = set("ValueError TypeError AssertionError RuntimeError IndexError KeyError Exception NotImplementedError ArithmeticError ZeroDivisionError ImportError StopIteration".split())


class V:
    """objects it may be, taint, constant (None: unknown; ('c', x): the constant x; 'some': not None)"""
    __slots__ = ("objs", "taint", "const", "approx", "fn")

    def __init__(self, objs=frozenset(), taint=frozenset(), const=None, approx=False, fn=None):
        self.objs, self.taint, self.const, self.approx, self.fn = frozenset(objs), frozenset(taint), const, approx, fn

    def key(self):
        return (self.objs, self.taint, self.const, self.approx, self.fn if isinstance(self.fn, (str, frozenset)) else id(self.fn) if self.fn is not None else None)

    def join(self, o):
        if o is None:
            return self
        c = self.const if self.const == o.const else ("some" if _some(self.const) and _some(o.const) else None)
        return V(self.objs | o.objs, self.taint | o.taint, c, self.approx or o.approx, self.fn if self.fn is o.fn or self.fn == o.fn else None)

    def tainted(self, t):
        return V(self.objs, self.taint | t, self.const, self.approx, self.fn) if t - self.taint else self


def _some(c):
    return c == "some" or isinstance(c, tuple) and c[1] is not None


class St:
    """one program point: variables, generator states, control taint"""

    def __init__(self, env, rng, pc):
        self.env, self.rng, self.pc = env, rng, pc

    def copy(self):
        return St(dict(self.env), dict(self.rng), self.pc)

    def key(self):
        return (tuple(sorted((k, v.key()) for k, v in self.env.items())), tuple(sorted(self.rng.items(), key=lambda x: x[0])), self.pc)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    env = {}
    for k in set(a.env) | set(b.env):
        x, y = a.env.get(k), b.env.get(k)
        env[k] = x.join(y) if x is not None else y
    return St(env, {k: a.rng.get(k, frozenset()) | b.rng.get(k, frozenset()) for k in set(a.rng) | set(b.rng)}, a.pc | b.pc)


class Module:
    def __init__(self, name):
        self.name = name
        self.tree = ast.parse(open(os.path.join(PKG, name + ".py")).read())
        self.funcs, self.imports, self.consts, self.stars = {}, {}, {}, []
        for n in self.tree.body:
            if isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    src = ("ff." + n.module if n.module else "ff") if n.level else n.module
                    if a.name == "*":
                        self.stars.append(src)
                    else:
                        self.imports[a.asname or a.name] = f"{src}.{a.name}"
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.consts[n.target.id] = n.value

    def resolve(self, name):
        if name in self.funcs:
            return f"ff.{self.name}.{name}"
        if name in self.imports:
            return self.imports[name]
        for s in self.stars:
            if s.startswith("ff.") and s.count(".") == 1:
                m = module(s[3:])
                if name in m.funcs or name in m.imports:
                    return m.resolve(name)
        return None


_mods = {}


def module(name):
    if name not in _mods:
        _mods[name] = Module(name)
    return _mods[name]


def ff_function(path):
    """(module, node) of ff.mod.name or ff.name"""
    p = path.split(".")
    if p[0] != "ff" or len(p) not in (2, 3):
        return None
    for mod in ([p[1]] if len(p) == 3 else ["ff_lib", "ff_utils", "ff_combinatorics", "ff_graph_theory", "ff_distance_measures", "ff_random_states"]):
        if os.path.exists(os.path.join(PKG, mod + ".py")):
            m = module(mod)
            if p[-1] in m.funcs:
                return m, m.funcs[p[-1]]
    return None


class Run:
    def __init__(self):
        self.heap, self.htaint, self.fns = {}, {}, {}
        self.writes = []               # (object, exact, line)
        self.seeds = []                # generators that were seeded with something that is not None
        self.stack = []
        self.version = 0

    # ---------------------------------------------------------------------------------------------------------- heap
    def alloc(self, node, cont=frozenset(), taint=frozenset(), tag="O"):
        o = (tag, id(node), tuple(id(f) for f in self.stack[-3:]))
        self.grow(o, cont, taint)
        return o

    def grow(self, o, cont, taint):
        c, t = self.heap.setdefault(o, set()), self.htaint.setdefault(o, set())
        if not set(cont) <= c or not set(taint) <= t:
            c |= set(cont)
            t |= set(taint)
            self.version += 1

    def contents(self, v):
        r = set()
        for o in v.objs:
            r |= self.heap.get(o, set())
        return frozenset(r)

    def deep(self, v):
        """taint of a value and of everything in it"""
        t, todo, seen = set(v.taint), list(v.objs), set()
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            seen.add(o)
            t |= self.htaint.get(o, set())
            todo += list(self.heap.get(o, ()))
        return frozenset(t)

    def write(self, st, v, node, new=None):
        for o in v.objs:
            if o[0] in "PGD":
                self.writes.append((o, len(v.objs) == 1 and not v.approx, getattr(node, "lineno", 0)))
            self.grow(o, new.objs if new else (), (self.deep(new) if new else frozenset()) | st.pc)

    # ---------------------------------------------------------------------------------------------------------- calls
    def call(self, mod, node, args, kw, st):
        """a function of the package, inlined; returns the value, the state is updated"""
        if node.decorator_list:
            raise Unsupported("decorated function")
        if any(f is node for f in self.stack):
            t = st.pc
            for v in list(args) + list(kw.values()):
                t |= self.deep(v)
            for k in st.rng:
                t |= st.rng[k]
            return V({self.alloc(node)}, t)          # recursive call: by the contract under proof (fresh result, nothing written)
        if len(self.stack) > 12:
            raise Unsupported("call depth")
        a = node.args
        if a.vararg or a.kwarg:
            raise Unsupported("variadic function")
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        for k, v in zip(names, args):
            env[k] = v
        if len(args) > len(names):
            raise Unsupported("arguments")
        env.update(kw)
        for k, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if k not in env:
                if isinstance(d, ast.Constant):
                    env[k] = V(const=("c", d.value))
                elif isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant):
                    env[k] = V(const="some")
                else:
                    o = ("D", node.name, k)
                    self.grow(o, (), ())
                    env[k] = V({o}, const="some")
        for k in names + [x.arg for x in a.kwonlyargs]:
            if k not in env:
                raise Unsupported(f"argument {k} missing")
        f = Frame(self, mod, node)
        self.stack.append(node)
        try:
            inner = St(env, dict(st.rng), st.pc)
            end = f.block(node.body, inner)
            if end is not None:
                f.ret(V(const=("c", None)), end)
        finally:
            self.stack.pop()
        if f.result is None:
            raise Bottom()
        st.rng = f.rng
        st.pc = st.pc
        return f.result


class Bottom(Exception):
    pass


class Frame:
    def __init__(self, run, mod, node):
        self.r, self.mod, self.node = run, mod, node
        self.result, self.rng = None, {}
        self.loops = []
        self.imports = {}

    def ret(self, v, st):
        v = v.tainted(st.pc)
        self.result = v.join(self.result) if self.result is not None else v
        self.rng = {k: self.rng.get(k, frozenset()) | st.rng.get(k, frozenset()) for k in set(self.rng) | set(st.rng)}

    # ---------------------------------------------------------------------------------------------------------- statements
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            try:
                st = self.stmt(s, st)
            except Bottom:
                return None
        return st

    def stmt(self, s, st):
        if isinstance(s, ast.Expr):
            self.ev(s.value, st)
            return st
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            if not isinstance(s, ast.Pass):
                raise Unsupported("global")
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            if isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.imports[a.asname or a.name] = f"{'ff.' if s.level else ''}{s.module}.{a.name}"
            else:
                for a in s.names:
                    self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            return st
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, st)
            for t in s.targets:
                self.bind(t, v, st)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, st), st)
            return st
        if isinstance(s, ast.AugAssign):
            v = self.ev(s.value, st)
            if isinstance(s.target, ast.Name):
                old = self.name(s.target, st)
                if old.objs:
                    self.r.write(st, V(old.objs, old.taint, None, True), s, v)      # (a number is not written to)
                st.env[s.target.id] = V(old.objs, old.taint | v.taint | st.pc, None, old.approx)
            else:
                old = self.ev(s.target.value, st)
                if isinstance(s.target, ast.Subscript):
                    v = v.tainted(self.index(s.target.slice, st))
                self.r.write(st, old, s, v)
                inner = self.r.contents(old) - old.objs
                if inner:
                    self.r.write(st, V(inner, approx=True), s, v)
            return st
        if isinstance(s, ast.Return):
            self.ret(self.ev(s.value, st) if s.value is not None else V(const=("c", None)), st)
            return None
        if isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc, st)
            return None
        if isinstance(s, ast.Assert):
            v, b = self.cond(s.test, st)
            if s.msg is not None:
                self.ev(s.msg, st.copy())
            return None if b is False else self.after(st, v)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.r.write(st, self.ev(t.value, st), s)
                elif not isinstance(t, ast.Name):
                    raise Unsupported("del")
            return st
        if isinstance(s, ast.If):
            v, b = self.cond(s.test, st)
            t = self.r.deep(v)
            outs = []
            for body, take in ((s.body, b is not False), (s.orelse, b is not True)):
                if take:
                    x = st.copy()
                    x.pc |= t if b is None else frozenset()
                    self.narrow(s.test, body is s.body, x)
                    outs.append(self.block(body, x))
            r = None
            for x in outs:
                r = join(r, x)
            if r is not None:
                leaves = any(x is None for x in outs) or any(isinstance(y, (ast.Break, ast.Continue, ast.Return, ast.Raise)) for z in s.body + s.orelse for y in ast.walk(z))
                r.pc = st.pc | (t if leaves and b is None else frozenset())
            return r
        if isinstance(s, (ast.While, ast.For)):
            return self.loop(s, st)
        if isinstance(s, ast.Break):
            self.loops[-1][0].append(st)
            return None
        if isinstance(s, ast.Continue):
            self.loops[-1][1].append(st)
            return None
        if isinstance(s, ast.FunctionDef):
            st.env[s.name] = V(fn=(s, st))
            return st
        if isinstance(s, ast.Try):
            x = st.copy()
            a = self.block(s.body, st)
            if a is not None:
                a = self.block(s.orelse, a)
            mid = join(x, a)
            for h in s.handlers:
                y = mid.copy()
                if h.name:
                    y.env[h.name] = V()
                a = join(a, self.block(h.body, y))
            return self.block(s.finalbody, a) if a is not None else None
        raise Unsupported(f"statement {type(s).__name__}")

    def after(self, st, v):
        st.pc |= self.r.deep(v)
        return st

    def loop(self, s, st):
        if isinstance(s, ast.For):
            itv = self.ev(s.iter, st)
            t0 = self.r.deep(itv)
        exits = []
        for _ in range(40):
            k0, v0 = st.key(), self.r.version
            self.loops.append(([], []))
            x = st.copy()
            if isinstance(s, ast.For):
                t = t0
                self.bind(s.target, self.element(itv), x)
            else:
                v, b = self.cond(s.test, x)
                t = self.r.deep(v)
                if b is not True:
                    exits.append(x.copy())
            x.pc |= t
            e = self.block(s.body, x)
            br, co = self.loops.pop()
            for y in co:
                e = join(e, y)
            exits += br
            pc = st.pc
            if e is not None:
                st = join(st, e)
            for y in br:
                pc |= y.pc
            st.pc = pc | t | (e.pc if e is not None else frozenset())
            if st.key() == k0 and self.r.version == v0:
                break
        else:
            raise Unsupported("loop without a fixed point")
        r = self.block(s.orelse, st.copy()) if isinstance(s, ast.For) or not exits else None
        for y in exits:
            r = join(r, y)
        return r

    # ---------------------------------------------------------------------------------------------------------- binding
    def bind(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v.tainted(st.pc)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x.value if isinstance(x, ast.Starred) else x, self.element(v), st)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            self.r.write(st, base, t, v.tainted(self.index(t.slice, st)))
        elif isinstance(t, ast.Attribute):
            self.r.write(st, self.ev(t.value, st), t, v)
        else:
            raise Unsupported("assignment target")

    def element(self, v):
        """something in the container, or a view of the array"""
        c = self.r.contents(v)
        keep = {o for o in v.objs if o[0] in "PGD" or ("arr",) == o[:0]}
        t = v.taint
        for o in v.objs:
            t |= frozenset(self.r.htaint.get(o, ()))
        fns = frozenset().union(*[self.r.fns.get(o, ()) for o in v.objs]) if v.objs else frozenset()
        return V(c | keep, t, None, True, fns or None)

    def index(self, s, st):
        if isinstance(s, ast.Slice):
            t = frozenset()
            for x in (s.lower, s.upper, s.step):
                if x is not None:
                    t |= self.ev(x, st).taint
            return t
        if isinstance(s, ast.Tuple):
            t = frozenset()
            for x in s.elts:
                t |= self.index(x, st)
            return t
        return self.r.deep(self.ev(s, st))

    # ---------------------------------------------------------------------------------------------------------- conditions
    def cond(self, e, st):
        """(value, True / False / None)"""
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            v = self.ev(e.left, st)
            r = None
            if isinstance(v.const, tuple):
                r = v.const[1] is None
            elif v.const == "some":
                r = False
            if r is not None and isinstance(e.ops[0], ast.IsNot):
                r = not r
            return v, r
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v, b = self.cond(e.operand, st)
            return v, None if b is None else not b
        if isinstance(e, ast.BoolOp):
            vs, res = V(), []
            for x in e.values:
                v, b = self.cond(x, st)
                vs = V(vs.objs | v.objs, vs.taint | v.taint)
                res.append(b)
                if b is (isinstance(e.op, ast.Or)):
                    break
            stop = isinstance(e.op, ast.Or)
            if stop in res:
                return vs, stop if all(x is not None for x in res[:res.index(stop)]) or True else None
            return vs, (not stop) if all(x is not None for x in res) else None
        v = self.ev(e, st)
        if isinstance(v.const, tuple):
            return v, bool(v.const[1])
        return v, None

    def narrow(self, e, taken, st):
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            none = isinstance(e.ops[0], ast.Is) == taken
            if isinstance(e.ops[0], (ast.Is, ast.IsNot)) and e.left.id in st.env:
                v = st.env[e.left.id]
                st.env[e.left.id] = V(v.objs, v.taint, ("c", None)) if none else V(v.objs, v.taint, v.const or "some", v.approx, v.fn)

    # ---------------------------------------------------------------------------------------------------------- expressions
    def name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        p = self.path(e, st)
        if p is not None:
            return V(const="some", fn=p)
        if e.id in self.mod.consts:
            d = self.mod.consts[e.id]
            if isinstance(d, ast.Constant):
                return V(const=("c", d.value))
            o = ("G", self.mod.name, e.id)
            self.r.grow(o, (), ())
            return V({o}, const="some")
        if e.id in BUILTINS or e.id in EXC or e.id == "Ellipsis":
            return V(const="some", fn=e.id)
        raise Unsupported(f"name {e.id}")

    def path(self, e, st):
        """dotted path of a module, function or class that is not a local value"""
        if isinstance(e, ast.Name):
            if e.id in st.env:
                f = st.env[e.id].fn
                return f if isinstance(f, str) else None
            return self.imports.get(e.id) or self.mod.resolve(e.id)
        if isinstance(e, ast.Attribute):
            p = self.path(e.value, st)
            return p and f"{p}.{e.attr}"
        return None

    def ev(self, e, st):
        v = self.ev_(e, st)
        return v

    def ev_(self, e, st):
        r = self.r
        if isinstance(e, ast.Constant):
            return V(const=("c", e.value))
        if isinstance(e, ast.Name):
            return self.name(e, st)
        if isinstance(e, ast.Attribute):
            p = self.path(e, st)
            if p is not None:
                return V(const="some", fn=p)
            v = self.ev(e.value, st)
            if e.attr in VIEWS:
                return V(v.objs, v.taint, "some", True)
            return V(v.objs, r.deep(v), "some", True)
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value, st)
            t = self.index(e.slice, st)
            return self.element(v).tainted(t | st.pc)
        if isinstance(e, (ast.BinOp,)):
            a, b = self.ev(e.left, st), self.ev(e.right, st)
            return self.fresh(e, [a, b], st)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, st)
            if isinstance(e.op, ast.Not):
                b = self.cond(e.operand, st)[1]
                return V(taint=r.deep(v), const=None if b is None else ("c", not b))
            if isinstance(v.const, tuple) and isinstance(e.op, ast.USub) and isinstance(v.const[1], (int, float, complex)):
                return V(const=("c", -v.const[1]))
            return self.fresh(e, [v], st)
        if isinstance(e, ast.BoolOp):
            v = None
            for x in e.values:
                y = self.ev(x, st)
                v = y if v is None else v.join(y)
            return V(v.objs, v.taint, None, v.approx)
        if isinstance(e, ast.Compare):
            t = r.deep(self.ev(e.left, st))
            for x in e.comparators:
                t |= r.deep(self.ev(x, st))
            b = self.cond(e, st)[1] if len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None else None
            return V(taint=t, const=("c", b) if b is not None else "some")
        if isinstance(e, ast.IfExp):
            c, b = self.cond(e.test, st)
            if b is not None:
                return self.ev(e.body if b else e.orelse, st)
            v = self.ev(e.body, st).join(self.ev(e.orelse, st))
            return v.tainted(r.deep(c))
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            vs = [self.ev(x.value if isinstance(x, ast.Starred) else x, st) for x in e.elts]
            c = frozenset().union(*[v.objs for v in vs]) if vs else frozenset()
            t = frozenset().union(*[v.taint for v in vs]) if vs else frozenset()
            o = r.alloc(e, c, t)
            r.fns.setdefault(o, set()).update(v.fn for v in vs if isinstance(v.fn, str))
            return V({o}, t, "some")
        if isinstance(e, ast.Dict):
            vs = [self.ev(x, st) for x in e.keys + e.values if x is not None]
            c = frozenset().union(*[v.objs for v in vs]) if vs else frozenset()
            t = frozenset().union(*[v.taint for v in vs]) if vs else frozenset()
            return V({r.alloc(e, c, t)}, t, "some")
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            x = st.copy()
            o = r.alloc(e)
            for _ in range(20):
                k0, v0 = x.key(), r.version
                t = frozenset()
                for g in e.generators:
                    it = self.ev(g.iter, x)
                    t |= r.deep(it)
                    self.bind(g.target, self.element(it), x)
                    for c in g.ifs:
                        t |= r.deep(self.ev(c, x))
                vs = [self.ev(y, x) for y in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt])]
                for v in vs:
                    r.grow(o, v.objs, v.taint | t)
                if x.key() == k0 and r.version == v0:
                    break
            st.rng = x.rng
            return V({o}, frozenset(r.htaint[o]), "some")
        if isinstance(e, ast.JoinedStr):
            t = frozenset()
            for x in e.values:
                if isinstance(x, ast.FormattedValue):
                    t |= r.deep(self.ev(x.value, st))
            return V(taint=t, const="some")
        if isinstance(e, ast.Lambda):
            return V(const="some", fn=(e, st))
        if isinstance(e, ast.Starred):
            return self.ev(e.value, st)
        if isinstance(e, ast.Slice):
            return V(taint=self.index(e, st))
        if isinstance(e, ast.Call):
            return self.call(e, st)
        raise Unsupported(f"expression {type(e).__name__}")

    def fresh(self, node, vs, st, share=False):
        """a new object computed from the values"""
        t = st.pc
        c = frozenset()
        for v in vs:
            t |= self.r.deep(v)
            if share:
                c |= self.r.contents(v) | v.objs
        return V({self.r.alloc(node, c, t)}, t, "some")

    def call(self, e, st):
        r = self.r
        args = [self.ev(x.value if isinstance(x, ast.Starred) else x, st) for x in e.args]
        if any(isinstance(x, ast.Starred) for x in e.args) or any(k.arg is None for k in e.keywords):
            star = True
        else:
            star = False
        kw = {k.arg: self.ev(k.value, st) for k in e.keywords}
        allv = args + list(kw.values())
        p = self.path(e.func, st)
        if p is None and isinstance(e.func, ast.Name):
            if e.func.id in st.env and isinstance(st.env[e.func.id].fn, tuple):
                return self.closure(st.env[e.func.id].fn, args, kw, st)
            if e.func.id not in st.env and (e.func.id in BUILTINS or e.func.id in EXC):
                p = "builtins." + e.func.id
        if p is None and isinstance(e.func, ast.Name) and e.func.id in st.env and isinstance(st.env[e.func.id].fn, frozenset):
            res = V()
            for q in sorted(st.env[e.func.id].fn):
                if q.startswith("ff."):
                    raise Unsupported("call of a computed function")
                res = res.join(self.library(q, e, args, kw, allv, st))
            return res
        if p is not None:
            if p.startswith("ff."):
                f = ff_function(p)
                if f is None or star:
                    raise Unsupported(f"function {p}")
                return r.call(f[0], f[1], args, kw, st)
            return self.library(p, e, args, kw, allv, st)
        if not isinstance(e.func, ast.Attribute):
            raise Unsupported("call of a computed function")
        base = self.ev(e.func.value, st)
        m = e.func.attr
        if any(o[0] == "R" for o in base.objs):                                   # generator object
            g = [o for o in base.objs if o[0] == "R"]
            t = frozenset().union(*[r.htaint.get(o, set()) for o in g]) | st.pc
            for v in allv:
                t |= r.deep(v)
            return V({r.alloc(e, (), t)}, t, "some")
        if m in MUTATORS:
            v = V()
            for x in allv:
                v = V(v.objs | x.objs, v.taint | r.deep(x))
            r.write(st, base, e, v)
            return self.element(base).tainted(v.taint) if m in ("pop", "popitem", "setdefault") else V(const=("c", None))
        if m in VIEWS:
            return V(base.objs, base.taint, "some", True)
        if m in READERS:
            if m == "astype" and "copy" in kw:
                return V(base.objs, base.taint, "some", True)
            if m in ("copy", "astype", "toarray", "flatten", "tolist"):
                c = r.contents(base) - {o for o in base.objs}
                v = self.fresh(e, [base] + allv, st)
                r.grow(next(iter(v.objs)), {o for o in c if o[0] not in "PGD"}, ())
                return v
            t = r.deep(base)
            for x in allv:
                t |= r.deep(x)
            return V({r.alloc(e, r.contents(base) | base.objs if m in ("items", "keys", "values", "get", "nodes", "edges", "degree", "adjacency", "union", "intersection", "difference") else (), t | st.pc)}, t | st.pc, "some", False)
        raise Unsupported(f"method {m}")

    def closure(self, fn, args, kw, st):
        node, _ = fn
        body = node.body if isinstance(node, ast.FunctionDef) else [ast.Return(value=node.body, lineno=node.lineno, col_offset=0)]
        if any(f is node for f in self.r.stack) or node.args.vararg or node.args.kwarg:
            raise Unsupported("local function")
        names = [x.arg for x in node.args.posonlyargs + node.args.args]
        env = dict(st.env)
        for k, d in zip(names[len(names) - len(node.args.defaults):], node.args.defaults):
            env[k] = self.ev(d, st)
        env.update(zip(names, args))
        env.update(kw)
        f = Frame(self.r, self.mod, node)
        f.imports = dict(self.imports)
        self.r.stack.append(node)
        try:
            inner = St(env, dict(st.rng), st.pc)
            end = f.block(body, inner)
            if end is not None:
                f.ret(V(const=("c", None)), end)
        finally:
            self.r.stack.pop()
        if f.result is None:
            raise Bottom()
        st.rng = f.rng
        return f.result

    def draw(self, which, e, allv, st):
        t = st.rng.get(which, frozenset()) | st.pc
        for v in allv:
            t |= self.r.deep(v)
        st.rng[which] = t
        return V({self.r.alloc(e, (), t)}, t, "some")

    def library(self, p, e, args, kw, allv, st):
        r = self.r
        last = p.rsplit(".", 1)[-1]
        if "out" in kw and not (isinstance(kw["out"].const, tuple) and kw["out"].const[1] is None):
            r.write(st, kw["out"], e, V(taint=frozenset().union(*[r.deep(v) for v in allv])))
        for k, v in kw.items():
            if k.startswith("overwrite_") and not (isinstance(v.const, tuple) and v.const[1] is False):
                for a in args[:1]:
                    r.write(st, a, e)
        if p in ("numpy.random.seed", "random.seed"):
            which = "np" if p.startswith("numpy") else "py"
            v = (args + list(kw.values()) + [V(const=("c", None))])[0]
            if v.const == ("c", None):
                st.rng[which] = frozenset({"os"})
            else:
                st.rng[which] = r.deep(v) | st.pc
                r.seeds.append((which, e.lineno))
            return V(const=("c", None))
        if p in ("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "random.Random"):
            v = (args + list(kw.values()) + [V(const=("c", None))])[0]
            t = frozenset({"os"}) if v.const == ("c", None) else r.deep(v)
            return V({r.alloc(e, (), t | st.pc, "R")}, t, "some")
        if p in ("numpy.random.shuffle", "random.shuffle"):
            v = self.draw("np" if p.startswith("numpy") else "py", e, allv, st)
            r.write(st, args[0], e, V(taint=v.taint))
            return V(const=("c", None))
        if p.startswith("numpy.random."):
            return self.draw("np", e, allv, st)
        if p.startswith("random."):
            return self.draw("py", e, allv, st)
        if p.startswith("secrets.") or p.startswith("time.") or p.startswith("uuid.") or p.startswith("os."):
            return V({r.alloc(e, (), {"os"})}, {"os"}, "some")
        if p.startswith("stim."):
            if "random" in p:
                return V({r.alloc(e, (), {"os"})}, {"os"}, "some")
            return self.fresh(e, allv, st)
        if p.startswith("scipy.stats.") and last == "rvs":
            s = kw.get("random_state")
            if s is None or s.const == ("c", None):
                return self.draw("np", e, allv, st)
            if any(o[0] == "R" for o in s.objs) or isinstance(s.fn, str):
                return self.draw("np", e, allv, st)
            return self.fresh(e, allv, st)
        if p.startswith("networkx."):
            if last in NX_WRITES:
                r.write(st, args[NX_WRITES[last]], e)
                return V(const=("c", None))
            if last == "relabel_nodes" and "copy" in kw and kw["copy"].const == ("c", False):
                r.write(st, args[0], e)
                return args[0]
            g = NX_RANDOM.get(last) or ("py" if "random" in last else None)
            if g:
                s = kw.get("seed")
                if s is None or s.const == ("c", None):
                    return self.draw(g, e, allv, st)
                return self.fresh(e, allv, st)
            if last in ("freeze", "contracted_nodes", "contracted_edge", "identified_nodes"):
                raise Unsupported(p)
            if last in ("subgraph", "subgraph_view", "restricted_view", "reverse_view"):
                return V(args[0].objs, args[0].taint, "some", True)
            return self.fresh(e, allv, st)               # networkx functions work on copies and return new objects
        if p.startswith("numpy."):
            if last in NP_WRITES and args:
                v = V()
                for x in allv[1:]:
                    v = V(v.objs, v.taint | r.deep(x))
                r.write(st, args[NP_WRITES[last]], e, v)
                return V(const=("c", None))
            if last in ("nan_to_num",) and "copy" in kw and kw["copy"].const == ("c", False):
                r.write(st, args[0], e)
            if last == "at" and p.count(".") > 1:
                raise Unsupported(p)
            if last in NP_VIEWS or last == "array" and kw.get("copy") is not None:
                v = self.fresh(e, allv, st)
                return V(v.objs | (args[0].objs if args else frozenset()), v.taint, "some", True)
            return self.fresh(e, allv, st)
        if p.startswith("builtins."):
            if last in EXC:
                return V(const="some")
            if last in FRESH_CONTAINER:
                v = self.fresh(e, allv, st, share=True)
                if last in ("next", "max", "min", "getattr"):
                    w = V()
                    for x in allv:
                        y = self.element(x)
                        w = V(w.objs | y.objs | x.objs, w.taint | y.taint, None, True)
                    return V(w.objs, v.taint, None, True)
                o = next(iter(v.objs))
                if last in ("map", "filter"):
                    for x in allv:
                        if isinstance(x.fn, tuple):
                            y = self.closure(x.fn, [self.element(a) for a in args[1:]], {}, st)
                            r.grow(o, y.objs, y.taint)
                return v
            t = st.pc
            for v in allv:
                t |= r.deep(v)
            return V(taint=t, const="some" if last != "getattr" else None)
        if p.split(".")[0] in ("math", "cmath", "itertools", "functools", "collections", "copy", "scipy", "operator", "string", "warnings", "fractions", "typing"):
            if p in ("copy.copy", "copy.deepcopy"):
                return self.fresh(e, allv, st)
            if p.startswith("functools.") and last != "reduce":
                raise Unsupported(p)
            for x in allv:
                if isinstance(x.fn, tuple):          # called back on new objects
                    n = len(x.fn[0].args.args) - len(x.fn[0].args.defaults)
                    allv = allv + [self.closure(x.fn, [self.fresh(e, allv, st) for _ in range(n)], {}, st)]
            return self.fresh(e, allv, st, share=p.startswith(("itertools", "collections", "functools")))
        if p.startswith("matplotlib."):
            return V({r.alloc(e)}, frozenset(), "some")
        raise Unsupported(f"function {p}")


def analyse(qn, consts=None):
    """abstract run of a function of the package on arbitrary arguments (consts: parameters that are None / not None)"""
    m, node = ff_function("ff." + qn) or (None, None)
    if node is None:
        raise Unsupported(f"{qn} is not a function of the module")
    run = Run()
    a = node.args
    env = {}
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        c = (consts or {}).get(x.arg)
        o = ("P", x.arg)
        if c in ("some", ("c", None)):
            env[x.arg] = V(const=c)
        else:
            run.grow(o, {o}, ())
            env[x.arg] = V({o})
    st = St({}, {"np": frozenset({"start"}), "py": frozenset({"start"})}, frozenset())
    try:
        out = run.call(m, node, [], env, st)
    except Bottom:
        out = None
    return run, out, st


def frame_obs(qn, modifies=(), Ob=None):
    """no object reachable from an argument is written, nor one that outlives the call"""
    base = f"{qn}[effects]"
    try:
        run, out, _ = analyse(qn)
    except Unsupported as u:
        return [Ob(base + "/frame", "unsupported", str(u))]
    except RecursionError:
        return [Ob(base + "/frame", "unsupported", "recursion")]
    except Exception as e:             # an internal error is never a verdict
        return [Ob(base + "/frame", "unsupported", f"internal: {type(e).__name__}: {e}")]
    m, node = ff_function("ff." + qn)
    obs = []
    pars = [x.arg for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
    for p in pars:
        if p in modifies:
            continue
        w = [(ex, ln) for o, ex, ln in run.writes if o == ("P", p)]
        if not w:
            obs.append(Ob(f"{base}/frame {p}", "proved"))
        else:
            obs.append(Ob(f"{base}/frame {p}", "refuted" if any(ex for ex, _ in w) else "unsupported", f"argument {p} is written to in line {w[0][1]}"))
    w = [(o, ln) for o, ex, ln in run.writes if o[0] in "GD"]
    obs.append(Ob(f"{base}/no state between calls", "proved" if not w else "refuted", f"{w[0][0]} is written to in line {w[0][1]}" if w else ""))
    return obs


def seed_obs(qn, par="seed", Ob=None):
    """noninterference with a seed, no re-seeding without one"""
    base = f"{qn}[effects]"
    obs = []
    for given in (True, False):
        nm = f"{base}/{'seeded' if given else 'unseeded'}"
        try:
            run, out, st = analyse(qn, {par: "some" if given else ("c", None)})
        except Unsupported as u:
            obs.append(Ob(nm, "unsupported", str(u)))
            continue
        except RecursionError:
            obs.append(Ob(nm, "unsupported", "recursion"))
            continue
        except Exception as e:
            obs.append(Ob(nm, "unsupported", f"internal: {type(e).__name__}: {e}"))
            continue
        if given:
            t = run.deep(out) if out is not None else frozenset()
            bad = t & {"start", "os"}
            obs.append(Ob(nm + " result", "proved" if not bad else "unknown", "with a seed the result may depend on the prior state of a random generator"))
        else:
            obs.append(Ob(nm, "proved" if not run.seeds else "unknown", "a generator may be seeded although no seed was given"))
    return obs


# functions whose determinism under a seed is decided here (the others by their contracts in contracts_rand.py)
SEEDED = ("ff_random_states.random_FF_pure_state_WN", "ff_random_states.random_FF_pure_state_CN", "ff_graph_theory.generate_random_planar_graph")
MODIFIES = {"ff_graph_theory.complete_face": ("pfo",)}
FILES = ("ff_lib", "ff_utils", "ff_combinatorics", "ff_graph_theory", "ff_distance_measures", "ff_random_states")


def public():
    """the functions the package had when the contracts were written that are still there, and any new ones"""
    return [f"{m}.{f}" for m in FILES if os.path.exists(os.path.join(PKG, m + ".py")) for f in module(m).funcs]
