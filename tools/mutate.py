"""Author's tool: soundness sweep of the verifier.  Small random edits of every function under contract; an edit the
run-time contracts refute must not be accepted by the verifier.   usage: mutate.py OUT [function ...]"""
import ast, copy, difflib, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo/src/ff"
CMP = [ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq]
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add, ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Mod],
       ast.Mod: [ast.FloorDiv], ast.MatMult: [ast.Mult]}


def skip(n):
    return isinstance(n, (ast.JoinedStr, ast.Raise)) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print"


def sites(fn):
    """(description, mutator(node copy root)) pairs; nodes addressed by walk order"""
    out = []
    bad = set()
    for n in ast.walk(fn):
        if skip(n):
            bad |= {id(x) for x in ast.walk(n)}
    for k, n in enumerate(ast.walk(fn)):
        if id(n) in bad:
            continue
        if isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                out.append((k, "op", o))
            if isinstance(n.op, (ast.Sub, ast.MatMult, ast.Div)):
                out.append((k, "swap", None))
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            i = CMP.index(type(n.ops[0]))
            out.append((k, "cmp", CMP[i ^ 1]))
            out.append((k, "cmp", CMP[(i + 2) % 6]))
        if isinstance(n, ast.Constant) and type(n.value) in (int, float, complex):
            out.append((k, "const", n.value + 1))
            if n.value:
                out.append((k, "const", -n.value))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((k, "const", not n.value))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
            out.append((k, "swapidx", None))
        if isinstance(n, ast.Subscript) and not isinstance(n.slice, (ast.Tuple, ast.Slice)):
            out.append((k, "idx+1", None))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("conj", "transpose", "copy") and not n.args:
            out.append((k, "dropcall", None))
        if isinstance(n, ast.Attribute) and n.attr in ("T", "real"):
            out.append((k, "dropattr", None))
        if isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
            out.append((k, "swapargs", None))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "range":
            out.append((k, "range-1", None))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out.append((k, "dropneg", None))
        if isinstance(n, ast.If):
            out.append((k, "nottest", None))
            out.append((k, "true", None))
        if isinstance(n, ast.BoolOp):
            out.append((k, "andor", None))
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            out.append((k, "dropstmt", None))
    return out


def mutate(fn, site):
    f = copy.deepcopy(fn)
    nodes = list(ast.walk(f))
    k, kind, x = site
    n = nodes[k]

    def replace(new):
        for p in ast.walk(f):
            for fld, v in ast.iter_fields(p):
                if v is n:
                    setattr(p, fld, new)
                    return
                if isinstance(v, list):
                    for i, y in enumerate(v):
                        if y is n:
                            v[i] = new
                            return
    if kind == "op":
        n.op = x()
    elif kind == "swap":
        n.left, n.right = n.right, n.left
    elif kind == "cmp":
        n.ops[0] = x()
    elif kind == "const":
        n.value = x
    elif kind == "swapidx":
        n.slice.elts.reverse()
    elif kind == "idx+1":
        n.slice = ast.BinOp(n.slice, ast.Sub(), ast.Constant(1))
    elif kind == "dropcall":
        replace(n.func.value)
    elif kind == "dropattr":
        replace(n.value)
    elif kind == "swapargs":
        n.args.reverse()
    elif kind == "range-1":
        n.args[-1] = ast.BinOp(n.args[-1], ast.Sub(), ast.Constant(1))
    elif kind == "dropneg":
        replace(n.operand)
    elif kind == "nottest":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == "true":
        n.test = ast.Constant(True)
    elif kind == "andor":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "dropstmt":
        replace(ast.Pass())
    ast.fix_missing_locations(f)
    return f


def guarded(fn, new):
    """the edit only on inputs the run-time contracts do not reach"""
    a = [x.arg for x in fn.args.args]
    if not a:
        return None
    k, big = os.environ["GUARD"].split(",")
    g = f"{a[0]} > {k}" if a[0] in ("n", "n_sites", "N", "n_qubits") else f"len({a[0]}) > {big}"
    f = copy.deepcopy(fn)
    body = copy.deepcopy(new.body)
    if not isinstance(body[-1], ast.Return):
        body.append(ast.Return(ast.Constant(None)))
    f.body = [ast.If(ast.parse(g, mode="eval").body, body, [])] + f.body
    return ast.fix_missing_locations(f)


def nodoc(fn):
    b = fn.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        fn.body = b[1:] or [ast.Pass()]
    return fn


def one(job):
    mod, name, site, props = job
    src = open(f"{REPO}/{mod}.py").read()
    node = next(n for n in ast.parse(src).body if isinstance(n, ast.FunctionDef) and n.name == name)
    lines = src.splitlines(keepends=True)
    nodoc(node)
    new = mutate(node, site)
    if os.environ.get("GUARD"):
        new = guarded(node, new)
        if new is None:
            return dict(fn=mod + "." + name, vc=["no guard"], diff=[], site="")
    new = ast.unparse(new) + "\n"
    old = ast.unparse(node) + "\n"
    d = tempfile.mkdtemp(dir="/tmp/mut")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        start = min([node.lineno] + [x.lineno for x in node.decorator_list])
        open(f"{d}/src/ff/{mod}.py", "w").write("".join(lines[:start - 1]) + new + "".join(lines[node.end_lineno:]))
        env = dict(os.environ, VERIF_REPO=d, MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        a, b = old.splitlines(), new.splitlines()
        diff = [x for x in difflib.unified_diff(a, b, lineterm="", n=0) if x[:2] not in ("--", "++", "@@")]
        r = subprocess.run(["python3-vt", "/verif/vc/main.py", "=" + mod + "." + name], env=env, capture_output=True, text=True, timeout=600)
        last = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:]
        st = [s for s in ("refuted", "unknown", "unsupported") if f" {s} " in r.stdout]
        res = dict(fn=mod + "." + name, site=str(site[1:]), diff=diff, vc=st or (["proved"] if "obligations" in last else ["error " + last]))
        if os.environ.get("GUARD"):
            b = ast.unparse(mutate(node, site)).splitlines()
            res["diff"] = [x for x in difflib.unified_diff(a, b, lineterm="", n=0) if x[:2] not in ("--", "++", "@@")]
            if "refuted" not in st and os.environ.get("RT"):
                res["rtv"] = []
                for p in props:
                    if not res["rtv"]:
                        subprocess.run(["/opt/venv/bin/python", "/verif/rt/run.py", p, "--tier", "quick", "--seed", "1", "--out", d + "/rt.json"], env=env, capture_output=True, text=True, timeout=300)
                        v = json.load(open(d + "/rt.json"))["violations"] if os.path.exists(d + "/rt.json") else [dict(case="crash", message="")]
                        res["rtv"] += [p + " " + x["case"][:60] for x in v[:1]]
            res["out"] = [x.strip()[:300] for x in r.stdout.splitlines() if any(f" {s} " in x for s in ("refuted", "unknown", "unsupported"))][:4]
        elif res["vc"] == ["proved"]:
            res["rt"] = {}
            for p in props:
                try:
                    q = subprocess.run(["/opt/venv/bin/python", "/verif/rt/run.py", p, "--tier", "quick", "--seed", "1", "--out", d + "/rt.json"],
                                       env=env, capture_output=True, text=True, timeout=300)
                    v = json.load(open(d + "/rt.json"))["violations"] if os.path.exists(d + "/rt.json") else [dict(case="crash", message=(q.stdout + q.stderr)[-300:])]
                    res["rt"][p] = [f"{x['case']}: {x['message'][:150]}" for x in v[:2]]
                except subprocess.TimeoutExpired:
                    res["rt"][p] = ["timeout"]
        return res
    except subprocess.TimeoutExpired:
        return dict(fn=mod + "." + name, site=str(site[1:]), diff=diff, vc=["timeout"])
    finally:
        shutil.rmtree(d)


def main():
    os.makedirs("/tmp/mut", exist_ok=True)
    out, only = sys.argv[1], sys.argv[2:]
    code = "import sys; sys.path.insert(0,'/verif/vc'); import main, json; main.load(); print(json.dumps({q: c.props for d in (main.spec.CONTRACTS, main.fol.CONTRACTS) for q, c in d.items() if c.variants}))"
    cs = json.loads(subprocess.run(["python3-vt", "-c", code], capture_output=True, text=True).stdout.splitlines()[-1])
    rnd = random.Random(int(os.environ.get("SEED", "1")))
    cap = int(os.environ.get("CAP", "25"))
    jobs = []
    for q, props in cs.items():
        if only and not any(o in q for o in only):
            continue
        mod, name = q.split(".")
        node = next((n for n in ast.parse(open(f"{REPO}/{mod}.py").read()).body if isinstance(n, ast.FunctionDef) and n.name == name), None)
        if node is None:
            continue
        ss = sites(nodoc(node))
        rnd.shuffle(ss)
        jobs += [(mod, name, s, props) for s in ss[:cap]]
    print(len(jobs), "mutants", flush=True)
    with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex, open(out, "w") as f:
        for r in ex.map(one, jobs):
            f.write(json.dumps(r) + "\n")
            f.flush()
            if "rt" not in r:
                print("/".join(r["vc"]), "RT" if r.get("rtv") else "--", r["fn"], r["diff"], "" if "refuted" in r["vc"] else r.get("out"), flush=True)
            elif r["vc"] == ["proved"] and any(r["rt"].values()):
                print("UNSOUND?", json.dumps(r, indent=1), flush=True)
            elif r["vc"] == ["proved"]:
                print("survivor", r["fn"], r["diff"], flush=True)


if __name__ == "__main__":
    main()
