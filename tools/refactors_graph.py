"""Author's tool: behaviour-preserving edits of faces, dual_graph_H, pfo_algorithm (refactors_graph_table.py); the verifier must accept them or stay quiet."""
import sys,ast,os,shutil,subprocess,json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); from refactors_graph_table import T
from concurrent.futures import ThreadPoolExecutor
def one(k):
    t=T[k]; pre=t[-1] if isinstance(t[-1],str) else ""
    func=t[0]; edits=[x for x in t[1:] if isinstance(x,tuple)]
    d=f"/tmp/ref/n{k}"; shutil.rmtree(d,ignore_errors=True); os.makedirs(d+"/src")
    shutil.copytree("/repo/src/ff",d+"/src/ff",ignore=shutil.ignore_patterns("__pycache__"))
    p=d+"/src/ff/ff_graph_theory.py"; src=open(p).read()
    node=next(n for n in ast.parse(src).body if isinstance(n,ast.FunctionDef) and n.name==func)
    node.body=node.body[1:]; lines=src.splitlines(keepends=True)
    s=ast.unparse(node)+"\n"
    for a,b in edits:
        if s.count(a)!=1: return k,func,"BAD EDIT "+str(s.count(a))+a[:60]
        s=s.replace(a,b)
    open(p,"w").write("".join(lines[:node.lineno-1])+pre+s+"".join(lines[node.end_lineno:]))
    env=dict(os.environ,VERIF_REPO=d,MPLBACKEND="Agg",OPENBLAS_NUM_THREADS="1",PYTHONDONTWRITEBYTECODE="1")
    r=subprocess.run(["python3-vt","/verif/vc/main.py","ff_graph_theory."+func],env=env,capture_output=True,text=True)
    rt=""
    if os.environ.get("RT"):
        q=subprocess.run(["/opt/venv/bin/python","/verif/rt/run.py","C11","--out",d+"/rt.json"],env=env,capture_output=True,text=True)
        rt=str(len(json.load(open(d+"/rt.json"))["violations"])) if os.path.exists(d+"/rt.json") else q.stderr[-300:]
    os.environ.get("KEEP") or shutil.rmtree(d)
    return k,func,rt+" "+"\n".join(l[:260] for l in r.stdout.splitlines() if "slowest" not in l)+r.stderr[-300:]
ks=[int(a) for a in sys.argv[1:]] or range(len(T))
with ThreadPoolExecutor(3) as ex:
    for k,f,o in ex.map(one,ks): print(k,f,o,flush=True)
