import json,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(H+'/properties.jsonl')]
cfg=json.load(open(H+'/tools/levels.json')) if os.path.exists(H+'/tools/levels.json') else {}
checks=[]
for p in props:
    c=cfg.get(p['id'],{})
    checks.append(dict(property=p['id'],quick_cmd=f"python3 check.py {p['id']} quick",thorough_cmd=f"python3 check.py {p['id']} thorough",
      technique=c.get('technique',"contract-based deductive verification (generated VCs, z3); run-time contracts as bounded stand-in"),
      level=c.get('level','exploration'),level_note=c.get('note',"run-time contracts on the real code (bounded)"),
      **({'theorems':c['theorems']} if c.get('theorems') else {})))
json.dump(dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=[],notes="see DESIGN.md"),open(H+'/MANIFEST.json','w'),indent=1)
