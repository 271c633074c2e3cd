"""Regenerates known_cells.json (never run by a check): every accepted dtype
assignment on which the current tree's function and PyTorch disagree."""
import json, os, sys
from .. import report
from ..shapes import run as srun, core
from . import run
srun.load_specs(); run.install()
ops=[o for o in core.SPECS if run.dtype_fn(o) is not None and o not in run.SKIP]
def work(o):
    g={}
    r=run.run_op(o,"thorough",gen=g,max_seconds=900)
    return g,r
res={}
for st,o,r in report.parallel(work,ops,3000):
    if st!='ok': print('!!',o,st,r[-300:] if r else st); continue
    g,r=r
    if r['status']!='ok': print('--',o,r['status'],r['why'])
    if g: res[o]=g
json.dump({k:res[k] for k in sorted(res)},open(os.path.join(os.path.dirname(__file__),'known_cells.json'),'w'),ensure_ascii=False,indent=0)
for o,g in sorted(res.items()):
    n=sum(len(v) for k,v in g.items() if k!='what')
    print(f"{n} {g['what']}")
