import sys, time, json
from .. import report
from ..shapes import run as srun, core
from . import run
srun.load_specs()
run.install()
args=[a for a in sys.argv[1:] if not a.startswith('-')]
TIER='thorough' if '-t' in sys.argv else 'quick'
ops=[o for o in core.SPECS if run.dtype_fn(o) is not None and (not args or any(a==o.replace('〇','.').replace('aten.','') for a in args))]
def work(o): return run.run_op(o,TIER)
t0=time.time()
n=0
for st,o,r in report.parallel(work,ops,500):
    if st!='ok': print('!!',o,st,(r or '')[-700:]); continue
    n+=1
    if r['violations'] or r['status']!='ok' or r.get('spurious') or '-v' in sys.argv or r['wall']>15:
        print('==',o,r['status'],r['why'],'cells',r['cells'],'kinds',r['kinds'],'wall %.1f'%r.get('wall',0), r['stats'] if '-v' in sys.argv else '')
        for v in r['violations'][:2]: print('   V',v['what'],v['kind'])
        for v in r.get('spurious',[])[:2]: print('   S',v)
print(n,len(ops),time.time()-t0)
