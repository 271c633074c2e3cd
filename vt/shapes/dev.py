import sys, time
from multiprocessing import Pool
from . import run, core
run.load_specs()
def work(op):
    try:
        return run.run_spec(op, validate=VAL, tier=TIER)
    except Exception as e:
        import traceback
        return dict(op=op, err=traceback.format_exc()[-900:])
args=[a for a in sys.argv[1:] if not a.startswith('-')]
VAL='-n' not in sys.argv
TIER='thorough' if '-t' in sys.argv else 'quick'
ops=[o for o,s in core.SPECS.items() if not args or s.group in args or any(a==o.replace('〇','.').replace('aten.','') for a in args)]
run.modules()
t0=time.time()
with Pool(8) as p:
    tot=0
    for r in p.imap_unordered(work, ops):
        if 'err' in r:
            print('!!',r['op'],r['err']); continue
        bad = r['violations'] or r['invalid'] or r['status']!='ok' or r['known'] or '-v' in sys.argv or r['wall']>15
        tot+=r['stats']['paths']
        if bad:
            print(f"== {r['op']} {r['status']} {r['why']} paths={r['stats']['paths']} val={r['validated']} none={r['nooracle']} wall={r['wall']:.1f}")
            for v in r['violations'][:2]: print('   V',v)
            for v in r['spurious'][:2]: print('   S',v)
            for k,v in r['known'].items(): print('   K',k,v)
            for v in r['invalid'][:3]: print('   I',*v)
print('ops',len(ops),'paths',tot,'wall',time.time()-t0)
