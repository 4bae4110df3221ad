"""developer runner: dev.py HARNESS [tier] [case-substring] [-v]"""
import sys,importlib,time
sys.path.insert(0,'/verif')
sys.setrecursionlimit(20000)
sys.dont_write_bytecode=True
from vp import engine
mod=importlib.import_module('harness.'+sys.argv[1])
tier=sys.argv[2] if len(sys.argv)>2 else 'quick'
sub=sys.argv[3] if len(sys.argv)>3 and sys.argv[3]!='-v' else ''
cs=[c for c in mod.cases(tier) if sub in c[0]]
t=time.time()
rs=engine.run_cases(sys.argv[1],cs,dict(getattr(mod,'OPTS',{})))
print(sum(r['status']=='ok' for r in rs),'ok of',len(rs),'obligations',sum(r['stats'].get('obligations',0) for r in rs))
shown=set()
for r in rs:
    if r['status']=='ok' and '-v' not in sys.argv and r['wall']<60: continue
    print(r['case'],r['status'],r.get('why',''),'%.1fs'%r['wall'],{k:v for k,v in r['stats'].items() if v})
    key=(r.get('why'),tuple((f['label'].split('[')[0],f['detail'][:40]) for f in r['failures'][:2]))
    if r['status']!='ok' and (key in shown or len(shown)>int(__import__('os').environ.get('SHOW','4'))): continue
    shown.add(key)
    if r['status'] in('inconclusive','error'): print(r.get('tb'))
    for f in r['failures'][:2]:
        print('   ',f['label'],f['detail'],str(f['model'])[:300]); 
        if f.get('tb'): print(f['tb'][-1500:])
print('%.1f s'%(time.time()-t))
