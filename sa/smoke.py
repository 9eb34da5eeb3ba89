import sys, time
from engine import *
import adevs_models as M
p=Prog(sys.argv[1])
for fid,f in sorted(p.fn.items(), key=lambda x:x[1]['q']):
    w=p.where(f['l'])
    if f.get('body') is None or 'schedule2' in w: continue
    t=time.time()
    try:
        e=Engine(p,M.plain()); r=e.run(f)
        print('%-60s %3d st %5.1fs %s %s'%(f['q'][-60:],len(r),time.time()-t,f['cls'][-30:] if f.get('cls') else '',sorted(set(i for s in r for i in s.imp))[:3] or ''))
    except Exception as ex:
        import traceback
        print('%-60s EXC %s %s'%(f['q'][-60:],type(ex).__name__,str(ex)[:100]), traceback.format_exc().strip().split('\n')[-2 if 0 else -3][:140])
