import sys,time
sys.path.insert(0,'/verif')
from sa.obligations import *
ctx=Context()
pat=[a for a in sys.argv[1:] if not a.startswith("-")]
for o in ctx.obl:
    if pat and not any(p in o.name or p in o.mod or p in o.props for p in pat): continue
    r=o.run(ctx)
    print(o.props,o.name,r.status,r.why[:300],r.info['seconds'],r.info.get('witness',''))
    if '-v' in sys.argv and r.status!='held': print('  C',r.info.get('code','')[:1500]); print('  W',r.info.get('want','')[:1500])
