import sys
sys.path.insert(0,'/verif')
from sa.obligations import *
from sa.terms import show
ctx=Context()
def poly1(m):
    return tm.mk('poly',(m,),tm.NUM)
def dif(a,b,path,out):
    if a is b or len(out)>4: return
    if a.op!=b.op or len(a.a)!=len(b.a):
        out.append((path,show(a)[:700],show(b)[:700])); return
    if a.op=='poly':
        A,B=set(a.a),set(b.a)
        out.append((path+['poly'],' ;; '.join(sorted(show(tm.mk('poly',(m,),a.ty),0) if 0 else show(poly1(m)) for m in A-B))[:3000],' ;; '.join(sorted(show(poly1(m)) for m in B-A))[:3000])); return
    if a.op=='seq' and tm.ones(a) is not None and tm.ones(b) is not None and len(tm.ones(a))==len(tm.ones(b)):
        for i,(x,y) in enumerate(zip(tm.ones(a),tm.ones(b))): dif(x,y,path+[i],out)
        return
    n=0
    for i,(x,y) in enumerate(zip(a.a,b.a)):
        if isinstance(x,tm.T) and isinstance(y,tm.T):
            if x is not y: n+=1
    if n==0:
        out.append((path,show(a)[:700],show(b)[:700])); return
    for i,(x,y) in enumerate(zip(a.a,b.a)):
        if isinstance(x,tm.T) and isinstance(y,tm.T): dif(x,y,path+[(a.op,i)],out)
for o in ctx.obl:
    if o.name==sys.argv[1]:
        ab=o.meta.get('abstract',[])
        c=ctx.run(o.mod,o.name+'_code',o.params,ab,o.meta.get('nodiv',False)); print('notes',dict(ctx.ip.notes))
        w=ctx.run(o.mod,o.name+'_want',o.params,ab,o.meta.get('nodiv',False)); print('notes',dict(ctx.ip.notes))
        out=[]; dif(c.t,w.t,[],out)
        for p,x,y in out: print(p); print('  C',x); print('  W',y)
