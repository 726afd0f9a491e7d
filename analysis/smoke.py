import sys,time,traceback
sys.path.insert(0,'/verif/analysis')
import facts, terms
from terms import *
import engine
F=facts.Facts(sys.argv[1] if len(sys.argv)>1 else '/tmp/facts.json')
terms.STRUCTS.update(F.structs)
pat=sys.argv[2] if len(sys.argv)>2 else None
n=ok=0;errs={};unk={};slow=[]
for p,b in F.bodies.items():
    if b['kind']!='fn' or b.get('derived'): continue
    if pat and pat not in p: continue
    n+=1
    E=engine.Engine(F)
    t=time.time()
    try:
        s=E.run(p)
        ok+=1
        u=[x for x in subterms(s.ret) if x.op=='unk']
        for k,v in s.state.items():
            u+= [x for x in subterms(v) if x.op=='unk']
        for x in u: unk.setdefault(str(x.args[0][0]),set()).add(p)
        if pat: 
            print('==',p); print('  cond',show(s.cond,6)); print('  ret',show(s.ret,14))
            for k,v in s.state.items():
                if k[0]=='M' and v is not k[1]: print('   *',show(k[1]),'=',show(v,12))
    except Exception as e:
        errs.setdefault(type(e).__name__+':'+traceback.format_exc().strip().split('\n')[-3][-110:],[]).append(p)
        if pat: traceback.print_exc()
    dt=time.time()-t
    if dt>0.5: slow.append((round(dt,1),p))
print(n,ok)
for k,v in errs.items(): print(len(v),k,v[:4])
for k,v in unk.items(): print('UNK',k,len(v),sorted(v)[:4])
print(sorted(slow)[::-1][:20])
