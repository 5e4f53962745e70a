import sys,time,traceback
sys.path.insert(0,'/verif/lib')
import build,mir,absint
P=mir.load(build.dump())
pat=sys.argv[1] if len(sys.argv)>1 else ''
tot={}
for b in sorted(P.fns(),key=lambda b:(b.file,b.line)):
    if b.kind!='fn' or b.derived: continue
    if pat and pat not in b.path: continue
    if not pat and not b.reach: continue
    E=absint.Eng(P)
    st=absint.State()
    t0=time.time()
    try:
        args=[E.mk(('arg',i+1),b.locals[i+1]['t']) for i in range(b.argc)]
        r=E.call_body(st,b,args)
        res='%d rets'%len(r)
    except absint.Budget as e: res='BUDGET %s'%e
    except Exception as e:
        res='EXC %r'%e
        if pat: traceback.print_exc()
    bad=[o for o in E.oblig.values() if not o['ok'] and not o['kind'].startswith('overflow:Add')]
    dt=time.time()-t0
    if dt>1 or 'rets' not in res or bad or pat:
        print('%-70s %6.2fs steps=%d %s obl=%d bad=%d unm=%s'%(b.path[-70:],dt,E.steps,res,len(E.oblig),len(bad),list(E.unmodelled) if pat else ''))
    for o in bad:
        if pat: print('    ',o['fn'],o['line'],o['kind'],o['detail'][:230])
    if pat and 'rets' in res:
        for s,v in r[:4]: print('   ->',v, 'facts',len(s.ge))
