import sys,glob,time,traceback
sys.path.insert(0,'/verif/irsym')
import ir,eng,z3
D='/verif/target/ir/x86_64-unknown-linux-gnu/release/deps/'
def mod():
    m=ir.Module()
    for i,f in enumerate(sorted(glob.glob(D+'*.ll'))):
        m.load(f,'m%d.'%i)
    return m
m=mod()
for a in sys.argv[1:]:
    h,lo,hi=a.split(':'); lo=int(lo);hi=int(hi)
    t=time.time()
    e=eng.Engine(m)
    try:
        e.harness(h,hi,lo,hi)
        t1=time.time()
        f=eng.b_ors([o[2] for o in e.obl])
        r=e.check(f,True) if f is not False else False
    except Exception as x:
        traceback.print_exc(limit=-3); print(h,'ERR',x, e.stack); continue
    print(h,'enc %.1fs'%(t1-t),'steps',e.steps,'obl',len(e.obl),'funcs',len(e.funcs_used),'res',bool(r),'q',e.queries,'st %.2f'%e.solver_time)
    if r is not False:
        print('  cex',e.model_input(r).hex())
        for o in e.obl:
            if z3.is_true(r.eval(eng.zb(o[2]),model_completion=True)): print('   ',o[0],o[1],o[3])
    for k,c in e.covers.items():
        if not (c is True or e.check(c)): print('  UNREACHED cover',k)
    if not e.covers: print('  NO COVERS')
