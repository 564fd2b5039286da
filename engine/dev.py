import json,sys,time,pickle,os
from interp import *
from models import *
cfg='full'
def load(cfg='full'):
    return Program(json.load(open(f'/verif/.work/{cfg}.json')))
def show(o):
    st,ret=o
    print("  ret", st.facts.norm(ret))
    for l in st.facts.log: print("     ", l[0], l[1], l[2])
    for k,v in st.heap.items(): print("    H", k, ":=", v)
    for e in st.events: print("    E", e)
def analyse(prog, path, contracts=None):
    f=prog.by_path[path]
    ip=Interp(prog, Models(prog, contracts))
    st=State()
    b=prog.bodies[f['key']]
    names=dict(b['names'])
    args=[T('arg',i,names.get(i,'a%d'%i)) for i in range(1,b['argc']+1)]
    res=ip.call_body(f['key'],args,st,0)
    return ip,res
if __name__=='__main__':
    prog=load()
    pat=sys.argv[1]
    for f in prog.fns:
        if pat in f['path']:
            t=time.time()
            print("==",f['path'])
            try:
                ip,res=analyse(prog,f['path'])
            except Limit as e:
                print("  LIMIT",e); continue
            print("  outcomes",len(res),"panics",len(ip.panics),"iters",len(ip.iterations),"steps",ip.steps,"%.2fs"%(time.time()-t), ip.unmodelled)
            if len(sys.argv)>2:
                for o in res: show(o)
                for it in ip.iterations:
                    print(" ITER",it.fn); show((it.head,UNIT)); print("  -->"); show((it.back,UNIT))
