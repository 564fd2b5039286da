from dev import *
import traceback,collections
prog=load()
tot=time.time()
um=collections.Counter()
for f in prog.fns:
    if f['key'] is None: print("NOKEY",f['path']); continue
    t=time.time()
    try:
        ip,res=analyse(prog,f['path'])
        um.update(ip.unmodelled.keys())
        dt=time.time()-t
        if dt>1 or len(res)>40 or not res or '-v' in sys.argv: print(f['path'].replace('triple_arena::',''),"out",len(res),"it",len(ip.iterations),"steps",ip.steps,"%.2f"%dt)
    except Limit as e: print("LIMIT",f['path'],e,"%.2f"%(time.time()-t))
    except Exception as e:
        print("EXC",f['path'],repr(e)); traceback.print_exc(limit=-3)
print(time.time()-tot)
for k,v in um.most_common(): print(v,k)
