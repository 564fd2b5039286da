import sys,time,json
from interp import *
from layout import *
from subject import *
import importlib
class R_: pass
R=R_()
for m in ('rules_core','rules_chain','rules_surject','rules_iter','rules_bulk','rules_ord','rules_misc','rules_forward'):
    try: mm=importlib.import_module(m)
    except ModuleNotFoundError as e:
        continue
    for k in dir(mm):
        if k.startswith('rule_'): setattr(R,k,getattr(mm,k))

prog=Program(json.load(open(__import__('os').environ.get('FJ','/verif/.work/full.json'))))
L=Layout(prog)
def go(f, rules, con):
    t=time.time()
    s=Subject(prog,L,f,con)
    if '-n' not in sys.argv: s.tree_mode()
    try:
        s.run()
    except Limit as e:
        print("LIMIT",f['path'],e,"%.1f"%(time.time()-t)); return
    fs=[]
    for r in rules:
        s.checked=0
        try: fs+=getattr(R,r)(s)
        except Limit as e: print("LIMIT rule",f['path'],r,e)
    dt=time.time()-t
    if fs or dt>3 or '-v' in sys.argv: print(f['path'].replace('triple_arena::',''),"out",len(s.out),"%.1f"%dt, s.checked)
    seen=set()
    for x in fs:
        if x.key() in seen: continue
        seen.add(x.key())
        print("   ",x.rule,x.what); 
        if '-d' in sys.argv: print("       ",x.detail)
if __name__=='__main__':
    rules=sys.argv[1].split(',')
    pat=sys.argv[2] if len(sys.argv)>2 else ''
    for f in prog.fns:
        if f['key'] is None: continue
        if pat and pat not in f['path']: continue
        s=Subject(prog,L,f,())
        if not s.by.get(1) or not (f['pub'] or f.get('trait')): continue
        base = s.self_kind()=='Arena'
        go(f,rules,('reserve',) if base else ('reserve','clear','insert','insert_with') if s.self_kind() else ('reserve','clear'))
