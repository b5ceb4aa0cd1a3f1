import sys,json,time
from interp import *
D=json.load(open('/verif/.build/facts/algorsand-lib.json'))
C=Crate(D)
def get(path):
    l=[f for f in C.fns if (f['path']==path or f['path'].endswith(path)) and f.get('blocks') and f['local']]
    return l
def symargs(I,f):
    out=[];cells={}
    fr=Frame();fr.f,fr.C,fr.T=f,C,C.T
    for i in range(f['argc']):
        t=C.T[f['locals'][i+1]]; nm=f['names'].get(str(i+1),'a%d'%i)
        x=mk('sym',nm)
        I.ranged(x,t,C.T)
        if t['k']=='ref' and t.get('mut'):
            cells[nm]=leaf(x); out.append(cell(nm))
        else: out.append(leaf(x))
    return out,cells
if __name__=='__main__':
  for pth in sys.argv[1:]:
    for f in get(pth):
        I=Interp([C])
        a,c=symargs(I,f)
        t0=time.time()
        print('=====',f['path'],f['id'],[C.T[t]['s'] for t in f['targs']] if f['targs'] else '')
        try:
            r,s,k=I.analyse(f,a,cells=c)
            print('RET',showb(r)); 
            for kk,v in s.items():
                if kk[0]==-1: print('  OUT',kk[1],showb(v)[:600])
            print('ok cond',showb(k)[:300]); print('notes',I.notes,'ext',I.ext,'steps',I.steps,'%.1fs'%(time.time()-t0))
        except Exception as e:
            import traceback; traceback.print_exc(); print(I.stack[-1]['path'] if I.stack else '')
