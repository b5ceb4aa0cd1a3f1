"""Pretty-prints the extracted MIR facts (debugging aid)."""
import json,sys
def load(p): return json.load(open(p))
def pl(p,names=None):
    s='_%d'%p[0]
    for e in p[1:]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%s'%(e[1] if e[1] else e[2])
        elif e[0]=='v': s+=' as %s'%e[1]
        elif e[0]=='i': s+='[_%s]'%e[1]
        else: s+=str(e)
    return s
def op(o,D=None):
    if o[0]in('cp','mv'): return ('' if o[0]=='cp' else 'mv ')+pl(o[1])
    if o[0]=='c': return 'c%s'%(json.dumps(o[2])[:80])+(':'+str(o[3]) if len(o)>3 and o[3] else '')
    if o[0]=='cfn': return 'fn<%s>'%(o[1][1] if isinstance(o[1],list) else o[1])
    return json.dumps(o)[:80]
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k=='bin': return '%s %s %s'%(op(r[2]),r[1],op(r[3]))
    if k=='ref': return '&%s%s'%('mut ' if r[1] else '',pl(r[2]))
    if k=='discr': return 'discr '+pl(r[1])
    if k=='agg': return 'agg %s{%s}%s'%(r[1:3],', '.join(op(x) for x in r[3]),r[4:])
    if k=='un': return '%s %s'%(r[1],op(r[2]))
    if k=='cast': return 'cast %s %s'%(r[1],' '.join(op(x) if isinstance(x,list) else str(x) for x in r[2:]))
    return json.dumps(r)[:200]
def show(f,D):
    print('fn %s  id=%s %s:%s argc=%d kind=%s'%(f['path'],f['id'],f['file'],f['line'],f['argc'],f.get('dk')))
    T=D['types']
    for i,t in enumerate(f['locals']): print('   _%d: %s  %s'%(i,T[t]['s'],f['names'].get(str(i),'')))
    for i,b in enumerate(f['blocks']):
        print(' bb%d%s:'%(i,' cleanup' if b.get('c') else ''))
        for s in b['s']:
            if s[0]=='=': print('     %s = %s   @%s'%(pl(s[1]),rv(s[2]),s[3]))
            elif s[0]=='dead': pass
            else: print('     ',s)
        t=b['t']
        if t[0]=='call':
            c=t[1]
            print('     %s = call %s(%s) -> %s  @%s'%(pl(t[3]),c[1]+' #'+str(c[2]) if c[0]=='fn' else c,', '.join(op(x) for x in t[2]),t[4],t[5]))
        else: print('    ',json.dumps(t)[:300])
if __name__=='__main__':
    D=load(sys.argv[1])
    for f in D['fns']:
        if any(a in f['path'] for a in sys.argv[2:]): show(f,D)
