"""Lock discipline of the one-time secrets and the account manager."""
from spec import *
from locks import Locks, short, ADT

RULE = ('a dataflow over every function of the crate: each access to lock-protected state happens while a guard on that very object is held (in the mode needed), from the first access of an operation to its last; '
        'no lock is acquired while already held, guards are not leaked, and the order in which locks are nested is acyclic')
PARTS = ['library', 'binary']


def locked(P, ck, L, C):
    for nm in ('OTSSecrets', 'AccountManager'):
        ts = [t for t in C.T if t['k'] in ADT and t.get('local') and short(t.get('path')) == nm]
        if not ts:
            raise Missing(nm)
        t = ts[0]
        if t['path'] in L.owners:
            lk, prot, _ = L.owners[t['path']]
            if nm == 'OTSSecrets' and not prot:
                ck.und('%s: what the lock protects' % nm, nm, 'no field is found that is changed in place')
            ck.ok('%s: %s protects %s' % (nm, lk, ', '.join(sorted(prot))), t['path'])
            continue
        fs = t['variants'][0]['fields']
        inner = [n for n, x, _ in fs if 'RwLock<' in C.T[x]['s'] or 'Mutex<' in C.T[x]['s']]
        if inner:
            ck.ok('%s: the data live inside the lock (%s)' % (nm, ', '.join(inner)), t['path'])
        else:
            ck.fail('%s has a lock' % nm, t['path'], 'no field of the type is a lock: nothing orders its readers and writers')


def report(ck, L):
    for (w, k), what in sorted(L.viol.items(), key=str):
        ck.fail('lock discipline: ' + k, w, what)
    for (w, k), what in sorted(L.undec.items(), key=str):
        ck.und('lock discipline: ' + k, w, what)
    for (w, k) in sorted(L.okc):
        ck.ok('%s touched under its lock' % k, w)
    for (a, b), w in sorted(L.order.items()):
        if not any(w in x and a in k for (x, k) in L.viol):
            ck.ok('lock order: %s before %s' % (a, b), w)


def library(P, ck):
    L = Locks(P.lib)
    P.inlined |= {(f.get('file'), f['line'], f['path']) for f in L.hot}
    locked(P, ck, L, P.lib)
    report(ck, L)
    ck.ok('lock discipline: %d functions of the library analysed' % len(L.fns), 'src')


def binary(P, ck):
    if P.bin is None:
        return
    L = Locks(P.bin, owners=Locks(P.lib).owners)
    P.inlined |= {(f.get('file'), f['line'], f['path']) for f in L.hot}
    report(ck, L)
    ck.ok('lock discipline: %d functions of the tool analysed' % len(L.fns), 'src/bin/algokey')
