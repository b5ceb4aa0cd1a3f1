"""Obligations of arithmetic and of panicking operations, decided under the path condition that reaches them."""
from spec import *
import spec

WIDE = ('u64', 'u128', 'i64', 'i128')


def obligations(P, f, cond=T, max_steps=400000, opaque=(), args=None):
    C = f['_c']
    I = P.interp(C, max_steps=max_steps, opaque=opaque)
    I.obl = []
    a, vs, cells = P.params(f)
    if args is not None:
        a = args
    try:
        I.analyse(f, [nod(x) for x in a], cond=cond, cells=cells)
    finally:
        P.notes += I.notes
        P.inlined |= I.inlined
        P.ext |= I.ext
        P.sites.update(I.atomsite)
        P.steps += I.steps
    return I.obl


def verdict(o):
    """('ok'|'violation'|'undecided', witness) for one obligation."""
    bad = conj(o['cond'], o['bad'])
    if bad is F:
        return 'ok', ''
    b0 = bad
    A = axioms(bad)
    bad = conj(A, bad)
    if bad is F:
        return 'ok', ''
    Q = TM.lift_gates(b0)
    if Q is not b0:
        A = axioms(Q)
        bad = conj(A, Q)
        if bad is F:
            return 'ok', ''
    uv = [v for v in support(bad) if has_unk(VARS[v])]
    if uv:
        sure = neg(exists(neg(bad), uv))
        if sure is F:
            if any(x.op == 'whl' for x in subterms(bad)):
                import invariants
                if invariants.prove(invariants.strengthen(bad, T), F):
                    return 'ok', ''
                for b in invariants.rounds(bad):
                    b = conj(axioms(b), b)
                    bv = [v for v in support(b) if has_unk(VARS[v])]
                    b = neg(exists(neg(b), bv)) if bv else b
                    if b is not F:
                        return 'violation', 'in the first rounds of a loop: ' + showcube(minimise(pick(b), axioms(b), b))[:3000]
            return 'undecided', 'depends on constructs the analysis does not interpret: ' + '; '.join(show(VARS[v])[:200] for v in uv[:3])
        bad = sure
    c = minimise(pick(bad), A, bad) if not uv else pick(bad)
    return 'violation', showcube(c)[:3000]


def where(o):
    return '%s:%s %s' % o['at']


def merge(res):
    """Worst verdict per site."""
    rank = {'ok': 0, 'undecided': 1, 'violation': 2}
    out = {}
    for key, st, w in res:
        if key not in out or rank[st] > rank[out[key][0]]:
            out[key] = (st, w)
    return out


def report(ck, name, sites):
    for key in sorted(sites, key=str):
        st, w = sites[key]
        ck.ob('%s: %s' % (name, key[1]), st, key[0], w)


def wide(o):
    return o['kind'] in ('overflow', 'cast') and o['ty'] in WIDE


def check_fn(P, ck, f, label, want=wide):
    res = []
    for o in obligations(P, f):
        if want(o):
            st, w = verdict(o)
            res.append(((where(o), o['what']), st, w))
    if not res:
        ck.ok('%s: no unchecked arithmetic in %s' % (label, f['path'].split('::')[-1]), loc(f))
    report(ck, label, merge(res))


# ------------------------------------------------------------------ whole-program enumeration
def callgraph(C):
    """callers[id] = ids of the local functions that call it (closures count as part of the function defining them)."""
    if hasattr(C, '_cg'):
        return C._cg
    owner = {}
    bypath = {}
    for f in C.fns:
        if f['local'] and f.get('dk') != 'Closure' and f.get('blocks'):
            bypath.setdefault(f['path'], []).append(f['id'])
    for f in C.fns:
        p = f['path']
        k = p.find('::{closure')
        owner[f['id']] = [f['id']] if k < 0 else bypath.get(p[:k], [f['id']])
    callers = {}
    for f in C.fns:
        if not f['local'] or not f.get('blocks'):
            continue
        for b in f['blocks']:
            t = b['t']
            if t[0] == 'call' and t[1][0] == 'fn' and t[1][2] is not None:
                for o in owner[f['id']]:
                    for g in owner.get(t[1][2], [t[1][2]]):
                        if g != o:
                            callers.setdefault(g, set()).add(o)
            for s in b['s']:
                for x in mentions(s):
                    for o in owner[f['id']]:
                        if x != o:
                            callers.setdefault(x, set()).add(o)
    C._cg = (callers, owner)
    return C._cg


def mentions(s):
    """Function items used as values in a statement."""
    out = []
    st = [s]
    while st:
        x = st.pop()
        if isinstance(x, list):
            if len(x) > 2 and x[0] == 'cfn' and isinstance(x[2], int):
                out.append(x[2])
            st.extend(x)
    return out


ARITH = ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'Iterator::sum', 'Iterator::product', '>::pow')


def tyof_operand(f, o, T):
    if o[0] in ('cp', 'mv'):
        p = o[1]
        if len(p) == 1:
            return T[f['locals'][p[0]]]['s']
        e = p[-1]
        if isinstance(e, list) and e[0] == 'f':
            return T[e[3]]['s']
        return None
    if o[0] == 'c':
        return T[o[1]]['s'] if isinstance(o[1], int) else None
    return None


def static_sites(C, infile):
    """Unchecked wide arithmetic present in the MIR of the functions in scope: (fn, line, what)."""
    out = []
    for f in C.fns:
        if not f['local'] or not f.get('blocks') or not infile(f['file']) or f.get('derived'):
            continue
        if '_serde::' in f['path'] or 'serialize' in f['name'].lower() or '::_::' in f['path']:
            continue
        for b in f['blocks']:
            t = b['t']
            if b.get('c'):
                continue
            if t[0] == 'assert' and t[3].startswith('overflow'):
                tys = {tyof_operand(f, o, C.T) for o in t[4][:1]}
                if tys & set(WIDE) or None in tys:
                    out.append((f, t[6], t[3]))
            elif t[0] == 'call' and t[1][0] == 'fn' and any(x in t[1][1] for x in ARITH):
                out.append((f, t[5], t[1][1]))
            elif t[0] == 'call' and t[1][0] == 'fn' and (t[1][5] or '').startswith('std::ops::') and (t[1][4] or '').split('_')[0] in ('add', 'sub', 'mul'):
                ty = C.T[t[1][3][0]]['s'].lstrip('&') if t[1][3] and isinstance(t[1][3][0], int) else None
                if ty in WIDE:
                    out.append((f, t[5], t[1][1]))
            for s in b['s']:
                if s[0] == '=' and isinstance(s[2], list) and s[2] and s[2][0] == 'cast' and s[2][1] == 'IntToInt':
                    to = C.T[s[2][4]]['s'] if isinstance(s[2][4], int) else None
                    if to in WIDE:
                        out.append((f, s[3], 'cast'))
    return out


def roots_of(C, fid, seen=None):
    """Public callers (or the function itself when it is public or nobody calls it)."""
    callers, owner = callgraph(C)
    seen = set() if seen is None else seen
    if fid in seen:
        return set()
    seen.add(fid)
    f = C.byid[fid]
    cs = callers.get(fid, set())
    if f.get('pub') or not cs:
        return {fid}
    r = set()
    for c in cs:
        r |= roots_of(C, c, seen)
    return r
