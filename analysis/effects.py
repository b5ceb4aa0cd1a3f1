"""Whole-program effect queries over the MIR facts: who writes what, who calls what, in which order."""
from overflow import callgraph


def derived(f):
    return bool(f.get('derived')) or '_serde::' in f['path'] or '::_::' in f['path']


def private_callees(C, f):
    """f together with every local function (and closure) reachable only through it."""
    callers, owner = callgraph(C)
    S = {f['id']}
    grow = True
    while grow:
        grow = False
        for g in C.fns:
            if g['id'] in S or not g.get('local'):
                continue
            cs = callers.get(g['id'], set())
            if (cs and cs <= S) or (owner.get(g['id'], [g['id']]) != [g['id']] and set(owner[g['id']]) <= S):
                S.add(g['id'])
                grow = True
    return S


def steps(f, p, T):
    """Types along a place: (type before the projection element, element)."""
    t = T[f['locals'][p[0]]]
    out = []
    for e in p[1:]:
        out.append((t, e))
        if e == '*':
            if t['k'] in ('ref', 'ptr'):
                t = T[t['of']]
            elif t.get('args'):
                t = T[t['args'][0]]
        elif e[0] == 'f':
            t = T[e[3]] if isinstance(e[3], int) else {'k': 'other', 's': '?'}
        elif e[0] in ('i', 'ci', 'ss') and t.get('of') is not None:
            if e[0] != 'ss':
                t = T[t['of']]
    return out, t


def places_written(f):
    """(place, how, line) for everything a function body writes or borrows mutably."""
    for b in f['blocks']:
        if b.get('c'):
            continue
        for s in b['s']:
            if s[0] == '=':
                yield s[1], 'assign', s[3]
                r = s[2]
                if r and r[0] in ('ref', 'reborrow') and r[1]:
                    yield r[2], 'borrow', s[3]
                elif r and r[0] in ('addr', 'rawptr'):
                    yield r[2], 'borrow', s[3]
        t = b['t']
        if t[0] == 'call' and t[3]:
            yield t[3], 'assign', t[5]


def field_writes(C, path):
    """Sites in local code that write (or mutably borrow) a field of the struct."""
    for f in C.fns:
        if not f.get('local') or not f.get('blocks'):
            continue
        for p, how, line in places_written(f):
            st, _ = steps(f, p, C.T)
            for t, e in st:
                if isinstance(e, list) and e[0] == 'f' and t.get('path') == path and e[1] != 'lock':
                    # building a fresh local value is not a change of an existing one
                    if how == 'assign' and len(p) == 2 and '*' not in p:
                        continue
                    yield f, ('a mutable borrow of ' if how == 'borrow' else '') + 'field ' + e[1], line
                    break


def calls(f):
    """(callee path, callee id, targs, args, dest, line, block index) of every call of a body."""
    for i, b in enumerate(f['blocks']):
        if b.get('c'):
            continue
        t = b['t']
        if t[0] == 'call' and t[1][0] == 'fn':
            yield t[1][1], t[1][2], t[1][3], t[2], t[3], t[5], i


def reaches(C, targets):
    """Ids of the local functions from which a call whose path satisfies targets can be reached."""
    callers, owner = callgraph(C)
    seen = set()
    work = []
    for f in C.fns:
        if f.get('local') and f.get('blocks') and any(targets(c[0]) for c in calls(f)):
            work += owner[f['id']]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        work += list(callers.get(x, ()))
    return seen
