"""The previous header is only read, and the answers depend on it (and the candidate) alone."""
from spec import *
import terms as TM
from effects import calls, steps, places_written
from overflow import callgraph

RULE = 'every entry point leaves each value it is handed as it was, no interior mutability is reachable from a header, no reachable function writes through raw pointers, and the result is a function of the arguments and the protocol table (a new block also reads the clock)'
PARTS = ['unchanged', 'frozen', 'pure']

ENTRY = [('BlockHeader::pre_check', False), ('Block::new', True), ('process_upgrade_params', False), ('UpgradeState::apply_upgrade_vote', False), ('RewardsState::next_state', False)]
CLOCK = ('time::SystemTime::now',)
# reading any of these makes an answer depend on something other than the arguments
AMBIENT = ('::time::', 'rand::', 'rand_core::', 'std::env::', 'std::fs::', 'std::net::', 'std::process::', 'std::thread::', 'sync::atomic::', '::AtomicU', '::AtomicB', '::AtomicI', 'std::cell::', 'core::cell::', 'std::sync::', 'std::io::', 'getrandom::')


def entries(P):
    for nm, clock in ENTRY:
        yield nm, P.fn(nm), clock


def unchanged(P, ck):
    for nm, f, clock in entries(P):
        w = loc(f)
        R = P.run(f)
        C = f['_c']
        n = 0
        for i, v in enumerate(R.p):
            t = C.T[f['locals'][1 + i]]
            if t['k'] != 'ref' or not t['mut']:
                n += 1
                continue
            name = [k for k in R.out if k.strip("'") == str(pname(f, i))] or list(R.out)[:1]
            for k in name:
                ck.same('%s leaves %s as it was' % (nm, pname(f, i)), R.out[k], v.n, w)
        ck.ok('%s: %d arguments taken by shared reference or value' % (nm, n), w)


def pname(f, i):
    nm = f.get('names') or {}
    return nm.get(str(1 + i)) or nm.get(1 + i) or i


def reach_types(C, t0):
    seen, st, idx = set(), [t0], C.T
    while st:
        t = st.pop()
        key = t['s']
        if key in seen:
            continue
        seen.add(key)
        yield t
        kids = list(t.get('args') or [])
        if t.get('of') is not None:
            kids.append(t['of'])
        for v in t.get('variants') or []:
            kids += [x[1] for x in v['fields']]
        st += [idx[k] for k in kids if isinstance(k, int)]


def frozen(P, ck):
    C = P.lib
    seen = 0
    for name in ('BlockHeader', 'UpgradeState', 'RewardsState', 'UpgradeVote', 'ConsensusParams'):
        t0 = P.type(name)
        bad = None
        for t in reach_types(C, t0):
            seen += 1
            if t.get('frz') is False or t['k'] == 'ptr':
                bad = t['s']
        if bad:
            ck.fail('%s has no interior mutability' % name, t0['path'], 'it contains %s, which can change behind a shared reference' % bad)
        else:
            ck.ok('%s has no interior mutability' % name, t0['path'])
    if seen < 20:
        ck.und('types', '', 'only %d types found' % seen)


def callees(C, f):
    """Local functions reachable from f."""
    seen, st = {f['id']: f}, [f]
    while st:
        g = st.pop()
        out = [c[1] for c in calls(g)]
        for b in g.get('blocks') or []:
            for s in b['s']:
                if s[0] == '=' and s[2] and s[2][0] == 'agg' and s[2][1] == 'closure':
                    out.append(s[2][2])
        for x in out:
            h = C.byid.get(x)
            if h is not None and h.get('local') and h.get('blocks') and h['id'] not in seen:
                seen[h['id']] = h
                st.append(h)
    return list(seen.values())


def pure(P, ck):
    for nm, f, clock in entries(P):
        w = loc(f)
        C = f['_c']
        fs = callees(C, f)
        bad = None
        for g in fs:
            boxed = {s[1][0] for b in g['blocks'] for s in b['s'] if s[0] == '=' and len(s[1]) == 1 and s[2] and s[2][0] == 'cast' and s[2][1] == 'BoxDerefTransmute'}
            for p, how, line in places_written(g):
                if p[0] in boxed:
                    continue      # filling a box the function has just allocated
                st, _ = steps(g, p, C.T)
                for t, e in st:
                    if e == '*' and t['k'] == 'ptr' and how == 'assign':
                        bad = '%s:%s writes through a raw pointer' % (g['file'], line)
            for c in calls(g):
                if c[0].startswith(('std::ptr::write', 'core::ptr::write', 'std::ptr::copy', 'std::ptr::swap', 'std::ptr::replace', 'std::mem::transmute', 'core::mem::transmute')) or '::from_raw_parts_mut' in c[0]:
                    bad = '%s:%s calls %s' % (g['file'], c[5], c[0])
        if bad:
            ck.fail('%s and its %d callees write only through references' % (nm, len(fs) - 1), w, bad)
        else:
            ck.ok('%s and its %d callees write only through references' % (nm, len(fs) - 1), w)
        R = P.run(f)
        own = {leafval(v.n) for v in R.p if is_leaf(v.n) and isinstance(leafval(v.n), Term)}
        bad = None
        for t in subterms(R.ret):
            if t.op == 'app':
                n = t.args[0]
                if any(a in n for a in AMBIENT) and not (clock and any(c in n for c in CLOCK)) and not pure_of_time(n):
                    bad = bad or 'the result depends on %s' % n
            if t.op == 'sym' and str(t.args[0]).startswith('static:') and 'consensus' not in str(t.args[0]).lower():
                bad = bad or 'the result depends on %s' % t.args[0]
            if t.op in ('fresh', 'rng'):
                bad = bad or 'the result depends on random data'
        nm2 = '%s answers from its arguments alone' % nm
        if bad:
            ck.fail(nm2, w, bad)
        elif has_unk(R.ret):
            ck.und(nm2, w, 'part of the result is not determined')
        else:
            ck.ok(nm2, w)


def pure_of_time(n):
    return any(x in n for x in ('duration_since', 'Duration::', '::elapsed_since', 'UNIX_EPOCH'))
