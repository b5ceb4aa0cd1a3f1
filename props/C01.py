"""Domain separation: what is hashed or signed starts with the prefix of its type, and prefixes do not clash."""
from spec import *
import terms as TM
from terms import leaves, lift_gates
from effects import calls
from overflow import callgraph

RULE = 'every Hashable is represented by its constant prefix followed by its bytes, the prefixes are distinct and prefix-free over the types, and every message passed to a hash or signature primitive starts with such a prefix; message tags are two bytes, distinct and comma-free'
PARTS = ['objects', 'sites', 'tags']

# primitive -> (index of the message argument, whether it is a plain hash)
PRIM = {'ed25519_dalek::Digest::digest': (0, True), 'ed25519_dalek::Signer::sign': (1, False),
        'ed25519_dalek::PublicKey::verify_strict': (1, False), 'ed25519_dalek::Verifier::verify': (1, False)}
HASHREP = 'crypto::hashable::Hashable::hash_rep'
# structures whose hashing is internal to one construction and specified elsewhere (see DESIGN.md)
INTERNAL = ('crypto::vrf::', 'crypto::merkletrie::')
# credentials of protocol versions before domain separation was introduced; the rule for them is C15's
LEGACY = ('UnauthenticatedCredential::verify',)


def text(t):
    t = TM.norm_const(t) if isinstance(t, Term) else t
    if isinstance(t, Term) and t.op == 'k' and t.args[0] in ('str', 'bytes'):
        x = t.args[1]
        return x.encode() if isinstance(x, str) else bytes(x)
    return None


def consts(n):
    """The constant strings a value can be, or None when it can be something else."""
    r = set()
    for t in leaves(lift_gates(n)):
        x = text(t)
        if x is None:
            return None
        r.add(x)
    return r


def show(b):
    return b.decode('utf8', 'replace')


def declared(P):
    r = {}
    for c in P.lib.consts.values():
        if c['path'].startswith('protocol::hash::') and c['val'][0] == 'str':
            r[c['path'].split('::')[-1]] = (c['val'][1].encode(), '%s:%s' % (c['file'], c['line']))
    return r


def hashables(P):
    r = {}
    for f in P.lib.fns:
        if f.get('local') and f.get('blocks') and f.get('trait') == 'crypto::hashable::Hashable' and (f.get('item') or f['name']).endswith('to_be_hashed'):
            r.setdefault(P.lib.T[f['self']]['s'], f)
    return r


def owners(P):
    """prefix -> types whose representation starts with it"""
    r = {}
    for ty, f in sorted(hashables(P).items()):
        R = P.run(f)
        got = consts(R.v.f('0').n)
        r[ty] = (f, R, got)
    return r


def same_object(a, b):
    # the raw vector of signed transactions and the transaction group it stands for
    return {a.split('::')[-1], b.split('::')[-1]} == {'TxGroup', 'SignedTxVec'}


def objects(P, ck):
    own = owners(P)
    if not own:
        raise Missing('implementations of Hashable')
    reps = {}
    for ty, (f, R, got) in own.items():
        w = loc(f)
        nm = ty.split('::')[-1]
        if got is None:
            ck.same('prefix of %s is a constant' % nm, R.v.f('0').n, leaf(TM.K('str', 'constant')), w)
            continue
        if b'' in got:
            ck.fail('prefix of %s is not empty' % nm, w, 'the prefix is empty')
        else:
            ck.ok('prefix of %s is not empty' % nm, w)
        # the bytes hashed: prefix then data, also where the type replaces the provided method
        over = [g for g in P.lib.fns if g.get('local') and g.get('blocks') and g.get('trait') == 'crypto::hashable::Hashable' and (g.get('item') or g['name']).endswith('hash_rep') and g.get('self') == f['self']]
        gs = over or [g for g in P.insts('Hashable::hash_rep') if g.get('targs') and P.lib.T[g['targs'][0]]['s'] == ty]
        if over or gs:
            g = gs[0]
            H = P.run(g)
            D = P.call(f, H.p[0])
            ck.same('%s is represented by prefix and bytes' % nm, H.ret, Cat(D.v.f('0').n, D.v.f('1').n), loc(g), assume=conj(neg(panics(H)), neg(panics(D))))
        reps[ty] = got
    if not any(True for o in ck.obs if 'represented' in o[0]):
        ck.und('representation', '', 'no instance of hash_rep found')
    dec = declared(P)
    names = [('constant ' + k, {v[0]}, v[1]) for k, v in sorted(dec.items())]
    tys = [(t, reps[t], loc(own[t][0])) for t in sorted(reps)]
    for group, what in ((tys, 'types'), (names, 'declared prefixes')):
        for i, (a, pa, wa) in enumerate(group):
            bad = None
            for b, pb, wb in group[:i]:
                if same_object(a, b):
                    continue
                for x in pa:
                    for y in pb:
                        if x and y and (x.startswith(y) or y.startswith(x)):
                            bad = '"%s" of %s clashes with "%s" of %s (%s)' % (show(x), a, show(y), b, wb)
            if bad:
                ck.fail('%s: the prefix of %s is its own' % (what, a.split('::')[-1]), wa, bad)
            else:
                ck.ok('%s: the prefix of %s is its own' % (what, a.split('::')[-1]), wa)
    # a type's prefix against every declared one that is not the same string
    for t, ps, w in tys:
        for x in ps:
            for k, (y, wy) in sorted(dec.items()):
                if x != y and (x.startswith(y) or y.startswith(x)) and x and y:
                    ck.fail('the prefix of %s does not clash' % t, w, '"%s" and "%s" (%s)' % (show(x), show(y), wy))


def prim(path):
    return PRIM.get(path.split('<')[0])


def sites(P, ck):
    C = P.lib
    known = set()
    for ty, (f, R, got) in owners(P).items():
        known |= got or set()
    known |= {v[0] for v in declared(P).values()}
    callers, owner = callgraph(C)
    byid = {f['id']: f for f in C.fns}
    wrap = {}          # local functions that pass a parameter on as the message: path -> argument index
    done = set()
    extra = {}
    n = 0
    while True:
        todo = []
        for f in C.fns:
            if not f.get('local') or not f.get('blocks') or f['kind'] != 'item' or f.get('dk') == 'Closure':
                continue
            fam = [f] + [g for g in C.fns if g.get('dk') == 'Closure' and g.get('blocks') and g['path'].startswith(f['path'] + '::{closure') and g['line'] >= f['line']]
            used = frozenset(c[0] for g in fam for c in calls(g) if prim(c[0]) or c[0] in wrap)
            if used and (f['id'], used) not in done:
                todo.append((f, used))
        if not todo:
            break
        for f, used in todo:
            done.add((f['id'], used))
            p = f['path']
            if any(x in p for x in INTERNAL) or p.endswith(LEGACY) or p in wrap:
                continue
            n += 1
            w = loc(f)
            R = P.run(f, opaque=[x for x in wrap if x != p])
            msgs = []
            for x in [R.ret] + list(R.out.values()):
                for t in subterms(x):
                    if t.op == 'app':
                        k = prim(t.args[0]) or wrap.get(t.args[0])
                        if k and k[0] < len(t.args[1]):
                            msgs.append((t.args[0].split('<')[0], t.args[1][k[0]], k[1]))
            for e in R.events:
                k = prim(e.name) or wrap.get(e.name)
                if k and k[0] < len(e.args):
                    msgs.append((e.name.split('<')[0], e.args[k[0]], k[1]))
            if not msgs:
                ck.und('what %s hashes or signs' % p, w, 'no message found in its result')
                continue
            params = {nod(v.n): i for i, v in enumerate(R.p or [])}
            bad, unk = None, None
            for name, m, hashed in msgs:
                for t in leaves(lift_gates(nod(m))):
                    if not isinstance(t, Term):
                        continue
                    root = base(t)
                    if nod(t) in params:
                        wrap.setdefault(p, (params[nod(t)], hashed))
                        continue
                    if root is not None and root in [v.n for v in R.p or []]:
                        continue     # stored in an object handed in: checked where it was put there
                    if t.op == 'app' and t.args[0].split('<')[0] == HASHREP:
                        continue
                    h = text(t)
                    if t.op == 'concat':
                        h = text(t.args[0][0]) if t.args[0] else None
                    if h is None:
                        if t.op == 'app' and t.args[0].split('<')[0] in PRIM or digest_of(t):
                            continue     # hashing or signing a digest of a message that is itself checked
                        inside = [x for x in subterms(t) if x.op == 'app']
                        if hashed and not any(x.args[0] == 'msgpack' or x.args[0].split('<')[0] in (HASHREP, 'ed25519_dalek::Digest::digest') for x in inside):
                            continue     # raw bytes (a checksum, a priority): not an encoded object
                        if has_unk(t):
                            unk = 'not determined: %s' % (repr(t)[:200],)
                        else:
                            bad = '%s is given a message without a type prefix: %s' % (name.split('::')[-1], repr(t)[:200])
                        continue
                    m1 = [x for x in known if h.startswith(x)]
                    if m1:
                        continue
                    c1 = [x for x in known | set(extra) if (x.startswith(h) or h.startswith(x)) and x != h]
                    if c1:
                        bad = 'the message starts with "%s", which clashes with the prefix "%s"' % (show(h), show(c1[0]))
                    else:
                        extra[h] = p
            nm = 'messages of %s' % p
            if bad:
                ck.fail(nm, w, bad)
            elif unk:
                ck.und(nm, w, unk)
            else:
                ck.ok(nm, w)
    if not n:
        raise Missing('a call of a hash or signature primitive')


def base(t):
    """The parameter a field/element path starts from."""
    while isinstance(t, Term) and t.op in ('fld', 'idxat', 'field', 'index', 'proj', 'at', 'get'):
        a = t.args[0]
        if isinstance(a, Node):
            if not TM.is_leaf(a):
                return None
            a = leafval(a)
        t = a
        if isinstance(t, Term) and t.op == 'sym':
            return leaf(t)
    return None


def digest_of(t):
    while isinstance(t, Term) and t.op in ('fld', 'slice', 'arr', 'field'):
        a = t.args[0]
        if isinstance(a, tuple):
            return False
        t = leafval(a) if isinstance(a, Node) and TM.is_leaf(a) else a
    return isinstance(t, Term) and t.op == 'app' and t.args[0].split('<')[0] == 'ed25519_dalek::Digest::digest'


def tags(P, ck):
    l = [c for c in P.lib.consts.values() if c['path'].startswith('protocol::tags::') and c['val'][0] == 'str']
    if not l:
        raise Missing('message tags')
    seen = {}
    for c in l:
        nm, v, w = c['path'].split('::')[-1], c['val'][1], '%s:%s' % (c['file'], c['line'])
        bad = None
        if len(v.encode()) != 2:
            bad = '"%s" is %d bytes long' % (v, len(v.encode()))
        elif ',' in v:
            bad = '"%s" contains the separator' % v
        elif v in seen:
            bad = '"%s" is also %s' % (v, seen[v])
        seen.setdefault(v, nm)
        if bad:
            ck.fail('tag ' + nm, w, bad)
        else:
            ck.ok('tag ' + nm, w)
