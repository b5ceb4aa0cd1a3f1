"""Untrusted input ends in acceptance or an error: no panicking operation of the checking and parsing entry points is reachable."""
from spec import *
import overflow as OV

RULE = 'for every panicking operation reachable from an entry point (panic calls, unwraps, indexing, slicing, copying, map indexing, division), the path condition that reaches it contradicts the condition under which it panics (overflow excepted: C16)'
PARTS = ['transactions', 'calls', 'deltas', 'blocks', 'headers', 'signatures', 'multisignatures', 'vrf', 'merkle', 'addresses', 'hashing']

# functions of other crates known to return on every argument (given the obligations raised for those that do not)
SAFE = [r'^ed25519_dalek::Digest::', r'^ed25519_dalek::Verifier::verify', r'^std::default::Default::default<ed25519', r'^bytes:',
        r'^curve25519_dalek::(edwards|scalar)::', r'^data_encoding::Encoding::(decode|encode)$', r'^ed25519_dalek::(PublicKey|Signature)::', r'^ed25519_dalek::PublicKey::verify_strict$',
        r'^std::convert::(From|TryFrom|Into)::.*ed25519', r'^ed25519_dalek::verify_batch$', r'^std::cmp::PartialEq::', r'^std::clone::Clone::', r'^rmp_serde::(decode::)?from_(read|slice)', r'^std::convert::AsRef', r'^thiserror', r'^std::io::Read::',
        r'^crypto::hashable::Hashable::', r'^num::']


def entry(P, ck, *names, arithmetic=False, **kw):
    for name in names:
        fs = P.fns(name) if isinstance(name, str) else [name]
        fs = [f for f in fs if f['local'] and f.get('blocks')]
        if not fs:
            raise Missing(str(name))
        for f in fs:
            P.ext, n0 = set(), len(P.notes)
            obs = OV.obligations(P, f, **kw)
            res = []
            for o in obs:
                if o['kind'] == 'cast' or (o['kind'] == 'overflow' and not arithmetic) or idealised(o):
                    continue
                st, w = OV.verdict(o)
                res.append(((OV.where(o), o['kind'] + (' (%s)' % o['what'].split('::')[-1] if o['what'] else '')), st, w))
            label = f['path'].split('<impl ')[-1]
            label = '::'.join(label.split('::')[-2:])
            if not res:
                ck.ok('%s: nothing can panic' % label, loc(f))
            OV.report(ck, label, OV.merge(res))
            for x in sorted(P.ext):
                if not any(re.match(p, x) for p in SAFE):
                    ck.und('%s: calls %s' % (label, x), loc(f), 'whether it may panic is not known')
            for x in P.notes[n0:]:
                if 'recursion' in x or 'not summarised' in x:
                    ck.und('%s: %s' % (label, x), loc(f), 'not analysed')


def in_step(P, ck, name):
    """The lists of a structure which every public operation keeps equally long."""
    import effects as FX
    t = P.type(name)
    C = P.lib
    lists = [f[0] for f in t['variants'][0]['fields'] if C.T[f[1]]['s'].startswith('std::vec::Vec<')]
    if len(lists) < 2:
        return lambda v: T
    eqs = lambda v: conj(*[Eq(v.f(a).len(), v.f(lists[0]).len()) for a in lists[1:]])
    # who changes or builds one
    W = {f['id'] for f, _, _ in FX.field_writes(C, t['path'])}
    for f in C.fns:
        if f.get('local') and f.get('blocks') and C.T[f['locals'][0]].get('path') == t['path']:
            W.add(f['id'])
    roots = set()
    for w in W:
        roots |= OV.roots_of(C, w) if not C.byid[w].get('pub') else {w}
    good = True
    for r in sorted(roots):
        f = C.byid[r]
        if FX.derived(f):
            continue
        if C.T[f['locals'][0]].get('path') == t['path']:
            v = V(P.run(f).ret, t, C)
            v = V(mapleaves(v.n, lambda x: leaf(x)), t, C)
            st = ck.holds('%s: %s starts with lists of equal length' % (name, f['name']), eqs(v), loc(f), assume=neg(panics(P.run(f))))
        elif f['argc'] and C.T[f['locals'][1]]['k'] == 'ref' and C.T[C.T[f['locals'][1]]['of']].get('path') == t['path']:
            s0 = V(leaf(mk('sym', '#obj')), t, C)
            R = run_mut(P, f, s0.n, *[leaf(mk('sym', 'arg%d' % i)) for i in range(f['argc'] - 1)])[0]
            st = ck.holds('%s: %s keeps its lists equally long' % (name, f['name']), eqs(V(R.out['#self'], t, C)), loc(f), assume=conj(eqs(s0), neg(panics(R))))
        else:
            # it changes one it has been handed or holds: its own functions are checked above
            if r in W:
                ck.und('%s: changed by %s' % (name, f['path']), loc(f), 'not one of its own methods')
                good = False
    return eqs


def idealised(o):
    """Overflow of the round and amount types aborts by design; it is the subject of C16."""
    return o['kind'] == 'abort' and any('std::ops::' in p and ('Round' in p or 'MicroAlgos' in p) for _, _, p in o['chain'])


def params(P, f):
    """The symbolic parameters of a function, as values."""
    a, vs, cells = P.params(f)
    return vs


def transactions(P, ck):
    entry(P, ck, 'Transaction::is_well_formed')


def calls(P, ck):
    entry(P, ck, 'AppCallFields::address_by_index', 'AppCallFields::index_by_address', 'AppCallFields::app_id_by_index', 'AppCallFields::index_by_app_id')


def deltas(P, ck):
    entry(P, ck, 'StateDelta::is_valid')


def blocks(P, ck):
    entry(P, ck, 'Block::contents_match_header', 'Block::decode_payset_groups', 'Block::decode_payset_flat')


def headers(P, ck):
    entry(P, ck, 'BlockHeader::pre_check', 'UpgradeState::apply_upgrade_vote')


def signatures(P, ck):
    entry(P, ck, 'ots::OTS::verify')
    eqs = in_step(P, ck, 'BatchVerifier')
    f = P.fn('BatchVerifier::verify')
    entry(P, ck, f, cond=eqs(params(P, f)[0]))


def multisignatures(P, ck):
    entry(P, ck, 'MultisigSignature::verify', 'MultisigSignature::batch_verify')


def vrf(P, ck):
    entry(P, ck, 'VrfPublicKey::verify')


def merkle(P, ck):
    entry(P, ck, 'merklearray::merkle::Tree::verify')


def addresses(P, ck):
    entry(P, ck, '<data::basics::address::Address as std::str::FromStr>::from_str')


def hashing(P, ck):
    """Every object a peer supplies is hashed."""
    fs = [f for f in P.lib.fns if f['local'] and f.get('blocks') and (f.get('item') or f['name']) == 'to_be_hashed' and f.get('trait', '') and f['trait'].endswith('Hashable') and f.get('self') is not None]
    if not fs:
        raise Missing('Hashable::to_be_hashed')
    for f in fs:
        entry(P, ck, f)
