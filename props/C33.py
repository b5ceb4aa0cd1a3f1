"""Transaction liveness."""
from spec import *
import txrules

RULE = 'accept condition of Header::alive equals the reference predicate, for every implementation of its context'
PARTS = ['alive']


def alive(P, ck):
    fs = P.insts('Header::alive')
    for f in fs:
        R = P.run(f)
        hdr, ctx = R.p
        C = f['_c']
        T_ = ctx.t
        def m(name):
            for g in C.fns:
                if g.get('item') == 'data::transactions::transaction::TxContext::' + name or (g['name'] == name and g.get('trait', '') and g['trait'].endswith('TxContext')):
                    if g.get('self') is not None and C.T[g['self']]['s'] == T_['s']:
                        r = P.run(g, args=[ctx.n])
                        return V(r.ret, C.T[g['locals'][0]], C)
            # generic context: the trait method itself, whatever it is
            rt = {'round': 'Round', 'consensus_protocol': 'ConsensusParams', 'genesis_hash': 'CryptoHash', 'genesis_id': 'String'}[name]
            tt = next((t for t in C.T if t['k'] == 'struct' and t['path'].split('::')[-1] == rt), None)
            if tt is None:
                raise Missing('type %s' % rt)
            I = P.interp()
            x = app('data::transactions::transaction::TxContext::%s<%s>' % (name, T_['s']), leafval(ctx.n))
            return V(leaf(I.ranged(x, tt, C.T)), tt, C)
        rnd, proto, gid, gh = m('round'), m('consensus_protocol'), m('genesis_id'), m('genesis_hash')
        got = is_ok(R.ret)
        zero = txrules.is_zero(P, hdr.genesis_hash)
        rules = {
            'the round lies in the validity window': conj(Le(hdr.first_valid, rnd), Le(rnd, hdr.last_valid)),
            'the genesis id is empty or the chain\'s': disj(Eq(hdr.genesis_id, ''), Eq(hdr.genesis_id, gid)),
            'the genesis hash is the chain\'s or absent': disj(zero, Eq(hdr.genesis_hash, gh)),
            'the genesis hash is absent only where allowed': implies(zero, neg(conj(txrules.flag(proto.support_genesis_hash), txrules.flag(proto.require_genesis_hash)))),
            'the genesis hash is present only where supported': implies(neg(zero), txrules.flag(proto.support_genesis_hash)),
        }
        for n, c in rules.items():
            ck.implies('alive only if: ' + n, got, c, loc(f))
        ck.iff('alive exactly when every condition holds', got, conj(*rules.values()), loc(f))
        ck.holds('a dead transaction is an error, never a panic', neg(panics(R)), loc(f))
