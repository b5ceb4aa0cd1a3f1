"""Header acceptance: the accept condition of BlockHeader::pre_check, computed by the gated value-flow analysis over its MIR
(callees included), is equivalent to the reference condition written from the property."""
from spec import *

RULE = 'accept condition of pre_check (all paths merged, callees inlined) must equal the reference predicate, in both directions; every reject is an Err, not a panic'
PARTS = ['accept']


def link_conditions(P, prev, new):
    """The reference predicate: list of named conditions."""
    sup, params = params_of(P, new.upgrade_state.current_protocol)
    up = P.call('UpgradeState::apply_upgrade_vote', prev.upgrade_state, new.round, new.upgrade_vote)
    nextu = payload(up.ret)
    latest = Min(Add(prev.timestamp, params.max_timestamp_increment), maxof(prev.timestamp))
    zh = nod(default_val(P, new.genesis_hash.t))
    eid = nod('')
    conds = {
        'protocol supported': sup,
        'round is one more': Eq(new.round, Add(prev.round, 1)),
        'branch is the hash of the previous header': Eq(new.branch, hash_of(P, prev)),
        'upgrade vote valid': is_ok(up.ret),
        'upgrade state follows from vote': Eq(new.upgrade_state, nextu),
        'timestamp window': implies(Gt(prev.timestamp, 0), conj(Ge(new.timestamp, prev.timestamp), Le(new.timestamp, latest))),
        'genesis id present': Ne(new.genesis_id, eid),
        'genesis id unchanged': disj(Eq(prev.genesis_id, eid), Eq(prev.genesis_id, new.genesis_id)),
        'genesis hash': ite(is_true(params.support_genesis_hash.n),
                            conj(Ne(new.genesis_hash, zh), disj(Eq(prev.genesis_hash, zh), Eq(prev.genesis_hash, new.genesis_hash))),
                            Eq(new.genesis_hash, zh)),
    }
    return conds


def accept(P, ck):
    f = P.fn('BlockHeader::pre_check')
    R = P.run(f)
    new, prev = R.p
    conds = link_conditions(P, prev, new)
    got = is_ok(R.ret)
    for k, c in conds.items():
        ck.implies('accepted only if: ' + k, got, c, loc(f))
    ck.iff('accepted exactly when all link checks hold', got, conj(*conds.values()), loc(f))
    ck.holds('a rejection is an error, never a panic', mapleaves(R.ret, lambda x: F if x is PANIC else T), loc(f))
