"""Upgrade state machine: result diagram of UpgradeState::apply_upgrade_vote equals the reference transition function."""
from spec import *
from tools import values

RULE = 'accept condition and every field of the returned state of apply_upgrade_vote equal the reference transition function, for every state, round and vote; the vote process_upgrade_params casts equals the reference vote and its state the reference transition under it; next_version_info names the scheduled version'
PARTS = ['transition', 'own_vote', 'scheduled']


def transition(P, ck):
    f = P.fn('UpgradeState::apply_upgrade_vote')
    R = P.run(f)
    s, rnd, vote = R.p
    sup, pr = params_of(P, s.current_protocol)
    proposes = Ne(vote.upgrade_propose, s.current_protocol)
    delay = vote.upgrade_delay
    in_window = conj(Le(delay, pr.max_upgrade_wait_rounds), Ge(delay, pr.min_upgrade_wait_rounds))
    may_propose = conj(s.next_protocol.none(), in_window)
    eff_delay = If(Eq(delay, 0), pr.default_upgrade_wait_rounds, delay)
    vote_before = Add(rnd, pr.upgrade_vote_rounds)
    switch = Add(vote_before, eff_delay)
    # after the proposal
    has = disj(proposes, s.next_protocol.some())
    nxt = If(proposes, vote.upgrade_propose, payload(s.next_protocol.n, 'Some'))
    appr = If(proposes, 0, s.next_protocol_approvals)
    vb = If(proposes, vote_before, s.next_protocol_vote_before)
    so = If(proposes, switch, s.next_protocol_switch_on)
    ok_prop = ite(proposes, may_propose, Eq(delay, 0))
    approve = is_true(vote.upgrade_approve.n)
    ok_appr = implies(approve, conj(has, Lt(rnd, vb)))
    got = is_ok(R.ret)
    for k, c in (('the current protocol is supported', sup), ('a proposal is allowed and within its window, and no delay comes without one', ok_prop),
                 ('an approval is for an existing proposal before its deadline', ok_appr)):
        ck.implies('accepted only if: ' + k, got, c, loc(f))
    ck.iff('accepted exactly when the vote is valid', got, conj(sup, ok_prop, ok_appr), loc(f))
    ck.holds('an invalid vote is an error, never a panic', mapleaves(R.ret, lambda x: F if x is PANIC else T), loc(f))
    appr2 = If(approve, Add(appr, 1), appr)
    failed = conj(Eq(rnd, vb), Lt(appr2, pr.upgrade_threshold))
    has3 = conj(has, neg(failed))
    clr = lambda v: If(failed, 0, v)
    appr3, vb3, so3 = clr(appr2), clr(vb), clr(so)
    switching = conj(has3, Eq(rnd, so3))
    has4 = conj(has3, neg(switching))
    out = V(payload(R.ret), P.type('UpgradeState'), P.lib)
    where = loc(f)
    ck.same('current protocol after the vote', out.current_protocol.n, If(switching, nxt, s.current_protocol), where, assume=got)
    onp = out.next_protocol
    ck.iff('a proposal is pending after the vote', onp.some(), has4, where, assume=got)
    ck.same('pending protocol', payload(onp.n, 'Some'), nxt, where, assume=conj(got, has4))
    z = lambda v: If(switching, 0, v)
    ck.same('approvals after the vote', out.next_protocol_approvals.n, z(appr3), where, assume=got)
    ck.same('voting deadline after the vote', out.next_protocol_vote_before.n, z(vb3), where, assume=got)
    ck.same('switch round after the vote', out.next_protocol_switch_on.n, z(so3), where, assume=got)
    known = {'current_protocol', 'next_protocol', 'next_protocol_approvals', 'next_protocol_vote_before', 'next_protocol_switch_on'}
    for k, _ in out._fields()[0]:
        if k not in known:
            ck.und('field %s of UpgradeState' % k, where, 'a field the reference does not describe')



def own_vote(P, ck):
    """The vote this node casts in a block it makes: what it proposes, what it approves, and the state after it."""
    f = P.fn('process_upgrade_params')
    R = P.run(f)
    prev = R.p[0]
    where = loc(f)
    s = prev.upgrade_state
    sup, pr = params_of(P, s.current_protocol)
    table = pr.approved_upgrades
    m = leafof(care(nod(table), sup))
    ok = is_ok(R.ret)
    if ok is F:
        ck.fail('a vote can be cast at all', where, 'process_upgrade_params never succeeds')
        return
    ck.implies('a vote is cast only under a supported protocol', ok, sup, where)
    pair = R.v.f('0', 'Ok')
    vote, state = pair._0, pair._1
    rnd = Add(prev.round, 1)
    none = s.next_protocol.none()
    # with no proposal being considered there is no deadline (apply_upgrade_vote clears both together)
    inv = implies(none, Eq(s.next_protocol_vote_before, 0))
    free = conj(none, Gt(table.len(), 0))
    held = conj(ok, inv, neg(free))
    ck.same('nothing is proposed while a proposal is pending, or with no approved upgrade', vote.upgrade_propose, s.current_protocol, where, assume=held)
    ck.same('no delay is asked for without a proposal', vote.upgrade_delay, 0, where, assume=held)
    a = conj(ok, inv, free)
    pk, pd = care(nod(vote.upgrade_propose), a), care(nod(vote.upgrade_delay), a)
    if any(x.op in ('unk', 'whl', 'fold') for x in values(pk)):
        ck.und('with no proposal pending an approved upgrade is proposed, with its delay', where, 'how the proposed version is chosen is not understood')
    else:
        ck.holds('with no proposal pending an approved upgrade is proposed, with its delay',
                 disj(neg(a), lift2(lambda x, y: T if entry(m, x, y) else F, pk, pd)), where)
        ck.holds('with no proposal pending an upgrade can be proposed', T if conj(axioms(a), a) is not F else F, where)
    ck.implies('with nothing to propose a vote can always be cast', conj(sup, inv, neg(free), Lt(prev.round, 2 ** 64 - 1)), ok, where)
    approve = is_true(vote.upgrade_approve.n)
    ck.iff('a node approves what it proposes', approve, T, where, assume=a)
    listed = is_some(App('get', m, payload(nod(s.next_protocol), 'Some')))
    ck.iff('a pending proposal is approved exactly before its deadline and only if it is an approved upgrade',
           approve, conj(neg(none), Lt(rnd, s.next_protocol_vote_before), listed), where, assume=held)
    Q = P.call('UpgradeState::apply_upgrade_vote', s, rnd, vote)
    ck.implies('the vote cast is one every node accepts', ok, is_ok(Q.ret), where)
    ck.same('the state is the one that vote leads to', state, payload(Q.ret), where, assume=ok)


def entry(m, x, y):
    """(x, y) is a key of the map m with its value."""
    if y is leafof(payload(App('get', m, x), 'Some')):
        return True
    return (x.op == y.op == 'index' and x.args[1] is y.args[1] and all(b.op == 'app' and b.args[0] == n and b.args[1][0] is m
            for b, n in ((x.args[0], 'keys'), (y.args[0], 'values'))))


def scheduled(P, ck):
    """next_version_info: the version of the next round as far as it is settled."""
    f = P.fn('BlockHeader::next_version_info')
    R = P.run(f)
    h = R.p[0]
    s = h.upgrade_state
    where = loc(f)
    settled = conj(Ge(h.round, s.next_protocol_vote_before), Lt(h.round, s.next_protocol_switch_on))
    fine = neg(panics(R))
    ck.same('version', R.v._0, If(settled, s.next_protocol, Some_(s.current_protocol)), where, assume=fine)
    ck.same('round it starts', R.v._1, If(settled, s.next_protocol_switch_on, Add(h.round, 1)), where, assume=fine)
    ck.iff('it is supported', is_true(R.v._2.n), T, where, assume=fine)
    ck.implies('an answer for every header but one of the last round', Lt(h.round, 2 ** 64 - 1), fine, where)


def leafof(v):
    ls = leaves(nod(v))
    if len(ls) != 1:
        raise Missing('a single value for the table of approved upgrades')
    return ls[0]
