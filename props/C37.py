"""Balance accounting with pending rewards."""
from spec import *

RULE = 'every field of the account returned by with_updated_rewards, and the values of the derived quantities, equal the reference formulas (integers idealised; aborts only on overflow)'
PARTS = ['update', 'money', 'pending', 'stake', 'normalized', 'dilution', 'units', 'creation']


def reward(a, p, level):
    units = Div(a.micro_algos, p.reward_unit)
    return Mul(units, Sub(level, a.rewards_base))


def update(P, ck):
    f = P.fn('AccountData::with_updated_rewards')
    R = P.run(f)
    a, p, level = R.p
    w = loc(f)
    out = V(R.ret, P.type('AccountData'), P.lib)
    inc = reward(a, p, level)
    part = neg(a.status.is_('NotParticipating'))
    bad = conj(part, disj(Lt(level, a.rewards_base), Gt(inc, U64), Gt(Add(a.micro_algos, inc), U64)))
    pos = Gt(p.reward_unit, 0)
    ck.iff('aborts exactly when the rewards cannot be represented', panics(R), bad, w, assume=pos)
    live = conj(pos, neg(panics(R)), neg(bad))
    ck.same('balance', out.micro_algos.n, If(part, Add(a.micro_algos, inc), a.micro_algos), w, assume=live)
    ck.same('rewards base', out.rewards_base.n, If(part, level, a.rewards_base), w, assume=live)
    ck.same('lifetime rewards (rolling over)', out.rewarded_micro_algos.n, If(part, Wrap(Add(a.rewarded_micro_algos, inc)), a.rewarded_micro_algos), w, assume=live)
    for k, _ in out._fields()[0]:
        if k not in ('micro_algos', 'rewards_base', 'rewarded_micro_algos'):
            ck.same('field %s is untouched' % k, out.f(k).n, a.f(k), w, assume=live)
    if R.out:
        ck.fail('the account passed in is not modified', w, 'it is taken by mutable reference')


def money(P, ck):
    f = P.fn('AccountData::money')
    R = P.run(f)
    a, p, level = R.p
    w = loc(f)
    U = P.call('AccountData::with_updated_rewards', a, p, level)
    u = V(U.ret, P.type('AccountData'), P.lib)
    live = conj(neg(panics(R)), neg(panics(U)))
    ck.iff('money: aborts as the update does', panics(R), panics(U), w)
    ck.same('money: balance with rewards', R.v.f('0').n, u.micro_algos, w, assume=live)
    ck.same('money: lifetime rewards', R.v.f('1').n, u.rewarded_micro_algos, w, assume=live)


def pending(P, ck):
    f = P.fn('AccountData::pending_rewards')
    R = P.run(f)
    _, p, algos, base, level = R.p
    w = loc(f)
    inc = Mul(Div(algos, p.reward_unit), Sub(level, base))
    pos = Gt(p.reward_unit, 0)
    bad = disj(Lt(level, base), Gt(inc, U64))
    ck.iff('pending rewards: aborts exactly when not representable', panics(R), bad, w, assume=pos)
    ck.same('pending rewards', R.ret, inc, w, assume=conj(pos, neg(bad), neg(panics(R))))


def stake(P, ck):
    f = P.fn('AccountData::voting_stake')
    R = P.run(f)
    a = R.p[0]
    ck.same('voting stake', R.ret, If(a.status.is_('Online'), a.micro_algos, 0), loc(f))


def normalized(P, ck):
    f = P.fn('AccountData::normalized_online_balance')
    R = P.run(f)
    a, p = R.p
    w = loc(f)
    want = If(a.status.is_('Online'), Div(Mul(a.micro_algos, p.reward_unit), Add(a.rewards_base, p.reward_unit)), 0)
    pos = Gt(p.reward_unit, 0)
    ck.same('normalised online balance', R.ret, want, w, assume=conj(pos, neg(panics(R))))


def dilution(P, ck):
    f = P.fn('AccountData::key_dilution')
    R = P.run(f)
    a, p = R.p
    ck.same('key dilution', R.ret, If(Eq(a.vote_key_dilution, 0), p.default_key_dilution, a.vote_key_dilution), loc(f))


def units(P, ck):
    f = P.fn('MicroAlgos::reward_units')
    R = P.run(f)
    ck.same('reward units', R.ret, Div(R.p[0], R.p[1].reward_unit), loc(f), assume=Gt(R.p[1].reward_unit, 0))


def creation(P, ck):
    f = P.fn('AccountData::new')
    R = P.run(f)
    out = V(R.ret, P.type('AccountData'), P.lib)
    ck.same('a new account: status', out.status.n, R.p[0], loc(f))
    ck.same('a new account: balance', out.micro_algos.n, R.p[1], loc(f))
