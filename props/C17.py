"""Rewards state evolution: RewardsState::next_state equals the reference formula."""
from spec import *

RULE = 'every field of the RewardsState returned by next_state equals the reference formula (integers idealised; wrap-around is the subject of C16)'
PARTS = ['formula']


def formula(P, ck):
    f = P.fn('RewardsState::next_state')
    R = P.run(f)
    s, rnd, proto, pool, units = R.p
    where = loc(f)
    out = V(R.ret, P.type('RewardsState'), P.lib)
    recalc = Eq(rnd, s.rewards_recalculation_round)
    keep = If(is_true(proto.pending_residue_rewards.n), Add(proto.min_balance, s.rewards_residue), proto.min_balance)
    over = Max(Sub(pool, keep), 0)
    live = neg(panics(R))
    ck.holds('aborts only where the round or the interval cannot be represented', implies(panics(R), conj(recalc, Gt(Add(rnd, proto.rewards_rate_refresh_interval), U64))),
             where, assume=Gt(proto.rewards_rate_refresh_interval, 0))
    itv = conj(Gt(proto.rewards_rate_refresh_interval, 0), live)
    rate = Div(over, proto.rewards_rate_refresh_interval)
    # residue + minimum balance beyond u64: no rewards; the pool cannot hold that much
    ck.same('rewards rate', out.rewards_rate.n, If(recalc, rate, s.rewards_rate), where, assume=itv)
    ck.same('next recalculation round', out.rewards_recalculation_round.n,
            If(recalc, Add(rnd, proto.rewards_rate_refresh_interval), s.rewards_recalculation_round), where, assume=itv)
    total = Add(s.rewards_rate, s.rewards_residue)
    inc = Div(total, units)
    good = conj(Gt(units, 0), Le(total, U64), Le(Add(s.rewards_level, inc), U64))
    ck.same('rewards level', out.rewards_level.n, If(good, Add(s.rewards_level, inc), s.rewards_level), where, assume=itv)
    ck.same('rewards residue', out.rewards_residue.n, If(good, Rem(total, units), s.rewards_residue), where, assume=itv)
    ck.same('fee sink address', out.fee_sink.n, s.fee_sink, where, assume=itv)
    ck.same('rewards pool address', out.rewards_pool.n, s.rewards_pool, where, assume=itv)
    known = {'rewards_rate', 'rewards_recalculation_round', 'rewards_level', 'rewards_residue', 'fee_sink', 'rewards_pool'}
    for k, _ in out._fields()[0]:
        if k not in known:
            ck.und('field %s of RewardsState' % k, where, 'a field the reference does not describe')
