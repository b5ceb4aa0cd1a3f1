"""Header fields of new blocks and of the genesis block."""
from spec import *

RULE = 'every field of the header returned by Block::new and Genesis::create_block must equal the reference value for every previous header / genesis configuration'
PARTS = ['new', 'genesis']


def leftover(P, ck, label, h, done, w, live):
    """Fields the property does not name keep their default."""
    for k, _ in h._fields()[0]:
        if k not in done:
            try:
                d = default_val(P, h.f(k).t)
            except Missing:
                continue
            if P.lib.T[[t for n, t in h._fields()[0] if n == k][0]]['k'] in ('int', 'bool'):
                ck.same('%s: %s starts at its default' % (label, k), h.f(k), d, w, assume=live)


def new(P, ck):
    f = P.fn('Block::new')
    R = P.run(f)
    prev = R.p[0]
    w = loc(f)
    U = P.call('block::process_upgrade_params', prev)
    good = is_ok(U.ret)
    pair = payload(U.ret)
    I = P.interp()
    tup = V(pair, P.lib.T[U.v.t['args'][0]], P.lib)
    vote, state = tup._0, tup._1
    h = V(R.ret, P.type('Block'), P.lib).header
    sup, params = params_of(P, state.current_protocol)
    live = conj(good, sup, neg(panics(R)))
    ck.same('round is one more', h.round, Add(prev.round, 1), w, assume=live)
    ck.same('branch is the hash of the previous header', h.branch, hash_of(P, prev), w, assume=live)
    ck.same('genesis id is carried over', h.genesis_id, prev.genesis_id, w, assume=live)
    ck.same('genesis hash is carried over', h.genesis_hash, prev.genesis_hash, w, assume=live)
    ck.same('fee sink is carried over', h.rewards_state.fee_sink, prev.rewards_state.fee_sink, w, assume=live)
    ck.same('rewards pool is carried over', h.rewards_state.rewards_pool, prev.rewards_state.rewards_pool, w, assume=live)
    ck.same('upgrade vote is the freshly computed one', h.upgrade_vote, vote, w, assume=live)
    ck.same('upgrade state is the freshly computed one', h.upgrade_state, state, w, assume=live)
    latest = sat(Add(prev.timestamp, params.max_timestamp_increment))
    ts = h.timestamp
    pos = conj(live, Gt(prev.timestamp, 0))
    ck.holds('timestamp not before the previous one', Ge(ts, prev.timestamp), w, assume=pos)
    ck.holds('timestamp within the maximum increment', Le(ts, latest), w, assume=pos)
    # the clock: what the timestamp is when the previous one puts no bound on it
    now = [x for x in leaves(care(nod(ts), conj(live, Eq(prev.timestamp, 0))))]
    if len(now) != 1:
        ck.fail('after a zero timestamp the current time is used', w, '; '.join(show(x) for x in now[:3]))
    else:
        n = leaf(now[0])
        ok_ = 'now' in show(now[0]) or 'SystemTime' in show(now[0])
        (ck.ok if ok_ else ck.fail)('after a zero timestamp the current time is used', w, show(now[0]))
        ck.same('otherwise it is the current time clamped to that window', ts, If(Lt(n, prev.timestamp), prev.timestamp, Min(n, latest)), w, assume=pos)
    out = V(R.ret, P.type('Block'), P.lib)
    ck.same('the payset is empty', out.payset.len(), 0, w, assume=live)
    # the root: what payset_commit returns for a block with that payset under that protocol
    f2 = P.fn('Block::payset_commit')
    O = P.run(f, opaque=[f2['path']])
    root = V(O.ret, P.type('Block'), P.lib).header.tx_root.n
    live2 = conj(live, neg(panics(O)))
    calls = {x for x in subterms(root) if x.op == 'app' and str(x.args[0]).split('<')[0].endswith('payset_commit')}
    if len(calls) != 1:
        ck.fail('the transaction root is the commitment to that payset', w, '%d commitments are computed' % len(calls))
        return
    c = calls.pop()
    ck.same('the transaction root is the commitment', root, If(is_ok(leaf(c)), payload(leaf(c)), default_val(P, h.tx_root.t)), w, assume=live2)
    b = V(leaf(c.args[1][0]), P.type('Block'), P.lib)
    ck.same('of that payset', b.payset.len(), 0, w, assume=live2)
    ck.same('under the new protocol', b.header.upgrade_state.current_protocol, state.current_protocol, w, assume=live2)
    leftover(P, ck, 'new block', h, ('round', 'branch', 'genesis_id', 'genesis_hash', 'rewards_state', 'upgrade_vote', 'upgrade_state', 'timestamp', 'tx_root'), w, live)
    # previous header untouched is C05


def genesis(P, ck):
    f = P.fn('Genesis::create_block')
    R = P.run(f)
    proto, bal, gid, hash_ = R.p
    w = loc(f)
    sup, params = params_of(P, proto)
    ck.implies('genesis: an unsupported protocol is an error', neg(sup), neg(is_ok(R.ret)), w)
    pos = Gt(params.rewards_rate_refresh_interval, 0)
    out = R.v.f('0', 'Ok')
    h = out.header
    good = is_ok(R.ret)
    live = conj(sup, good, pos)
    ck.same('genesis: round zero', h.round, 0, w, assume=live)
    ck.same('genesis: fee sink', h.rewards_state.fee_sink, bal.fee_sink, w, assume=live)
    ck.same('genesis: rewards pool', h.rewards_state.rewards_pool, bal.rewards_pool, w, assume=live)
    ck.same('genesis: id', h.genesis_id, gid, w, assume=live)
    ck.same('genesis: timestamp', h.timestamp, bal.timestamp, w, assume=live)
    ck.same('genesis: protocol', h.upgrade_state.current_protocol, proto, w, assume=live)
    ck.same('genesis: hash only where supported', h.genesis_hash, If(is_true(params.support_genesis_hash.n), hash_, default_val(P, h.genesis_hash.t)), w, assume=live)
    ck.same('genesis: rewards level starts at zero', h.rewards_state.rewards_level, 0, w, assume=live)
    ck.same('genesis: residue starts at zero', h.rewards_state.rewards_residue, 0, w, assume=live)
    ck.same('genesis: rate is recalculated after one interval', h.rewards_state.rewards_recalculation_round, params.rewards_rate_refresh_interval, w, assume=live)
    # balance of the pool: the entry the map holds for the rewards pool
    pool = V(leaf(app('mapget', gate(bal.balances.n), gate(bal.rewards_pool.n))), P.type('AccountData'), P.lib)
    rate = h.rewards_state.rewards_rate
    cand = [x for x in subterms(rate.n) if x.op == 'fld' and x.args[1] == 'micro_algos']
    cand = list(dict.fromkeys(cand))
    if not cand and not has_unk(rate.n):
        return ck.fail('genesis: rate from the pool balance', w, 'no balance is used: the rate is ' + show(rate.n)[:200])
    if len(cand) != 1:
        ck.und('genesis: rate from the pool balance', w, 'the pool balance is not recognised: ' + '; '.join(show(x)[:100] for x in cand))
        return
    m = leaf(cand[0])
    who = show(cand[0])
    (ck.ok if 'balances' in who and 'rewards_pool' in who and 'fee_sink' not in who else ck.fail)('genesis: the balance is that of the rewards pool', w, who)
    less = If(is_true(params.initial_rewards_rate_calculation.n), sat(Sub(m, params.min_balance)), m)
    ck.same('genesis: rate is the pool balance (less the minimum where prescribed) over the interval', rate, Div(less, params.rewards_rate_refresh_interval), w, assume=live)
    ck.same('genesis: the payset is empty', out.payset.len(), 0, w, assume=live)
    ck.holds('genesis: never aborts', neg(panics(R)), w, assume=pos)


def subterms(n):
    seen, out = set(), []

    def go(x):
        if id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, TM.Node):
            for v in support(x):
                go(VARS[v])
            for y in leaves(x):
                go(y)
        elif isinstance(x, TM.Term):
            out.append(x)
            for a in x.args:
                go(a)
        elif isinstance(x, tuple):
            for a in x:
                go(a)
    go(n)
    return out
