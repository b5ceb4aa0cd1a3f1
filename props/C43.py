"""The account manager and the participation keys it manages."""
from spec import *
from intrinsics import wr

RULE = ('the result and every changed field of the account manager\'s operations equal the reference: adding keeps what is there and is keyed by the whole identity, the lookups select by overlap of the inclusive periods, '
        'old keys are erased exactly up to the next round still needed; the registration transaction and the generated keys carry the account\'s own data')
PARTS = ['identity', 'adding', 'overlap', 'lookup', 'live', 'erasing', 'registration', 'generated']

ID = ('address', 'first_valid', 'last_valid', 'vote_id', 'selection_id')


def manager(P):
    return P.type('account_manager::AccountManager')


def identity(P, ck):
    """Two identities are the same key exactly if every component is."""
    t = P.type('ParticipationKeyIdentity')
    fs = [f[0] for f in t['variants'][0]['fields']]
    eq = [f for f in P.fns('account_manager::ParticipationKeyIdentity as std::cmp::PartialEq>::eq')]
    if not eq:
        raise Missing('equality of participation key identities')
    R = P.run(eq[0])
    a, b = R.p
    w = loc(eq[0])
    # a public key and its bytes determine each other
    same = T
    for k in fs:
        if 'PublicKey' in a.f(k).t['s']:
            x, y = [App('bytes:PublicKey', v.f(k)) for v in (a, b)]
            same = conj(same, iff(veq(a.f(k), b.f(k)), veq(x, y)))
    ck.iff('identities are equal exactly if every component is', is_true(R.ret), conj(*[veq(a.f(k), b.f(k)) for k in fs]), w, assume=same)
    ck.holds('comparing identities never aborts', neg(panics(R)), w)
    for k in ID:
        if k not in fs:
            ck.fail('the identity of a participation key has its %s' % k, w, 'ParticipationKeyIdentity has fields %s' % ', '.join(fs))
        else:
            ck.ok('the identity of a participation key has its %s' % k, w)


def adding(P, ck):
    f = P.fn('AccountManager::add_participation')
    R = P.run(f)
    s, p = R.p
    w = loc(f)
    me = rec(P, 'ParticipationKeyIdentity', address=p.parent, first_valid=p.first_valid, last_valid=p.last_valid, vote_id=p.voting.verifier, selection_id=p.vrf.public)
    held = is_some(App('get', s.part_keys, me))
    ck.holds('adding never aborts', neg(panics(R)), w)
    ck.iff('adding succeeds exactly if no key of the same identity is held', is_true(R.ret), neg(held), w)
    out = V(R.out['self'], s.t if s.t['k'] != 'ref' else manager(P), P.lib)
    ck.same('a duplicate changes none of the keys', out.part_keys, s.part_keys, w, assume=held)
    ck.same('a duplicate changes none of the registered accounts', out.registered_accounts, s.registered_accounts, w, assume=held)
    ck.same('a new key is held under its identity, beside those before', out.part_keys, mapleaves(s.part_keys.n, lambda m: mapleaves(me, lambda k: mapleaves(p.n, lambda v: leaf(mk('mapins', m, k, v))))), w, assume=neg(held))
    # the account is known as registered from then on
    reg = care(nod(out.registered_accounts), neg(held))
    was = leafof(s.registered_accounts)
    keys = {x.args[1] for x in leaves(reg) if x.op == 'mapins' and x.args[0] is was}
    if any(x is not was and not (x.op == 'mapins' and x.args[0] is was) for x in leaves(reg)):
        ck.und('the account of a new key is noted', w, 'how registered accounts are noted is not understood')
    elif len(keys) != 1:
        ck.fail('the account of a new key is noted', w, 'it is noted under %d names' % len(keys))
    else:
        k = keys.pop()
        ck.holds('accounts are noted by their address', T if p.parent.n in [leaf(x) for x in subterms(leaf(k))] else F, w)
        noted = mapleaves(reg, lambda x: F if x is was else T)
        ck.iff('the account of a new key is noted', disj(noted, is_some(App('get', leaf(was), leaf(k)))), T, w, assume=neg(held))


def overlap(P, ck):
    f = P.fn('Participation::overlaps_interval')
    R = P.run(f)
    s, a, b = R.p
    w = loc(f)
    ck.iff('overlap: exactly the unordered periods are refused', panics(R), Lt(b, a), w)
    ck.iff('overlap: the inclusive periods have a round in common', is_true(R.ret), conj(Ge(b, s.first_valid), Le(a, s.last_valid)), w, assume=Le(a, b))
    for nm, want in (('address', lambda s: s.parent), ('vrf_keypair', lambda s: s.vrf), ('voting_keypair', lambda s: s.voting)):
        for g in P.fns('account::Participation::' + nm):
            Q = P.run(g)
            ck.same('%s is the account\'s own' % nm, Q.ret, want(Q.p[0]), loc(g))
    for g in P.fns('account::Participation::valid_interval'):
        Q = P.run(g)
        ck.same('valid_interval: first', Q.v._0, Q.p[0].first_valid, loc(g))
        ck.same('valid_interval: last', Q.v._1, Q.p[0].last_valid, loc(g))


def held(P, s):
    """The participations held, in the map's order."""
    import terms
    m = leafof(s.part_keys)
    t = s.part_keys.t
    et = s.C.T[t['args'][1]]
    v = leaf(TM.app('values', m))
    n = leafval(leaf(TM.length(leafof(v))))
    return leafof(v), n, et


def leafof(v):
    ls = leaves(nod(v))
    if len(ls) != 1:
        raise Missing('a single value')
    return ls[0]


def at(P, s, i):
    v, n, et = held(P, s)
    I = Interp([s.C])
    return V(leaf(I.ranged(TM.index(v, i), et, s.C.T)), et, s.C)


def lookup(P, ck):
    f = P.fn('AccountManager::keys')
    R = P.run(f)
    s, r = R.p
    w = loc(f)
    v, n, et = held(P, s)
    d = newd()
    p = at(P, s, mk('idx', d, num(0), n))
    live = conj(Ge(r, p.first_valid), Le(r, p.last_valid))
    ck.same('the keys of a round are those whose period contains it', R.ret, leaf(TM.coll(d, num(0), n, ite(live, leaf((leafof(p),)), leaf(())))), w)
    ck.holds('looking keys up never aborts', neg(panics(R)), w)


def live(P, ck):
    f = P.fn('AccountManager::has_live_keys')
    R = P.run(f)
    s, a, b = R.p
    w = loc(f)
    v, n, et = held(P, s)
    d = newd()
    p = at(P, s, mk('idx', d, num(0), n))
    none = forall(d, num(0), n, neg(conj(Ge(b, p.first_valid), Le(a, p.last_valid))))
    ck.iff('live keys are reported exactly if some period has a round in common', is_true(R.ret), neg(none), w, assume=Le(a, b))
    ck.implies('an ordered period never aborts', Le(a, b), neg(panics(R)), w)


def erasing(P, ck):
    """Each participation is told to erase what lies before the next round it is needed for."""
    f = P.fn('AccountManager::delete_old_keys')
    dels = P.fns('account::Participation::delete_old_keys')
    if not dels:
        raise Missing('Participation::delete_old_keys')
    got = []

    def model(c, *a):
        ptr = leafof(a[0])
        part = c.I.load(c.st, ptr)
        got.append((c.cond, part, a[1], a[2]))
        n = cell('#calls')
        wr(c, n, Add(c.I.load(c.st, leafof(n)), 1))
        return mapleaves(nod(part), lambda x: leaf(TM.app('deleted', x)))
    args, (s, h, sigs, proto), cells = P.params(f)
    R = P.run(f, args=args, models={'Participation::delete_old_keys': model}, cells=dict(cells, **{'#calls': nod(0)}))
    w = loc(f)
    if not got:
        ck.fail('every participation erases its old keys', w, 'Participation::delete_old_keys is never called')
        return
    pt = P.type('account::Participation')
    sup, lp = params_of(P, h.upgrade_state.current_protocol)
    ct = [t for t in P.lib.types if t.get('path', '').endswith('CompactCertType')] if hasattr(P.lib, 'types') else []
    basic = leaf(TM.adt(Interp([P.lib]).apath(P.type('CompactCertType')), 'Basic', (), ()))
    ent = App('get', h.compact_certs, basic)
    et = P.lib.T[h.compact_certs.t['args'][1]]
    cc = V(payload(ent, 'Some'), et, P.lib)
    ccn = If(is_some(ent), cc.compactcert_next_round, 0)
    M = 2 ** 64 - 1
    for i, (c, part, rnd, pr) in enumerate(got):
        p = V(part, pt, P.lib)
        sg = App('get', sigs, p.parent)
        sig = If(is_some(sg), payload(sg, 'Some'), 0)
        nxt = Add(ccn, 1)
        used = Ge(sig, nxt)
        nxt = If(used, Add(Add(sig, lp.compact_cert_rounds), 1), nxt)
        agr = Add(h.round, 1)
        want = If(conj(Gt(ccn, 0), Lt(nxt, agr)), nxt, agr)
        lab = '' if i == len(got) - 1 else ' (round %d of the analysis)' % i
        ck.same('a participation keeps the keys from the next round it is needed for, and no older ones' + lab, rnd, want, w, assume=conj(c, sup))
        ck.same('the parameters in force are the ones passed on' + lab, pr, proto, w, assume=c)
    c, part, _, _ = got[-1]
    p = V(part, pt, P.lib)
    sg = App('get', sigs, p.parent)
    sig = If(is_some(sg), payload(sg, 'Some'), 0)
    room = conj(sup, Lt(h.round, M), Lt(ccn, M), Le(Add(Add(sig, lp.compact_cert_rounds), 1), M))
    idxs = {x for x in subterms(part) if x.op == 'idx'}
    if len(idxs) != 1:
        ck.und('every participation is reached', w, 'which participations the loop visits is not understood')
        return
    i = idxs.pop()
    v, n, et = held(P, s)
    ck.holds('the first participation is the first visited', Eq(leaf(i.args[1]), 0), w)
    ck.holds('the last participation is the last visited', Eq(leaf(i.args[2]), leaf(n)), w)
    ck.implies('every participation is reached', room, c, w)
    ck.same('none is left out because another could not be stored', R.out['#calls'], n, w, assume=neg(panics(R)))


def registration(P, ck):
    f = P.fn('Participation::generate_registration_transaction')
    R = P.run(f)
    s, fee, first, last, lease = R.p
    w = loc(f)
    tx = R.v
    ck.holds('never aborts', neg(panics(R)), w)
    ht = tx.header.t
    std = V(default_val(P, ht), ht, P.lib)
    own = {'sender': s.parent, 'fee': fee, 'first_valid': first, 'last_valid': last, 'lease': lease}
    for k, _ in tx.header._fields()[0]:
        ck.same('registration: %s' % k, tx.header.f(k), own.get(k, std.f(k)), w)
    kr = tx.fields
    ck.holds('registration: it is a key registration', kr.is_('Keyreg'), w)
    kf = kr.f('0', 'Keyreg')
    own = {'vote_pk': s.voting.verifier, 'selection_pk': s.vrf.public, 'vote_first': s.first_valid, 'vote_last': s.last_valid, 'vote_key_dilution': s.key_dilution, 'nonparticipation': False}
    for k, _ in kf._fields()[0]:
        if k in own:
            ck.same('registration: %s' % k, kf.f(k), own[k], w)
        else:
            ck.und('registration: %s' % k, w, 'a field the reference does not describe')


def generated(P, ck):
    """The keys made for a period are those of exactly that period."""
    f = P.fn('Participation::fill_db_with_participation_keys')
    R = P.run(f, opaque=['OTSSecrets::generate'])
    parent, first, last, dil = R.p
    w = loc(f)
    good = is_ok(R.ret)
    if good is F:
        ck.fail('keys can be made', w, 'it never succeeds')
        return
    ck.implies('an unordered period is refused', good, Le(first, last), w)
    import effects
    for e in R.events:
        if e.name.startswith('sled::Tree::insert'):
            ck.implies('nothing is stored for an unordered period', e.cond, Le(first, last), w)
    out = R.v.f('0', 'Ok')
    for k, x in (('parent', parent), ('first_valid', first), ('last_valid', last), ('key_dilution', dil)):
        ck.same('the participation\'s %s is the one asked for' % k, out.f(k), x, w, assume=good)
    gen = {x for x in subterms(out.voting.n) if x.op in ('app', 'unk') and isinstance(x.args[0], str) and x.args[0].split('<')[0].endswith('OTSSecrets::generate')}
    if len(gen) != 1:
        ck.und('the voting keys cover the period', w, 'how the voting keys are made is not understood')
        return
    a = gen.pop().args[1]
    a0, n = leaf(a[0]), leaf(a[1])
    ck.holds('the voting keys are the ones generated', disj(neg(good), veq(out.voting.n, leaf(mk('app', [x for x in subterms(out.voting.n) if x.op == 'app' and x.args[1] == a][0].args[0], a)))), w)
    ck.same('the first batch is that of the first round', a0, Div(first, dil), w, assume=conj(good, Gt(dil, 0)))
    b = conj(good, Gt(dil, 0), Lt(Sub(Div(last, dil), Div(first, dil)), 2 ** 64 - 1))
    ck.same('there is one batch per batch number of the period', n, Add(Sub(Div(last, dil), Div(first, dil)), 1), w, assume=b)
