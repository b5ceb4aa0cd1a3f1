"""Erasure of one-time keys."""
from spec import *
import terms as TM
import importlib
c11 = importlib.import_module('C11')

RULE = ('the state OTSSecrets::delete_before leaves is compared, for every starting state and target identifier, with the reference transition (whole batches dropped, the batch reached expanded into fresh '
        'offset keys signed by it, passed offsets dropped, everything later kept); no other function writes the secrets; a snapshot and the identifier of a round are compared with their definitions')
PARTS = ['advance', 'other', 'snapshot', 'writers', 'rounds', 'caller']


def setup(P):
    f = P.fn('OTSSecrets::delete_before')
    R = P.run(f)
    s, cur, N = R.p
    t = P.type('OTSSecrets')
    out = V(R.out[[k for k in R.out if k == 'self' or k.startswith('self')][0] if 'self' in R.out else list(R.out)[0]], t, P.lib)
    return f, R, s, cur, N, out


def ix(n):
    n = nod(n)
    return leafval(n) if is_leaf(n) else TM.gate(n)


def advance(P, ck):
    f, R, s, cur, N, out = setup(P)
    w = loc(f)
    live = neg(panics(R))
    c, o = cur.batch, cur.offset
    B, n, O, m = s.first_batch, s.batches.len(), s.first_offset, s.offsets.len()
    zero = lambda x: Eq(x, 0)
    # --- a later batch is reached
    fwd = conj(Ge(c, B), live)
    k = Sub(c, B)
    have = conj(fwd, Lt(k, n))
    gone = conj(fwd, Ge(k, n))
    ck.same('batch out of reach: no batch key remains', out.batches.len(), 0, w, assume=gone)
    ck.same('batch out of reach: no offset key remains', out.offsets.len(), 0, w, assume=gone)
    ck.same('batch reached: exactly the later batches remain', out.batches.len(), Sub(n, Add(k, 1)), w, assume=have)
    ck.same('batch reached: the first remaining batch is the next one', out.first_batch, Add(c, 1), w, assume=conj(have, Gt(out.batches.len(), 0)))
    ck.same('batch reached: its offset keys belong to it', out.first_batch, Add(c, 1), w, assume=conj(have, Gt(out.offsets.len(), 0)))
    i = mk('idx', newd(), num(0), ix(Sub(n, Add(k, 1))))
    ck.same('batch reached: later batch keys are kept in place', out.batches.at(i).kp, s.batches.at(ix(Add(k, 1, i))).kp, w, assume=have)
    ck.same('batch reached: later master signatures are kept in place', out.batches.at(i).pk_sig_new, s.batches.at(ix(Add(k, 1, i))).pk_sig_new, w, assume=have)
    ck.same('batch reached: one key for each offset from the identifier on', out.offsets.len(), Sub(N, o), w, assume=conj(have, Le(o, N)))
    ck.holds('batch reached: no offset key when the identifier is past the batch', implies(conj(have, Lt(N, o)), Le(out.offsets.len(), 0)), w)
    some = conj(have, Gt(out.offsets.len(), 0))
    ck.same('batch reached: offsets start at the identifier', out.first_offset, o, w, assume=some)
    j = mk('idx', newd(), num(0), ix(Sub(N, o)))
    some = conj(have, Lt(o, N))
    e = out.offsets.at(j)
    b = s.batches.at(ix(k))
    ck.holds('batch reached: offset keys are freshly drawn', implies(some, c11.is_fresh(e.kp.n)), w)
    j2 = mk('idx', newd(), num(0), ix(Sub(N, o)))
    ck.holds('batch reached: offset keys differ from each other', implies(conj(some, disj(Lt(j, j2), Lt(j2, j))), c11.distinct(e.kp.n, out.offsets.at(j2).kp.n)), w)
    ck.same('batch reached: each is signed by that batch key with batch and offset', e.pk_sig_new,
            App(c11.SIGN, b.kp, c11.offset_msg(P, c11.pub(e.kp), c, Add(o, j))), w, assume=some)
    ck.same('batch reached: that batch key is named', out.offsets_pk2, c11.pub(b.kp), w, assume=some)
    ck.same('batch reached: with its master signature', out.offsets_pk2_sig, b.pk_sig_new, w, assume=some)
    # --- within the batch already expanded
    same = conj(Eq(Add(c, 1), B), live)
    ck.same('same batch: batch keys are untouched', out.batches, s.batches, w, assume=same)
    ck.same('same batch: the first batch is untouched', out.first_batch, B, w, assume=conj(same, disj(Gt(n, 0), Gt(out.offsets.len(), 0))))
    # nothing passed
    idle = conj(same, Le(o, O))
    ck.same('same batch, nothing passed: offset keys are untouched', out.offsets, s.offsets, w, assume=idle)
    ck.same('same batch, nothing passed: the first offset is untouched', out.first_offset, O, w, assume=conj(idle, Gt(m, 0)))
    # some passed
    left = conj(same, Lt(O, o), Lt(Sub(o, O), m))
    ck.same('same batch: exactly the passed offsets are dropped', out.offsets.len(), Sub(m, Sub(o, O)), w, assume=left)
    ck.same('same batch: the first offset moves with them', out.first_offset, o, w, assume=left)
    ck.same('same batch: no offset key remains when all are passed', out.offsets.len(), 0, w, assume=conj(same, Lt(O, o), Ge(Sub(o, O), m)))
    i = mk('idx', newd(), num(0), ix(Sub(m, Sub(o, O))))
    ck.same('same batch: later offset keys are kept in place', out.offsets.at(i).kp, s.offsets.at(ix(Add(Sub(o, O), i))).kp, w, assume=left)
    ck.same('same batch: their signatures are kept in place', out.offsets.at(i).pk_sig_new, s.offsets.at(ix(Add(Sub(o, O), i))).pk_sig_new, w, assume=left)
    ck.same('same batch: the batch key they belong to is kept', out.offsets_pk2, s.offsets_pk2, w, assume=disj(left, conj(idle, Gt(m, 0))))
    ck.same('same batch: its master signature is kept', out.offsets_pk2_sig, s.offsets_pk2_sig, w, assume=disj(left, conj(idle, Gt(m, 0))))


def other(P, ck):
    f, R, s, cur, N, out = setup(P)
    w = loc(f)
    past = conj(Lt(Add(cur.batch, 1), s.first_batch), neg(panics(R)))
    for k, _ in out._fields()[0]:
        if k == 'lock':
            continue
        ck.same('an earlier identifier changes nothing: %s' % k, out.f(k), s.f(k), w, assume=past)
    ck.same('the verifier never changes', out.verifier, s.verifier, w, assume=neg(panics(R)))


def snapshot(P, ck):
    f = P.fn('OTSSecrets::snapshot')
    R = P.run(f)
    s, = R.p
    out = V(R.ret, P.type('OTSSecrets'), P.lib)
    for k, _ in out._fields()[0]:
        if k != 'lock':
            ck.same('a snapshot holds the live %s' % k, out.f(k), s.f(k), loc(f))
    # cloning a key yields that key
    for g in P.fns(item='clone'):
        if 'EphemeralSubkey' in g['path'] or (g.get('self') is not None and P.lib.T[g['self']]['s'].endswith('EphemeralSubkey')):
            C = P.run(g)
            c, = C.p
            o = V(C.ret, c.t, P.lib)
            live = neg(panics(C))
            ck.same('copying a key copies its signature', o.pk_sig_new, c.pk_sig_new, loc(g), assume=live)
            xs = [x for x in leaves(care(o.kp.n, live)) if x.op not in ('panic', 'uninit')]
            want = [x for x in leaves(c.kp.n)]
            good = all(x in want or _roundtrip(x, want) for x in xs)
            (ck.ok if good else ck.fail)('copying a key copies its secret', loc(g), '; '.join(show(x)[:200] for x in xs[:2]))


def _roundtrip(x, want):
    """Keypair::from_bytes(Keypair::to_bytes(k))!Ok.0"""
    if x.op == 'vfld' and x.args[1] == 'Ok':
        a = x.args[0]
        if a.op == 'app' and str(a.args[0]).endswith('Keypair::from_bytes'):
            b = a.args[1][0]
            return b.op == 'app' and str(b.args[0]).endswith(':Keypair') and b.args[1][0] in want
    return False


MUTATORS = ('delete_before',)


def writers(P, ck):
    """Who may change the secrets."""
    import effects
    t = P.type('OTSSecrets')
    f = P.fn('OTSSecrets::delete_before')
    allowed = effects.private_callees(P.lib, f)
    n = 0
    for g, what, line in effects.field_writes(P.lib, t['path']):
        n += 1
        if g['id'] in allowed or effects.derived(g):
            continue
        ck.fail('only delete_before changes stored one-time secrets', loc(g), '%s at line %s writes %s' % (g['path'], line, what))
    ck.ok('only delete_before changes stored one-time secrets', loc(f), '%d write sites' % n)
    for g in P.lib.fns:
        if not g.get('local') or not g.get('blocks') or g['kind'] != 'item' or g.get('dk') == 'Closure' or effects.derived(g):
            continue
        for i in range(g['argc']):
            a = P.lib.T[g['locals'][i + 1]]
            if a['k'] == 'ref' and a.get('mut') and P.lib.T[a['of']].get('path') == t['path'] and g['id'] not in allowed:
                ck.fail('only delete_before takes the secrets mutably', loc(g), '')
    ck.ok('only delete_before takes the secrets mutably', loc(f), '')


def rounds(P, ck):
    f = P.fn('Round::ots_id')
    R = P.run(f)
    r, d = R.p
    out = V(R.ret, P.type('OTSIdentifier'), P.lib)
    pos = conj(Gt(d, 0), neg(panics(R)))
    ck.same('the batch of a round is its quotient by the key dilution', out.batch, Div(r.n, d), loc(f), assume=pos)
    ck.same('the offset of a round is its remainder by the key dilution', out.offset, Rem(r.n, d), loc(f), assume=pos)
    ck.holds('the identifier of a round exists for every positive dilution', implies(Gt(d, 0), neg(panics(R))), loc(f))


def caller(P, ck):
    """Deleting old keys of a participation advances its secrets to the identifier of the round."""
    f = P.fn('account::Participation::delete_old_keys')
    R = P.run(f)
    s, cur, proto = R.p
    w = loc(f)
    dil = If(Gt(s.key_dilution, 0), s.key_dilution, proto.default_key_dilution)
    out = V(R.out['self'], s.t, P.lib)
    cut = rec(P, 'OTSIdentifier', batch=Div(cur.n, dil), offset=Rem(cur.n, dil))
    D, want = run_mut(P, P.fn('OTSSecrets::delete_before'), s.voting, cut, dil)
    live = conj(neg(panics(R)), neg(panics(D)), Gt(dil, 0))
    wv = V(want, P.type('OTSSecrets'), P.lib)
    for k, _ in wv._fields()[0]:
        ck.same('deleting old keys advances %s to the round' % k, out.voting.f(k), wv.f(k), w, assume=live)
    for k, _ in out._fields()[0]:
        if k != 'voting':
            ck.same('deleting old keys leaves %s' % k, out.f(k), s.f(k), w, assume=live)
