"""Multisignatures."""
from spec import *

RULE = ('the acceptance diagram of MultisigSignature::verify must imply every clause of the reference predicate (version, threshold, address, counts, every signature valid), '
        'the derived address must be the hash of version, threshold and every key in order, and batch verification must enqueue exactly the signatures present')
PARTS = ['single', 'derived', 'batch', 'complete']


def addr_of(version, threshold, keys):
    return digest(Cat(nod(b'MultisigAddr'), leaf(tm_arr(version)), leaf(tm_arr(threshold)), keys))


def tm_arr(x):
    return mk('arr', (leafval(nod(x)),))


def clauses(m, msg, addr):
    n = m.subsigs.len()
    t = m.threshold
    present = lambda s: s.sig.some()
    signed = m.subsigs.sum(lambda s: If(present(s), 1, 0))
    return [
        ('version is the supported one', Eq(m.version, 1)),
        ('threshold is not zero', Ge(t, 1)),
        ('threshold is at most the number of keys', Le(t, n)),
        ('number of sub-signatures is not zero', Ge(n, 1)),
        ('number of sub-signatures is at most 255', Le(n, 255)),
        ('at least threshold signatures are present', Le(t, signed)),
        ('address is derived from version, threshold and every key in order',
         veq(addr, addr_of(m.version, m.threshold, m.subsigs.each(lambda s: App('bytes:PublicKey', s.key))))),
    ], m.subsigs.all(lambda s: disj(s.sig.none(), sig_ok(s.key, msg, s.sig.get())))


def single(P, ck):
    f = P.fn('MultisigSignature::verify')
    R = P.run(f)
    m, msg, addr = R.p
    acc = conj(is_ok(R.ret), is_true(payload(R.ret)))
    cl, sigs = clauses(m, msg, addr)
    for name, c in cl:
        ck.implies('accepted only if the ' + name, acc, c, loc(f))
    ck.implies('accepted only if every signature present is valid for its key', acc, sigs, loc(f))
    ck.holds('never aborts', neg(panics(R)), loc(f))


def complete(P, ck):
    """Completeness: an honest multisignature is accepted."""
    f = P.fn('MultisigSignature::verify')
    R = P.run(f)
    m, msg, addr = R.p
    acc = conj(is_ok(R.ret), is_true(payload(R.ret)))
    cl, sigs = clauses(m, msg, addr)
    first = mapleaves(m.subsigs.at(num(0)).sig.n, lambda x: is_variant(x, 'Some'))
    ck.implies('a multisignature meeting every rule, whose first key signed, is accepted', conj(sigs, first, *[c for _, c in cl]), acc, loc(f))


def derived(P, ck):
    f = P.fn('MultisigAddr::from_pks')
    R = P.run(f)
    v, t, pks = R.p
    n = pks.len()
    good = conj(Eq(v, 1), Ge(t, 1), Le(t, n))
    ck.iff('an address is derived exactly for the supported version and a coherent threshold', is_ok(R.ret), good, loc(f))
    want = addr_of(v, t, pks.each(lambda k: App('bytes:PublicKey', k)))
    ck.same('the derived address commits to version, threshold and every key in order', payload(R.ret), want, loc(f), assume=is_ok(R.ret))


def batch(P, ck):
    f = P.fn('MultisigSignature::batch_verify')
    R = P.run(f)
    m, msg, addr = R.p[0], R.p[1], R.p[2]
    acc = conj(is_ok(R.ret), is_true(payload(R.ret)))
    cl, sigs = clauses(m, msg, addr)
    for name, c in cl:
        ck.implies('batch: accepted only if the ' + name, acc, c, loc(f))
    # what is enqueued, observed through the verdict of the batch started empty
    fd = [g for g in P.fns(item='default', trait='Default') if g.get('self') is not None and P.lib.T[g['self']]['s'].endswith('BatchVerifier')]
    s0 = P.run(fd[0], args=[]).ret if fd else P.run(P.fn('BatchVerifier::with_capacity'), args=[leaf(num(1))]).ret
    B = P.run(f, args=[m.n, msg.n, addr.n, cell('#bv')], cells={'#bv': s0})
    ve = P.fn('BatchVerifier::verify')
    W = P.run(ve, args=[B.out['#bv']])
    acc2 = conj(is_ok(B.ret), is_true(payload(B.ret)))
    ck.implies('batch: the verdict of the batch implies every signature present is valid', conj(acc2, is_ok(W.ret)), sigs, loc(f))
    single_ = P.run(P.fn('MultisigSignature::verify'), args=[m.n, msg.n, addr.n])
    ck.iff('batch: accepting and passing the batch is the same as single verification',
           conj(acc2, is_ok(W.ret)), conj(is_ok(single_.ret), is_true(payload(single_.ret)), Ge(m.subsigs.sum(lambda s: If(s.sig.some(), 1, 0)), 1)), loc(f))
