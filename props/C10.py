"""Batch verification."""
from spec import *

RULE = ('the public operations of BatchVerifier are composed at the value level (constructor, up to three enqueues of arbitrary keys, messages and signatures, verdict) and '
        'the verdict must be the conjunction of the single verifications, whatever the representation; for a batch of any length the verdict must quantify over every position')
PARTS = ['small', 'anylength', 'callers']


def small(P, ck):
    fd = [f for f in P.fns(item='default', trait='Default') if f.get('self') is not None and P.lib.T[f['self']]['s'].endswith('BatchVerifier')]
    cons = [('default', fd[0], [])] if fd else []
    wc = P.fn('BatchVerifier::with_capacity')
    cons.append(('with_capacity', wc, [P.sym('capacity', P.lib.T[wc['locals'][1]]).n]))
    en, ve = P.fn('BatchVerifier::enque_sig'), P.fn('BatchVerifier::verify')
    cnt = P.fn('BatchVerifier::num_sigs_enqued')
    for cn, cf, ca in cons:
        s = P.run(cf, args=ca).ret
        want = T
        for k in range(4):
            if k:
                pk, msg, sig = [P.sym('%s%d' % (n, k), P.lib.T[en['locals'][i]]).n for n, i in (('key', 2), ('message', 3), ('signature', 4))]
                R, s = run_mut(P, en, s, pk, msg, sig)
                want = conj(want, sig_ok(pk, msg, sig))
            R = P.run(ve, args=[s])
            ck.iff('after %s and %d signatures the verdict is their conjunction%s' % (cn, k, ' (rejected when empty)' if k == 0 else ''),
                   is_ok(R.ret), want if k else F, loc(ve))
            ck.holds('after %s and %d signatures the verdict does not abort' % (cn, k), neg(panics(R)), loc(ve))
            ck.same('after %s and %d signatures the count is right' % (cn, k), P.run(cnt, args=[s]).ret, leaf(num(k)), loc(cnt))


def anylength(P, ck):
    """The verdict over a batch of unbounded length: the batch a multisignature enqueues."""
    f = P.fn('MultisigSignature::verify')
    R = P.run(f)
    m, msg = R.p[0], R.p[1]
    good = is_true(payload(R.ret))
    ck.implies('every signature enqueued by a multisignature is checked with its own key and message',
               conj(is_ok(R.ret), good), m.subsigs.all(lambda s: disj(s.sig.none(), sig_ok(s.key, msg, s.sig.get()))), loc(f))


def callers(P, ck):
    """The verdict of a batch is never discarded."""
    ve = P.fn('BatchVerifier::verify')
    en = P.fn('BatchVerifier::enque_sig')
    import overflow
    callers_, owner = overflow.callgraph(P.lib)
    # every function that creates a batch itself and lets signatures be enqueued asks for its verdict
    made = set()
    for g in ('BatchVerifier::with_capacity', 'BatchVerifier::default'):
        for f in P.fns(item=g.split('::')[1]):
            if 'BatchVerifier' in f['path']:
                made |= callers_.get(f['id'], set())
    asks = callers_.get(ve['id'], set())
    for i in sorted(made):
        f = P.lib.byid[i]
        if 'BatchVerifier' in f['path']:
            continue
        (ck.ok if i in asks else ck.fail)('%s asks for the verdict of the batch it creates' % f['path'].split('::')[-1], loc(f), '')
