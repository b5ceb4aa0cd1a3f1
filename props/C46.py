"""Forming and merging multisignatures."""
from spec import *

RULE = ('summaries of MultisigAddr::sign and MultisigSignature::{assemble, add_sigs, merge} on multisignatures of up to three keys and three parts, all keys, signatures, versions and thresholds unconstrained: '
        'success exactly under the reference condition; the keys, version and threshold are those given, in order; a slot is signed exactly if one of the parts signed it (for sign: if it is the key of the signer), '
        'and then carries a signature of that slot; no call may abort')
PARTS = ['signing', 'assembling', 'adding', 'merging']

MS = 'crypto::multisig::MultisigSignature'
SS = 'crypto::multisig::MultisigSubsig'
SIZES = (0, 1, 2, 3)


def seq(xs):
    return leaf(TM.concat([TM.norm_const(mk('arr', tuple(xs)))]) if xs else mk('arr', ()))


def field_t(P, ty, name):
    for v in P.type(ty)['variants']:
        for fl in v['fields']:
            if fl[0] == name:
                return P.lib.T[fl[1]]
    raise Missing('field %s of %s' % (name, ty))


def slots(P, nm, n, keys=None):
    """n slots: their keys, their signatures (both unconstrained), the sequence of them."""
    kt, st = field_t(P, SS, 'key'), field_t(P, SS, 'sig')
    ks = keys if keys is not None else [P.sym('%s_key%d' % (nm, i), kt, P.lib) for i in range(n)]
    ss = [P.sym('%s_sig%d' % (nm, i), st, P.lib) for i in range(n)]
    return ks, ss, seq([leafval(rec(P, SS, key=k.n, sig=s.n)) for k, s in zip(ks, ss)])


def part(P, nm, n):
    v, t = (P.sym('%s_%s' % (nm, x), field_t(P, MS, x), P.lib) for x in ('version', 'threshold'))
    ks, ss, sl = slots(P, nm, n)
    return v, t, ks, ss, rec(P, MS, version=v.n, threshold=t.n, subsigs=sl)


def result(ck, P, R, w, what, ok, version, threshold, keys, sigs):
    """The multisignature made: parameters, keys, and for each slot (signed?, allowed signatures)."""
    out = V(R, P.type(MS), P.lib)
    ck.same(what + ': the version', out.version, version, w, assume=ok)
    ck.same(what + ': the threshold', out.threshold, threshold, w, assume=ok)
    ck.holds(what + ': as many slots', implies(ok, Eq(out.subsigs.len(), len(keys))), w)
    for i, k in enumerate(keys):
        s = V(care(out.subsigs.at(num(i)).n, ok), P.type(SS), P.lib)
        ck.same('%s: the key of slot %d' % (what, i), s.key, k, w, assume=ok)
        cond, allowed = sigs[i]
        ck.holds('%s: slot %d is signed exactly if it was' % (what, i), implies(ok, iff(s.sig.some(), cond)), w)
        ck.holds('%s: the signature of slot %d is one given for it' % (what, i), implies(conj(ok, cond), disj(*[conj(c, veq(s.sig, x)) for c, x in allowed])), w)


def signing(P, ck):
    f = P.fn('MultisigAddr::sign')
    w = loc(f)
    a, vs, cells = P.params(f)
    arr = [i for i, v in enumerate(vs) if v.t['s'].endswith('PublicKey]')]
    kp = [i for i, v in enumerate(vs) if v.t['s'].endswith('Keypair')]
    u8s = [i for i, v in enumerate(vs) if v.t['s'] == 'u8']
    msg = [i for i, v in enumerate(vs) if v.t['s'] == '[u8]']
    if [len(x) for x in (arr, kp, u8s, msg)] != [1, 1, 2, 1]:
        raise Missing('arguments of sign: message, version, threshold, keys, key pair')
    kt = field_t(P, SS, 'key')
    addr, ver, thr, kp, msg = vs[0], vs[u8s[0]], vs[u8s[1]], vs[kp[0]], vs[msg[0]]
    g = P.fn('MultisigAddr::from_pks')
    own_key = leaf(TM.fld(leafval(kp.n), 'public'))
    signed = Some_(App('ed25519_dalek::Signer::sign<ed25519_dalek::Keypair, ed25519_dalek::Signature>', kp, msg))
    for n in SIZES:
        ks = [P.sym('key%d' % i, kt, P.lib) for i in range(n)]
        args = list(a)
        args[arr[0]] = seq([leafval(k.n) for k in ks])
        R = P.run(f, args=args, cells=cells, eager=2)
        A = P.run(g, args=[ver.n, thr.n, args[arr[0]]], eager=2)
        what = 'sign with %d keys' % n
        own = [Eq(k, own_key) for k in ks]
        ck.iff(what + ': succeeds exactly for the address of the keys and one of their owners', is_ok(R.ret),
               conj(Eq(ver, 1), is_ok(A.ret), veq(addr, payload(A.ret)), disj(*own)), w)
        ck.holds(what + ': never aborts', neg(panics(R)), w)
        ok = is_ok(R.ret)
        if ok is not F:
            result(ck, P, payload(R.ret), w, what, ok, ver, thr, ks, [(o, [(o, signed)]) for o in own])


def compatible(x, y):
    return conj(Eq(x[0], y[0]), Eq(x[1], y[1]), T if len(x[2]) == len(y[2]) else F, *[Eq(a, b) for a, b in zip(x[2], y[2])])


def assembling(P, ck):
    f = P.fn(MS + '::assemble')
    w = loc(f)
    for m in (0, 1, 2, 3):
        for n in SIZES[1:] if m > 1 else (2,):
            ps = [part(P, 'part%d' % j, n) for j in range(m)]
            R = P.run(f, args=[seq([leafval(p[4]) for p in ps])], eager=3)
            what = 'assemble %d parts of %d keys' % (m, n)
            ck.holds(what + ': never aborts', neg(panics(R)), w)
            cond = conj(*[compatible(ps[0], p) for p in ps[1:]]) if m > 1 else F
            ck.iff(what + ': succeeds exactly if all parts match', is_ok(R.ret), cond, w)
            if m < 2:
                continue
            ok = conj(is_ok(R.ret), cond)
            sigs = [(disj(*[p[3][i].some() for p in ps]), [(p[3][i].some(), p[3][i]) for p in ps]) for i in range(n)]
            result(ck, P, payload(R.ret), w, what, ok, ps[0][0], ps[0][1], ps[0][2], sigs)
    p, q = part(P, 'a', 1), part(P, 'b', 2)
    for x, y in ((p, q), (q, p)):
        R = P.run(f, args=[seq([leafval(x[4]), leafval(y[4])])], eager=3)
        ck.holds('assemble: parts with different numbers of keys are refused', neg(is_ok(R.ret)), w)
        ck.holds('assemble: never aborts on parts with different numbers of keys', neg(panics(R)), w)


def conflict(a, b):
    return conj(a.some(), b.some(), neg(veq(a, b)))


def merging(P, ck):
    f = P.fn(MS + '::merge')
    w = loc(f)
    for n in SIZES:
        for n2 in (n, n + 1) if n < 3 else (n, n - 1):
            p, q = part(P, 'self', n), part(P, 'other', n2)
            R = P.run(f, args=[p[4], q[4]], eager=2)
            what = 'merge of %d and %d keys' % (n, n2)
            ck.holds(what + ': never aborts', neg(panics(R)), w)
            cond = conj(compatible(p, q), *[neg(conflict(a, b)) for a, b in zip(p[3], q[3])])
            ck.iff(what + ': succeeds exactly if both match and no slot has two different signatures', is_ok(R.ret), cond, w)
            if n != n2:
                continue
            ok = conj(is_ok(R.ret), cond)
            sigs = [(disj(a.some(), b.some()), [(a.some(), a), (b.some(), b)]) for a, b in zip(p[3], q[3])]
            result(ck, P, payload(R.ret), w, what, ok, p[0], p[1], p[2], sigs)


def adding(P, ck):
    f = P.fn(MS + '::add_sigs')
    w = loc(f)
    for m in (0, 1, 2):
        for n in SIZES[1:] if m else (2,):
            p = part(P, 'self', n)
            ps = [part(P, 'part%d' % j, n) for j in range(m)]
            R = P.run(f, args=[cell('ms'), seq([leafval(x[4]) for x in ps])], cells={'ms': p[4]}, eager=3)
            what = 'add_sigs of %d parts of %d keys' % (m, n)
            ck.holds(what + ': never aborts', neg(panics(R)), w)
            al = [p] + ps
            clash = [conflict(x[3][i], y[3][i]) for i in range(n) for j, x in enumerate(al) for y in al[j + 1:]]
            cond = conj(*[compatible(p, x) for x in ps], *[neg(c) for c in clash]) if m else F
            # being the same is transitive
            law = conj(*[implies(conj(veq(x[3][i], y[3][i]), veq(y[3][i], z[3][i])), veq(x[3][i], z[3][i]))
                         for i in range(n) for x in al for y in al for z in al if x is not y and y is not z and x is not z])
            ck.iff(what + ': succeeds exactly if all match and no slot has two different signatures', is_ok(R.ret), cond, w, assume=law)
            ok = conj(is_ok(R.ret), cond)
            sigs = [(disj(*[x[3][i].some() for x in al]), [(x[3][i].some(), x[3][i]) for x in al]) for i in range(n)]
            if m:
                result(ck, P, R.out['ms'], w, what, ok, p[0], p[1], p[2], sigs)
            mism = neg(conj(*[compatible(p, x) for x in ps])) if m else T
            ck.same(what + ': parts of another multisignature change nothing', R.out['ms'], p[4], w, assume=mism)
    p, q = part(P, 'self', 2), part(P, 'other', 1)
    for x, y in ((p, q), (q, p)):
        R = P.run(f, args=[cell('ms'), seq([leafval(y[4])])], cells={'ms': x[4]}, eager=3)
        ck.holds('add_sigs: parts with another number of keys are refused', neg(is_ok(R.ret)), w)
        ck.holds('add_sigs: never aborts on parts with another number of keys', neg(panics(R)), w)
