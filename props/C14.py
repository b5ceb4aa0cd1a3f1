"""VRF proofs."""
from spec import *

RULE = ('verification must yield an output exactly if key, gamma and both scalars decode, the key is not of small order and the challenge in the proof is the hash of '
        '(H, gamma, sB - cY, sH - cX); by ring normalisation that challenge must be the one the prover hashes, and the output the hash of cofactor times gamma')
PARTS = ['verify', 'prove', 'hashables', 'keys']

ED = 'curve25519_dalek::edwards::'
SC = 'curve25519_dalek::scalar::Scalar::'
H512 = 'ed25519_dalek::Digest::digest<ed25519_dalek::Sha512>'
PK, PROOF, KP = 'crypto::vrf::VrfPublicKey', 'crypto::vrf::VrfProof', 'crypto::vrf::VrfKeypair'
SUITE = 4


def bs(*xs):
    return nod(K('bytes', tuple(xs)))


def sl(n, a, b):
    return ungate(TM.mapleaves(nod(n), lambda x: leaf(TM.slice_(x, num(a), num(b)))))


def lift2(f, *ns):
    r = None

    def go(i, acc):
        if i == len(ns):
            return leaf(f(*acc))
        return TM.mapleaves(nod(ns[i]), lambda x: go(i + 1, acc + [x]))
    return ungate(go(0, []))


def enc(p):
    """The text of a point."""
    return App('bytes:CompressedEdwardsY', App(ED + 'EdwardsPoint::compress', p))


def dec(b):
    return App(ED + 'CompressedEdwardsY::decompress', App(ED + 'CompressedEdwardsY::from_slice', b))


def to_curve(pk, msg):
    h = App(H512, Cat(bs(SUITE, 1), pk, msg))
    top = lift2(lambda x: TM.irem(TM.index(x, num(31)), num(128)), h)
    return App(ED + 'EdwardsPoint::hash_from_bytes', lift2(lambda x, t: TM.store(x, num(31), t), h, top))


def challenge(*ps):
    h = App(H512, Cat(bs(SUITE, 2), *[enc(p) for p in ps]))
    return App(SC + 'from_bytes_mod_order', Cat(sl(h, 0, 16), bs(*[0] * 16)))


def output(gamma):
    return App(H512, Cat(bs(SUITE, 3), enc(lift2(lambda g: TM.pmul(TM.pconst(8), g), gamma))))


def scalar(b):
    return App(SC + 'from_canonical_bytes', b)


def basepoint(n):
    for x in subterms(n):
        if x.op == 'adt' and x.args[0].endswith('EdwardsPoint') and all(not y.bv for y in [x]) and not any(y.op in ('sym', 'app') for y in subterms(leaf(x))):
            return x
    raise Missing('the base point')


def comb(a, p, b, q):
    """a*p - b*q"""
    return lift2(lambda a, p, b, q: TM.padd(TM.pmul(a, p), TM.pmul(b, q), -1), a, p, b, q)


def parts(proof):
    return dec(sl(proof, 0, 32)), scalar(Cat(sl(proof, 32, 48), bs(*[0] * 16))), scalar(sl(proof, 48, 80))


def verify(P, ck):
    f = P.fn(PK + '::verify_bytes')
    R = P.run(f)
    w = loc(f)
    pk, proof, msg = R.p
    key = dec(pk)
    small = lift2(lambda x: TM.gate(TM.b2v(TM.as_bdd(x))), App(ED + 'EdwardsPoint::is_small_order', payload(key, 'Some')))
    g, c, s = parts(proof)
    ok_ = conj(is_some(key), neg(is_true(small)), is_some(g), is_some(c), is_some(s))
    gv, cv, sv, kv = (payload(x, 'Some') for x in (g, c, s, key))
    h = to_curve(pk, msg)
    if not has_unk(R.ret) and not has_unk(panics(R)):
        can = is_ok(R.ret)
        if can is F or not any(x.op == 'app' and x.args[0] == SC + 'from_bytes_mod_order' for x in subterms(can)):
            return ck.fail('verify: an output exactly for a decodable proof, a key of large order and a matching challenge', w,
                           'no proof is accepted' if can is F else 'acceptance does not depend on a hash')
    b = leaf(basepoint(R.ret))
    x = challenge(h, gv, comb(sv, b, cv, kv), comb(sv, h, cv, gv))
    good = conj(ok_, veq(x, cv))
    ck.iff('verify: an output exactly for a decodable proof, a key of large order and a matching challenge', is_ok(R.ret), good, w)
    ck.same('verify: the output is the hash of the cofactor times gamma', payload(R.ret), output(gv), w, assume=good)
    ck.holds('verify: never aborts', neg(panics(R)), w)


def prove(P, ck):
    f = P.fn(KP + '::prove_bytes')
    R = P.run(f)
    w = loc(f)
    kp, msg = R.p
    pf = payload(R.ret)
    sk = App('ed25519_dalek::SecretKey::from_bytes', kp.private)
    good = is_ok(sk)
    pf = care(pf, conj(good, is_ok(R.ret)))
    if not has_unk(R.ret) and not has_unk(panics(R)) and conj(good, is_ok(R.ret), neg(panics(R))) is F:
        return ck.fail('prove: succeeds for every key of the right length', w, 'no message is ever proved')
    ls = [x for x in leaves(pf)]
    if len(ls) != 1 or ls[0].op != 'concat' or len(ls[0].args[0]) != 3:
        ck.und('prove: the proof is gamma, challenge and response', w, 'the proof is not a concatenation of three parts')
        return
    a = ls[0].args[0]
    ck.holds('prove: succeeds for every key of the right length', implies(good, conj(is_ok(R.ret), neg(panics(R)))), w)

    def inner(t, name):
        return t.args[1][0] if t.op == 'app' and t.args[0] == name else None
    comp = inner(a[0], 'bytes:CompressedEdwardsY')
    gamma = inner(comp, ED + 'EdwardsPoint::compress') if comp is not None else None
    cb = a[1].args[0] if a[1].op == 'slice' and a[1].args[1] is num(0) and a[1].args[2] is num(16) else None
    c = inner(cb, 'bytes:Scalar') if cb is not None else None
    s = inner(a[2], 'bytes:Scalar')
    if gamma is None or c is None or s is None:
        ck.fail('prove: the proof is gamma, 16 bytes of challenge and the response', w, 'got ' + show(ls[0])[:300])
        return
    ck.ok('prove: the proof is gamma, 16 bytes of challenge and the response', w)
    # gamma must be a multiple of H, and Y that same multiple of the base point
    h = leafval(to_curve(kp.public, msg))
    ms = TM.poly_of(gamma)
    fac = [m for m, k in ms.items() if k == 1 and h in m and len(m) == 2] if len(ms) == 1 else []
    if not fac:
        ck.fail('prove: gamma is the secret scalar times the hashed point', w, 'gamma is ' + show(gamma)[:300])
        return
    x = [y for y in fac[0] if y is not h][0]
    ck.ok('prove: gamma is the secret scalar times the hashed point', w)
    xsk = App('bytes:ExpandedSecretKey', App('std::convert::From::from<ed25519_dalek::ExpandedSecretKey, ed25519_dalek::SecretKey>', payload(sk)))
    ck.same('prove: the secret scalar is the first half of the expanded key', leaf(x), App(SC + 'from_bits', sl(xsk, 0, 32)), w, assume=good)
    b = basepoint(P.run(P.fn(PK + '::verify_bytes')).ret)
    Y = TM.pmul(x, b)
    # what the verifier will hash, with what the prover sent and the key the verifier holds
    lf_ = lambda t: leaf(t)
    u, v = comb(lf_(s), lf_(b), lf_(c), lf_(Y)), comb(lf_(s), lf_(h), lf_(c), lf_(gamma))
    ck.same('prove: the verifier recomputes the very challenge the prover hashed', leaf(c), challenge(leaf(h), leaf(gamma), u, v), w, assume=good)
    nonce = [y for m in TM.poly_of(leafval(u)) for y in m if y is not b]
    if len(nonce) == 1:
        ck.ok('prove: the response hides the secret behind a nonce', w)
        half = sl(App(H512, kp.private), 32, 64)
        want = App(SC + 'from_bytes_mod_order_wide', App(H512, Cat(half, enc(leaf(h)))))
        ck.same('prove: the nonce is the hash of the second half of the hashed secret key and of the hashed point', leaf(nonce[0]), want, w, assume=good)
    else:
        ck.und('prove: the response hides the secret behind a nonce', w, 'the commitment is not a multiple of the base point')


def hashables(P, ck):
    VB, PB = PK + '::verify_bytes', KP + '::prove_bytes'
    for f in P.fns(PK + '::verify'):
        R = P.run(f, opaque=[VB])
        me, proof, msg = R.p
        for x in {y for y in subterms(R.ret) if y.op == 'app' and y.args[0] == VB}:
            ck.same('verify: of a message is verification of its hash', R.ret, leaf(x), loc(f))
            ck.holds('verify: of a message uses this key and proof', conj(TM.eq(x.args[1][0], leafval(me.n)), TM.eq(x.args[1][1], leafval(proof.n))), loc(f))
    for f in P.fns(KP + '::prove'):
        R = P.run(f, opaque=[PB])
        for x in {y for y in subterms(R.ret) if y.op == 'app' and y.args[0] == PB}:
            ck.same('prove: of a message is a proof of its hash', R.ret, leaf(x), loc(f))
    fv, fp = P.run(P.fns(PK + '::verify')[0], opaque=[VB]), P.run(P.fns(KP + '::prove')[0], opaque=[PB])
    mv = [x.args[1][2] for x in subterms(fv.ret) if x.op == 'app' and x.args[0] == VB]
    mp = [x.args[1][1] for x in subterms(fp.ret) if x.op == 'app' and x.args[0] == PB]
    if not mv or not mp:
        raise Missing('what of a message is proved')
    m1 = TM.subst(leaf(mv[0]), {leafval(fv.p[2].n): mk('sym', 'msg')}, {})
    m2 = TM.subst(leaf(mp[0]), {leafval(fp.p[1].n): mk('sym', 'msg')}, {})
    ck.same('prover and verifier hash a message alike', m1, m2, loc(P.fns(PK + '::verify')[0]))


def keys(P, ck):
    f = P.fn(KP + '::from_seed')
    R = P.run(f)
    w = loc(f)
    sk = App('ed25519_dalek::SecretKey::from_bytes', R.p[0])
    good = is_ok(sk)
    pub = App('bytes:PublicKey', App('std::convert::From::from<ed25519_dalek::PublicKey, ed25519_dalek::SecretKey>', payload(sk)))
    ck.same('keys: the public key is that of the private one', R.v.public.n, pub, w, assume=good)
    ck.same('keys: the private key is the seed', R.v.private.n, R.p[0].n, w, assume=good)
    g = P.fn(KP + '::public')
    Q = P.run(g)
    ck.same('keys: the public key handed out is the stored one', Q.ret, Q.p[0].public.n, loc(g))
