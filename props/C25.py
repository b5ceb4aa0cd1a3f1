"""In-block encoding of signed transactions."""
from spec import *

RULE = ('the accept condition of encode_signed_tx / decode_signed_tx and every field of what they return must equal the reference definition, for every header, '
        'transaction and protocol')
PARTS = ['encode', 'decode', 'roundtrip']


def hdr(stx):
    return stx.tx.header


def carried(ck, label, got, want, w, live, skip=()):
    """Every field (recursively through structs) except those named is carried over."""
    for k, _ in want._fields()[0]:
        g, v = got.f(k), want.f(k)
        p = [s[1:] for s in skip if s[0] == k]
        if () in p:
            continue
        if p:
            carried(ck, label + '.' + k, g, v, w, live, p)
        else:
            ck.same('%s.%s is carried over' % (label, k), g, v, w, assume=live)


GID, GH = ('tx', 'header', 'genesis_id'), ('tx', 'header', 'genesis_hash')


def encode(P, ck):
    f = P.fn('BlockHeader::encode_signed_tx')
    R = P.run(f)
    h, st, ad = R.p
    w = loc(f)
    sup, pr = params_of(P, h.upgrade_state.current_protocol)
    fmt = is_true(pr.support_signed_tx_in_block.n)
    req = is_true(pr.require_genesis_hash.n)
    x = hdr(st)
    zh = default_val(P, x.genesis_hash.t)
    noid, nohash = Eq(x.genesis_id, ''), Eq(x.genesis_hash, zh)
    same_id, same_hash = Eq(x.genesis_id, h.genesis_id), Eq(x.genesis_hash, h.genesis_hash)
    acc = conj(sup, implies(fmt, conj(disj(noid, same_id), ite(nohash, neg(req), same_hash))))
    ck.holds('encode: never aborts', neg(panics(R)), w)
    ck.iff('encode: accepted exactly when genesis id and hash are absent or the block\'s, and no mandatory hash is missing', is_ok(R.ret), acc, w)
    out = R.v.f('0', 'Ok')
    live = conj(acc, is_ok(R.ret))
    o = hdr(out.tx.tx)
    ck.same('encode: the genesis id is stripped', o.genesis_id, If(fmt, nod(''), x.genesis_id), w, assume=live)
    ck.same('encode: the genesis hash is stripped', o.genesis_hash, If(fmt, zh, x.genesis_hash), w, assume=live)
    ck.iff('encode: a stripped genesis id is recorded', is_true(out.has_genesis_id.n), conj(fmt, neg(noid)), w, assume=live)
    ck.iff('encode: a stripped genesis hash is recorded unless mandatory', is_true(out.has_genesis_hash.n), conj(fmt, neg(nohash), neg(req)), w, assume=live)
    carried(ck, 'encode: the transaction', out.tx.tx, st, w, live, (GID, GH))
    ck.same('encode: the apply data is carried over', out.tx.ad, ad, w, assume=live)


def decode(P, ck):
    f = P.fn('BlockHeader::decode_signed_tx')
    R = P.run(f)
    h, b = R.p
    w = loc(f)
    sup, pr = params_of(P, h.upgrade_state.current_protocol)
    fmt = is_true(pr.support_signed_tx_in_block.n)
    req = is_true(pr.require_genesis_hash.n)
    x = hdr(b.tx.tx)
    zh = default_val(P, x.genesis_hash.t)
    hid, hh = is_true(b.has_genesis_id.n), is_true(b.has_genesis_hash.n)
    acc = conj(sup, implies(fmt, conj(Eq(x.genesis_id, ''), Eq(x.genesis_hash, zh), neg(conj(req, hh)))))
    ck.holds('decode: never aborts', neg(panics(R)), w)
    ck.iff('decode: accepted exactly when neither value is still carried and the hash flag is not redundant', is_ok(R.ret), acc, w)
    out = R.v.f('0', 'Ok')
    live = conj(acc, is_ok(R.ret))
    o = hdr(out.tx)
    ck.same('decode: the genesis id is restored exactly if recorded', o.genesis_id, If(conj(fmt, hid), h.genesis_id, x.genesis_id), w, assume=live)
    ck.same('decode: the genesis hash is restored exactly if recorded or mandatory', o.genesis_hash, If(conj(fmt, disj(req, hh)), h.genesis_hash, x.genesis_hash), w, assume=live)
    carried(ck, 'decode: the transaction', out.tx, b.tx.tx, w, live, (GID, GH))
    ck.same('decode: the apply data is carried over', out.ad, b.tx.ad, w, assume=live)


def roundtrip(P, ck):
    """decode(encode(t)) is t, composed symbolically."""
    f, g = P.fn('BlockHeader::encode_signed_tx'), P.fn('BlockHeader::decode_signed_tx')
    R = P.run(f)
    h, st, ad = R.p
    w = loc(g)
    Q = P.run(g, args=[h.n, payload(R.ret)])
    good = is_ok(R.ret)
    ck.implies('round trip: what encode produced is decoded', good, is_ok(Q.ret), w)
    out = Q.v.f('0', 'Ok')
    live = conj(good, is_ok(Q.ret))
    carried(ck, 'round trip: the transaction', out.tx, st, w, live, (GID, GH))
    ck.same('round trip: genesis id', hdr(out.tx).genesis_id, hdr(st).genesis_id, w, assume=live)
    ck.same('round trip: genesis hash', hdr(out.tx).genesis_hash, hdr(st).genesis_hash, w, assume=live)
    ck.same('round trip: apply data', out.ad, ad, w, assume=live)
