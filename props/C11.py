"""One-time signatures."""
from spec import *
import terms as TM

RULE = ('the acceptance diagram of OTS::verify must equal the conjunction of the three link checks (master over batch key and batch, batch key over one-time key, batch and offset, one-time key over message), '
        'and the fields of the signature OTSSecrets::sign and the keys OTSSecrets::generate produce must be exactly that chain for the stored key selected by batch and offset')
PARTS = ['verify', 'sign', 'generate']

SIGN = 'ed25519_dalek::Signer::sign<ed25519_dalek::Keypair, ed25519_dalek::Signature>'
STRICT = 'ed25519_dalek::PublicKey::verify_strict'


def msgpack(x):
    return App('msgpack', x)


def batch_msg(P, pk, batch):
    return Cat(nod(b'OT1'), msgpack(rec(P, 'OTSSubkeyBatchID', sub_key_pk=pk, batch=batch)))


def offset_msg(P, pk, batch, offset):
    return Cat(nod(b'OT2'), msgpack(rec(P, 'OTSSubkeyOffsetID', sub_key_pk=pk, batch=batch, offset=offset)))


def rep(msg):
    return App('crypto::hashable::Hashable::hash_rep<impl Hashable>', msg)


def instance(P, suffix):
    l = P.insts(suffix)
    for f in l:
        if f['targs'] and 'impl' in f['_c'].T[f['targs'][0]]['s'] or not f['targs']:
            return f
    return l[0]


def verify(P, ck):
    f = instance(P, 'OTS::verify')
    R = P.run(f)
    s, id_, msg, pk = R.p

    def strict(k, m, sg):
        return is_ok(App(STRICT, k, m, sg))
    batch = strict(pk, batch_msg(P, s.pk2, id_.batch), s.pk2_sig)
    off = strict(s.pk2, offset_msg(P, s.pk, id_.batch, id_.offset), s.pk1_sig)
    m = strict(s.pk, rep(msg), s.sig)
    acc = is_true(R.ret)
    w = loc(f)
    ck.implies('accepted only if the master key signed the batch key and batch', acc, batch, w)
    ck.implies('accepted only if the batch key signed the one-time key, batch and offset', acc, off, w)
    ck.implies('accepted only if the one-time key signed the message', acc, m, w)
    ck.implies('a complete key chain is accepted', conj(batch, off, m), acc, w)
    ck.holds('verification never aborts', neg(panics(R)), w)


def is_fresh(n):
    """Condition under which the value is a fresh draw."""
    return mapleaves(n, lambda x: T if x.op == 'app' and str(x.args[0]).endswith('generate') else F)


def distinct(a, b):
    """Different draws of randomness."""
    def cur(x):
        return x.args[1][-1] if x.op == 'app' else None

    def one(x, y):
        if cur(x) is None or cur(y) is None:
            return F
        return disj(Lt(cur(x), cur(y)), Lt(cur(y), cur(x)))
    return lift2(one, a, b)


def sign(P, ck):
    f = instance(P, 'OTSSecrets::sign')
    R = P.run(f)
    s, id_, msg = R.p
    w = loc(f)
    out = V(R.ret, P.type('OTS'), P.lib)
    offs = conj(Eq(Add(id_.batch, 1), s.first_batch), Ge(id_.offset, s.first_offset), Lt(Sub(id_.offset, s.first_offset), s.offsets.len()))
    bat = conj(Ge(id_.batch, s.first_batch), Lt(Sub(id_.batch, s.first_batch), s.batches.len()))
    ck.holds('signing never aborts', neg(panics(R)), w)

    def keyed(label, cond, k, sig):
        ck.same('%s: the message is signed with the key of exactly that batch and offset' % label, out.sig, App(SIGN, k, rep(msg)), w, assume=cond)
    # keys already expanded for the offsets of the batch before first_batch
    idx = leafval_or(Sub(id_.offset, s.first_offset))
    e = s.offsets.at(idx)
    ck.same('expanded batch: the stored key of that offset signs the message', out.sig, App(SIGN, e.kp, rep(msg)), w, assume=offs)
    ck.same('expanded batch: that key is named', out.pk, pub(e.kp), w, assume=offs)
    ck.same('expanded batch: with the signature stored for that key', out.pk1_sig, e.pk_sig_new, w, assume=offs)
    ck.same('expanded batch: with the batch key of the expanded batch', out.pk2, s.offsets_pk2, w, assume=offs)
    ck.same('expanded batch: with the master signature of the expanded batch', out.pk2_sig, s.offsets_pk2_sig, w, assume=offs)
    # batches not expanded yet
    b = s.batches.at(leafval_or(Sub(id_.batch, s.first_batch)))
    k = None
    for x in leaves(care(nod(out.sig), bat)):
        if x.op == 'app' and x.args[0] == SIGN:
            k = leaf(x.args[1][0])
    if k is None:
        ck.fail('whole batch: a one-time key signs the message', w, 'no signature is made for an available batch')
        return
    live = conj(bat, neg(offs))
    ck.holds('whole batch: the one-time key is freshly drawn', implies(bat, is_fresh(k)), w)
    ck.same('whole batch: it signs the message', out.sig, App(SIGN, k, rep(msg)), w, assume=live)
    ck.same('whole batch: that key is named', out.pk, pub(k), w, assume=live)
    ck.same('whole batch: the key of exactly that batch signs the one-time key, batch and offset', out.pk1_sig,
            App(SIGN, b.kp, offset_msg(P, pub(k), id_.batch, id_.offset)), w, assume=live)
    ck.same('whole batch: the key of exactly that batch is named', out.pk2, pub(b.kp), w, assume=live)
    ck.same('whole batch: with the master signature stored for that batch', out.pk2_sig, b.pk_sig_new, w, assume=live)
    # nothing else is ever signed
    dead = conj(neg(offs), neg(bat))
    for name in ('sig', 'pk', 'pk1_sig', 'pk2', 'pk2_sig'):
        xs = leaves(care(nod(out.f(name)), dead))
        bad = [x for x in xs if depends(x)]
        (ck.fail if bad else ck.ok)('out of range: %s is a constant that proves nothing' % name, w, '; '.join(show(x)[:200] for x in bad[:2]))
    # the field of old-style signatures is part of the encoding
    if any(x[0] == '_pk_sig_old' for x in P.type('OTS')['variants'][0]['fields']):
        old = out.f('_pk_sig_old').n
        zero = {App(x.args[0], nod(K('bytes', (0,) * 64))) for x in leaves(old) if x.op == 'app' and len(x.args[1]) == 1}
        if has_unk(old) or len(zero) != 1:
            ck.und('the unused signature is always zero', w, show(old)[:200])
        else:
            ck.same('the unused signature is always zero', old, zero.pop(), w, assume=neg(panics(R)))
    ck.holds('the two kinds of available key never overlap', neg(conj(offs, bat)), w)


def depends(x):
    """Does the term depend on a parameter or a fresh key?"""
    if not isinstance(x, TM.Term):
        return any(depends(y) for y in x) if isinstance(x, tuple) else any(depends(y) for y in leaves(x)) if isinstance(x, TM.Node) else False
    if x.op in ('sym', 'unk', 'uninit'):
        return x.op != 'uninit'
    return any(depends(a) for a in x.args if isinstance(a, (TM.Term, tuple, TM.Node)))


def leafval_or(n):
    return leafval(n) if is_leaf(n) else n


def pub(k):
    k = nod(k)
    return mapleaves(k, lambda x: leaf(fld(x, 'public', 'ed25519_dalek::Keypair', 2)))


def generate(P, ck):
    f = P.fn('OTSSecrets::generate')
    R = P.run(f)
    start, n = R.p
    w = loc(f)
    out = V(R.ret, P.type('OTSSecrets'), P.lib)
    live = neg(panics(R))
    ver = leaves(out.verifier.n)
    ver = [x for x in ver if x.op == 'fld']
    if len(ver) != 1:
        ck.und('the verifier is the public key of one fresh key pair', w, show(out.verifier.n.lo) if 0 else 'shape not recognised')
        return
    m = leaf(ver[0].args[0])
    ck.holds('the master key is freshly drawn', implies(live, is_fresh(m)), w)
    ck.same('the verifier is its public key', out.verifier, pub(m), w, assume=live)
    ck.same('one key per batch', out.batches.len(), n, w, assume=live)
    ck.same('batches start at the requested one', out.first_batch, start, w, assume=live)
    ck.same('no offset is available before a batch is expanded', out.offsets.len(), 0, w, assume=live)
    d = newd()
    i = mk('idx', d, num(0), leafval_or(nod(n)))
    e = out.batches.at(i)
    en = e.kp.n
    ck.holds('every batch key is freshly drawn', implies(conj(live, Lt(i, n)), is_fresh(en)), w)
    ck.same('the master key signs every batch key with its batch number', e.pk_sig_new,
            App(SIGN, m, batch_msg(P, pub(e.kp), Add(start, i))), w, assume=live)
    j = mk('idx', newd(), num(0), leafval_or(nod(n)))
    ck.holds('batch keys differ from the master key', distinct(en, m), w)
    ck.holds('batch keys differ from each other', implies(disj(Lt(i, j), Lt(j, i)), distinct(en, out.batches.at(j).kp.n)), w)
