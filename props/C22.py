"""Address strings."""
from spec import *
import overflow as OV

RULE = ('Address::from_str must accept exactly the strings that decode to 36 bytes, the last four of which are the checksum of the first 32, and that are the canonical text '
        'of the address; Display must write the base-32 text of the address bytes followed by that checksum')
PARTS = ['checksum', 'printing', 'parsing', 'bounds']

AD = 'data::basics::address::Address'
ALPHABET = tuple(b'ABCDEFGHIJKLMNOPQRSTUVWXYZ234567')


def chk(a):
    h = App('ed25519_dalek::Digest::digest<sha2::Sha512Trunc256>', a)
    return ungate(TM.mapleaves(h, lambda x: leaf(TM.slice_(x, num(28), num(32)))))


def show_fn(P):
    for f in P.lib.fns:
        if f.get('trait') == 'std::fmt::Display' and f.get('self') is not None and P.lib.T[f['self']].get('path') == AD and f['item'] == 'fmt':
            return f
    raise Missing('Display for ' + AD)


def text(P):
    """(function, address, what it writes after what was there)"""
    f = show_fn(P)
    R = P.run(f)
    a, out = R.p
    return f, a, out, R


def written_by(R):
    k = [k for k in R.out if k != 'self']
    if len(k) != 1:
        raise Missing('the text written to the formatter')
    return R.out[k[0]]


def enc_of(n):
    """The encodings used in a value."""
    return {x.args[1][0] for x in subterms(n) if x.op == 'app' and 'Encoding::encode' in x.args[0]}, {x.args[1][0] for x in subterms(n) if x.op == 'app' and 'Encoding::decode' in x.args[0]}


def table(e):
    for x in subterms(leaf(e)):
        if x.op == 'k' and x.args[0] == 'bytes':
            return x.args[1]
    return None


def checksum(P, ck):
    for f in P.lib.fns:
        if f['path'] == AD + '::checksum':
            R = P.run(f)
            ck.same('checksum: the last four bytes of the hash of the address bytes', R.ret, chk(R.p[0].n), loc(f))


def encoding(P, ck, name, es, w):
    if not es:
        ck.und(name, w, 'no call of the base-32 library')
        return None
    bad = [e for e in es if table(e) is None or tuple(table(e)[:32]) != ALPHABET or len(table(e)) < 513 or table(e)[512] != 128]
    if any(table(e) is None for e in es):
        ck.und(name, w, 'the encoding is not a constant')
    elif bad or len(es) > 1:
        ck.fail(name, w, 'another alphabet, or padding, is used')
    else:
        ck.ok(name, w)
    return list(es)[0]


def printing(P, ck):
    f, a, out, R = text(P)
    w = loc(f)
    got = written_by(R)
    es, _ = enc_of(got)
    e = encoding(P, ck, 'printing: the standard base-32 alphabet without padding', es, w)
    if e is None:
        return
    body = Cat(a, chk(a.n))
    ck.same('printing: writes the text of the address bytes and their checksum', got, Cat(out, App(encname(got), leaf(e), body)), w)
    ck.holds('printing: never aborts', neg(panics(R)), w)


def encname(n):
    return [x.args[0] for x in subterms(n) if x.op == 'app' and 'Encoding::encode' in x.args[0]][0]


def decname(n):
    return [x.args[0] for x in subterms(n) if x.op == 'app' and 'Encoding::decode' in x.args[0]][0]


def parsing(P, ck):
    fs = [f for f in P.lib.fns if f.get('trait') == 'std::str::FromStr' and f.get('self') is not None and P.lib.T[f['self']].get('path') == AD]
    if not fs:
        raise Missing('FromStr for ' + AD)
    f = fs[0]
    w = loc(f)
    R = P.run(f)
    s = R.p[0]
    pf, a, out, Q = text(P)
    written = [x for x in leaves(written_by(Q))]
    if len(written) != 1 or written[0].op != 'concat' or len(written[0].args[0]) < 2:
        ck.und('parsing: canonical text', loc(pf), 'the text printed is not a single expression')
        return
    shown = TM.concat(list(written[0].args[0][1:]))
    an = leafval(a.n)

    def canon(n):
        """The text of an address written out."""
        m = {}
        for x in subterms(n):
            if x.op == 'app' and x.args[0] == 'display:' + AD:
                m[x] = TM.subst(shown, {an: x.args[1][0]}, {})
        return TM.subst(n, m, {}) if m else n
    ret = canon(R.ret)
    pan = canon(panics(R))
    _, ds = enc_of(ret)
    e = encoding(P, ck, 'parsing: the standard base-32 alphabet without padding', ds, w)
    if e is None:
        return
    d = App(decname(ret), leaf(e), s)
    b = payload(d)
    ln = ungate(TM.mapleaves(b, lambda x: leaf(TM.length(x))))
    adr = ungate(TM.mapleaves(b, lambda x: leaf(TM.slice_(x, num(0), num(32)))))
    tail = ungate(TM.mapleaves(b, lambda x: leaf(TM.slice_(x, num(32), num(36)))))
    canonical = veq(s, TM.subst(leaf(shown), {an: leafval(adr)}, {}))
    good = conj(is_ok(d), Eq(ln, 36), veq(tail, chk(adr)))
    # decoding what the encoder produced gives it back (library contract)
    law = implies(conj(is_ok(d), canonical), good)
    ck.holds('parsing: never aborts', implies(law, neg(pan)), w)
    ck.holds('parsing: only strings of 36 bytes are accepted', implies(conj(law, is_ok(ret)), Eq(ln, 36)), w)
    # 36 bytes are 32 bytes followed by four
    A, Tl = mk('sym', 'address'), mk('sym', 'check')
    TM.LEN[A], TM.LEN[Tl] = num(32), num(4)
    if not TM.is_leaf(b):
        raise Missing('the decoded bytes')
    r36 = TM.subst(ret, {leafval(b): TM.concat([A, Tl])}, {})
    c = chk(V(leaf(A), a.t, P.lib))
    text_of = lambda t: TM.subst(leaf(shown), {an: A}, {}) if t is None else App(encname(leaf(shown)), leaf(e), leaf(TM.concat([A, t])))
    good, canonical = veq(leaf(Tl), c), veq(s, text_of(None))
    law = conj(is_ok(d), implies(good, iff(canonical, veq(s, text_of(Tl)))), implies(canonical, good), implies(veq(s, text_of(Tl)), good))
    ck.iff('parsing: accepted exactly if checksummed and canonical', is_ok(r36), conj(good, canonical), w, assume=law)
    ck.same('parsing: the address is the first 32 bytes', payload(r36), leaf(A), w, assume=conj(law, good, canonical))


def bounds(P, ck):
    """No index, slice or copy of the two functions is out of range, for any address or string."""
    res = []
    for f in [show_fn(P)] + [f for f in P.lib.fns if f.get('trait') == 'std::str::FromStr' and f.get('self') is not None and P.lib.T[f['self']].get('path') == AD]:
        for o in OV.obligations(P, f):
            st, w = OV.verdict(o)
            res.append(((OV.where(o), o.get('what') or o['kind']), st, w))
    OV.report(ck, 'never out of range', OV.merge(res))
