"""Mnemonics."""
from spec import *
import bits
import os
import facts

RULE = ('mnemonic_to_key must accept exactly the sequences of the prescribed length whose words are all in the list, whose padding is zero and whose last word is the checksum '
        'of the key; bit provenance of the two repacking functions must be the 11-bit little-endian packing and its inverse; the word list file must hold 2048 distinct words')
PARTS = ['packing', 'checksum', 'decoding', 'encoding', 'phrase', 'words']

M = 'crypto::mnemonic::'
B8, B11, CHK, DEC = M + 'to_base8', M + 'to_base11', M + 'checksum', M + 'mnemonic_to_key'
WIDTH = 11
KEY, WORDS_ = 32, 24


def W(P):
    w = mk('sym', 'static:' + M + 'WORDS')
    TM.LEN[w] = num(2048)
    return w


def packing(P, ck):
    """Every output bit must be the input bit at the same position of the little-endian bit string (or zero past its end)."""
    for nm, n, have, give in (('to_base11', KEY, 8, WIDTH), ('to_base8', WORDS_, WIDTH, 8)):
        f = P.fn(M + nm)
        R = P.run(f)
        w = loc(f)
        x = R.p[0]
        name = 'packing: %s moves every bit to its place' % nm
        for k in ((n,) if nm == 'to_base8' else (2, n)):
            lab = '%s (input of %d)' % (name, k)
            try:
                r = bits.evaluate(R.ret, {leafval(x.n): bits.named(k, have, have)})
            except bits.Wrong as e:
                ck.fail(lab, w, str(e))
                continue
            except bits.Giveup as e:
                ck.und(lab, w, 'the bit-level analysis gave up: %s' % e)
                continue
            src = [('x', i, j) for i in range(k) for j in range(have)]
            size = -(-len(src) // give)
            if not isinstance(r, tuple) or len(r) != size:
                ck.fail(lab, w, 'it yields %s values, not %d' % (len(r) if isinstance(r, tuple) else 'no sequence of', size))
                continue
            bad = []
            for i, v in enumerate(r):
                want = bits.norm(bits.Bits(src[i * give:(i + 1) * give]))
                if v != want:
                    bad.append(i)
            if any(isinstance(v, bits.Bits) and bits.TOP in v.b for v in r):
                ck.und(lab, w, 'some output bits are not traced')
            elif bad:
                ck.fail(lab, w, 'output %d does not hold input bits %d to %d' % (bad[0], bad[0] * give, bad[0] * give + give - 1))
            else:
                ck.ok(lab, w)


def first_at(w, x):
    """Position of the first word equal to x."""
    d = newd()
    i = mk('idx', d, num(0), num(2048))
    return TM.mkq('first', d, num(0), num(2048), TM.eq(mk('index', w, i), x))


def is_word(w, x):
    d = newd()
    i = mk('idx', d, num(0), num(2048))
    return neg(TM.forall(d, num(0), num(2048), neg(TM.eq(mk('index', w, i), x))))


def checksum(P, ck):
    f = P.fn(CHK)
    R = P.run(f, opaque=[B11])
    h = App('ed25519_dalek::Digest::digest<sha2::Sha512Trunc256>', R.p[0])
    two = ungate(TM.mapleaves(h, lambda x: leaf(TM.slice_(x, num(0), num(2)))))
    w11 = App(B11, two)
    ck.same('checksum: the first eleven bits of the hash', R.ret, ungate(TM.mapleaves(w11, lambda x: leaf(mk('index', x, num(0))))), loc(f))


def words(P, ck):
    p = os.path.join(facts.REPO, 'data', 'mnemonics_wordlist.txt')
    loader = [f for f in P.lib.fns if f.get('local') and any(b['t'][0] == 'call' and any(a and a[0] == 'c' and a[2] and a[2][0] == 'str' and 'mnemonics_wordlist' in str(a[2][1]) for a in b['t'][2])
                                                            for b in f.get('blocks') or [])]
    if not loader or not os.path.exists(p):
        raise Missing('the word list')
    ws = open(p).read().split('\n')
    if ws and ws[-1] == '':
        ws.pop()
    ws = [w.rstrip('\r') for w in ws]
    ck.ok('words: the list is the file the loader names', loc(loader[0]))
    if len(ws) != 2048:
        ck.fail('words: 2048 of them', p, 'there are %d' % len(ws))
    else:
        ck.ok('words: 2048 of them', p)
    dup = sorted({w for w in ws if ws.count(w) > 1})
    bad = [w for w in ws if not w or w.split() != [w]]
    if dup or bad:
        ck.fail('words: distinct, each a single word', p, 'duplicate %s, not a word %s' % (dup[:3], bad[:3]))
    else:
        ck.ok('words: distinct, each a single word', p)


def decoding(P, ck):
    f = P.fn(DEC)
    W(P)
    w_ = W(P)
    R = P.run(f, opaque=[B8, CHK])
    w = loc(f)
    m = R.p[0]
    n = WORDS_ + 1
    ck.holds('decoding: accepted only with 25 words', implies(is_ok(R.ret), Eq(m.len(), n)), w)
    # a sequence of 25 words
    ms = mk('sym', 'words')
    TM.LEN[ms] = num(n)
    ret = TM.subst(R.ret, {leafval(m.n): ms}, {})
    pan = TM.subst(panics(R), {leafval(m.n): ms}, {})
    conv = {x for x in subterms(ret) if x.op == 'app' and x.args[0] == B8}
    if is_ok(ret) is F and not has_unk(ret):
        return ck.fail('decoding: a mnemonic of the right length can be accepted', w, 'no sequence of %d words is' % n)
    if len(conv) != 1:
        ck.und('decoding: repacks once', w, '%d distinct repackings' % len(conv))
        return
    inlist = conj(*[is_word(w_, TM.index(ms, num(j))) for j in range(n)])
    b8 = conv.pop()
    arg = b8.args[1][0]
    at = leafval(arg) if isinstance(arg, Node) else arg
    ck.same('decoding: repacks all words but the last', leaf(TM.length(at)), leaf(num(WORDS_)), w, assume=inlist)
    same = conj(*[veq(ungate(leaf(TM.index(at, num(j)))), leaf(first_at(w_, TM.index(ms, num(j))))) for j in range(WORDS_)])
    ck.holds('decoding: every word is replaced by its position in the list', implies(inlist, same), w)
    # 24 words are repacked into 33 bytes (decided by the bit-level analysis)
    B = mk('sym', 'repacked')
    TM.LEN[B] = num(KEY + 1)
    rb = lambda x: TM.subst(x, {b8: B}, {})
    ret, pan = rb(ret), rb(pan)
    key = TM.slice_(B, num(0), num(KEY))
    pad = TM.index(B, num(KEY))
    TM.RNG.setdefault(pad, (0, 255))
    last = first_at(w_, TM.index(ms, num(n - 1)))
    good = conj(inlist, TM.eq(pad, num(0)), veq(App(CHK, leaf(key)), leaf(last)))
    ck.iff('decoding: accepted exactly with listed words, zero padding and the right checksum', is_ok(ret), good, w)
    ck.same('decoding: the key is the first 32 bytes', payload(ret), leaf(key), w, assume=good)
    ck.holds('decoding: never aborts', neg(pan), w)


def encoding(P, ck):
    f = P.fn(M + 'key_to_mnemonic')
    w_ = W(P)
    R = P.run(f, opaque=[B11, CHK])
    key = R.p[0]
    w = loc(f)
    b11 = leafval(App(B11, key))
    body = TM.coll(0, num(0), TM.length(b11), leaf((mk('index', w_, mk('index', b11, mk('idx', 0, num(0), TM.length(b11)))),)))
    chk = leafval(App(CHK, key))
    ck.same('encoding: the words at the positions the key is repacked into, then the checksum word', R.ret, leaf(TM.push(body, mk('index', w_, chk))), w)


def phrase(P, ck):
    f = P.fn(M + 'phrase_to_key')
    R = P.run(f, opaque=[DEC])
    ck.same('phrase: what the word list decoder says about all its words', R.ret, App(DEC, App('words', R.p[0])), loc(f))
