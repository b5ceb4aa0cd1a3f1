"""Conversions between representations of the same value."""
from spec import *

RULE = ('summaries of the conversion functions compared with their specification for all inputs: TealKeyValue::to_state_schema counts every value once under its own type; '
        'ValueDelta::to_teal_value undoes TealValue::to_value_delta and gives None exactly for deletions; StateSchema::sub_schema and Round::sub_capped stop at zero, '
        'Round::round_up_to_multiple_of gives the least multiple not below its argument; the address of an application is the digest of its tagged big-endian number; '
        'and for each type that is printed and parsed (account status, digest, transaction identifier), parsing what was printed gives the same value and nothing else is accepted; '
        'protocol versions are printed under their published names, all different')
PARTS = ['schemas', 'few_values', 'deltas', 'rounds', 'applications', 'status', 'digests', 'versions']

TK = 'data::basics::teal::TealKeyValue'
TV = 'data::basics::teal::TealValue'
VD = 'data::basics::teal::ValueDelta'
ST = 'data::basics::user_balance::Status'
CH = 'crypto::hashable::CryptoHash'
TX = 'data::transactions::transaction::TxID'
CV = 'protocol::consensus::ConsensusVersion'
FORMATTER = 'f'


def trait_fn(P, trait, ty, item):
    for f in P.lib.fns:
        if f.get('trait') == trait and f.get('self') is not None and P.lib.T[f['self']].get('path') == ty and f['item'] == item:
            return f
    raise Missing('%s for %s' % (trait, ty))


def variants(P, ty):
    t = P.type(ty)
    return [v['name'] for v in t['variants']]


def val_of(P, ty, v):
    return leaf(TM.adt(ty, v, (), ()))


def text_of(P, ty, n):
    """(what Display writes for a value after what was there, run)"""
    f = trait_fn(P, 'std::fmt::Display', ty, 'fmt')
    fmt = leaf(mk('sym', 'out'))
    R = P.run(f, args=[n, cell('fmt')], cells={'fmt': fmt})
    return f, R, R.out['fmt'], fmt


def literal(n):
    """The bytes of a constant text."""
    if not is_leaf(n):
        return None
    t = leafval(n)
    out = b''
    for x in (t.args[0] if t.op == 'concat' else [t]):
        if x.op == 'k' and x.args[0] == 'bytes':
            out += bytes(x.args[1])
        elif x.op == 'sym':
            continue
        else:
            return None
    return out


def schemas(P, ck):
    f = P.fn(TK + '::to_state_schema')
    w = loc(f)
    R = P.run(f)
    s = R.p[0]
    out = V(R.ret, R.rt, f['_c'])
    ck.holds('to_state_schema never aborts', neg(panics(R)), w)
    if has_unk(R.ret):
        return
    m, d = leafval(s.n), newd()
    x = V(leaf(TM.index(mk('app', 'values', (m,)), mk('idx', d, num(0), TM.length(m)))), P.type(TV), P.lib)

    def count(k):
        return leaf(summ(d, num(0), TM.length(m), ite(x.teal_type.is_(k), num_(1), num_(0))))
    ck.same('to_state_schema: as many byte slices as there are values of this type', out.num_byte_slice, count('Bytes'), w)
    ck.same('to_state_schema: as many integers as there are values of this type', out.num_uint, count('Uint'), w)


def num_(n):
    return leaf(num(n))


def few_values(P, ck):
    """The whole function on stores with up to three values of unconstrained contents."""
    f = P.fn(TK + '::to_state_schema')
    w = loc(f)
    b, u = val_of(P, 'data::basics::teal::TealType', 'Bytes'), val_of(P, 'data::basics::teal::TealType', 'Uint')
    import itertools
    for n in range(4):
        for kinds in itertools.product((0, 1), repeat=n):
            m = mk('sym', 'store' + ''.join(map(str, kinds)))
            vals = [leafval(rec(P, TV, teal_type=(b, u)[k], bytes=leaf(mk('sym', 'b%d' % i)), uint=leaf(mk('sym', 'u%d' % i)))) for i, k in enumerate(kinds)]
            TM.FIXED[m] = (tuple(mk('sym', 'k%d' % i) for i in range(n)), tuple(vals))
            TM.LEN[m] = num(n)
            R = P.run(f, args=[leaf(m)], eager=2)
            out = V(R.ret, R.rt, f['_c'])
            what = 'store with values %s' % [('bytes', 'uint')[k] for k in kinds]
            ck.same('%s: integers counted' % what, out.num_uint, num_(sum(kinds)), w)
            ck.same('%s: byte slices counted' % what, out.num_byte_slice, num_(n - sum(kinds)), w)


def deltas(P, ck):
    f, g = P.fn(TV + '::to_value_delta'), P.fn(VD + '::to_teal_value')
    R = P.run(f)
    s = R.p[0]
    ck.holds('to_value_delta never aborts', neg(panics(R)), loc(f))
    d = V(R.ret, R.rt, f['_c'])
    by = s.teal_type.is_('Bytes')
    ck.iff('to_value_delta: a byte slice is to be stored for a byte slice', d.action.is_('SetBytes'), by, loc(f))
    ck.iff('to_value_delta: an integer is to be stored for an integer', d.action.is_('SetUint'), neg(by), loc(f))
    ck.same('to_value_delta: the byte slice to store', d.bytes, s.bytes, loc(f), assume=by)
    ck.same('to_value_delta: the integer to store', d.uint, s.uint, loc(f), assume=neg(by))
    Q = P.run(g, args=[R.ret])
    ck.holds('a value turned into a delta is turned back', is_some(Q.ret), loc(g))
    v = V(payload(Q.ret, 'Some'), P.type(TV), P.lib)
    ck.iff('a value turned into a delta and back has the same type', v.teal_type.is_('Bytes'), by, loc(g))
    ck.same('a byte slice turned into a delta and back is the same', v.bytes, s.bytes, loc(g), assume=by)
    ck.same('an integer turned into a delta and back is the same', v.uint, s.uint, loc(g), assume=neg(by))
    Q = P.run(g)
    a = Q.p[0]
    ck.holds('to_teal_value never aborts', neg(panics(Q)), loc(g))
    ck.iff('to_teal_value: no value exactly for a deletion', is_some(Q.ret), neg(a.action.is_('Delete')), loc(g))
    v = V(payload(Q.ret, 'Some'), P.type(TV), P.lib)
    ok = is_some(Q.ret)
    ck.iff('to_teal_value: the type of the value', conj(ok, v.teal_type.is_('Bytes')), conj(ok, a.action.is_('SetBytes')), loc(g))
    ck.same('to_teal_value: the byte slice', v.bytes, a.bytes, loc(g), assume=a.action.is_('SetBytes'))
    ck.same('to_teal_value: the integer', v.uint, a.uint, loc(g), assume=a.action.is_('SetUint'))


def rounds(P, ck):
    for path, what in (('data::basics::units::Round::sub_capped', 'sub_capped'),):
        f = P.fn(path)
        R = P.run(f)
        a, b = R.p
        ck.same(what + ': the difference, not below zero', R.ret, Max(Sub(a, b), 0), loc(f))
        ck.holds(what + ' never aborts', neg(panics(R)), loc(f))
    f = P.fn('Round::round_up_to_multiple_of')
    R = P.run(f)
    a, b = R.p
    m = Rem(a, b)
    fits = Le(Add(a, b), 2**64 - 1)
    ck.same('round_up_to_multiple_of: the least multiple not below', R.ret, If(Eq(m, 0), a, Sub(Add(a, b), m)), loc(f), assume=conj(Ge(b, 1), fits))
    ck.holds('round_up_to_multiple_of: an exact multiple never aborts', implies(conj(Ge(b, 1), Eq(m, 0)), neg(panics(R))), loc(f))
    ck.holds('round_up_to_multiple_of: aborts only if the sum does not fit', implies(conj(Ge(b, 1), fits), neg(panics(R))), loc(f))


def applications(P, ck):
    f = P.fn('AppIndex::address')
    R = P.run(f)
    ck.same('address of an application: the digest of its tagged number', R.ret, digest(Cat(leaf(TM.norm_const(mk('k', 'bytes', tuple(b'appID')))), App('be8', R.p[0]))), loc(f))
    ck.holds('address of an application: never aborts', neg(panics(R)), loc(f))


def same_everywhere(ck, name, got, want, w):
    ck.holds(name, veq(got, want), w)


def status(P, ck):
    g = trait_fn(P, 'std::convert::TryFrom', ST, 'try_from')
    w = loc(g)
    texts = {}
    for v in variants(P, ST):
        f, R, out, _ = text_of(P, ST, val_of(P, ST, v))
        t = literal(out)
        if t is None:
            raise Missing('a constant text for the status ' + v)
        ck.holds('status %s is printed' % v, is_ok(R.ret), loc(f))
        if t in texts:
            ck.fail('status %s has a text of its own' % v, loc(f), 'the same text as %s: %r' % (texts[t], t))
        texts[t] = v
        Q = P.run(g, args=[leaf(TM.norm_const(mk('k', 'bytes', tuple(t))))])
        ck.holds('status %s: the printed text is parsed' % v, is_ok(Q.ret), w)
        got = V(payload(Q.ret), P.type(ST), P.lib)
        ck.holds('status %s: the printed text is parsed to the same status' % v, implies(is_ok(Q.ret), got.is_(v)), w)
    Q = P.run(g)
    s = Q.p[0]
    ck.holds('status: no other text is parsed', implies(is_ok(Q.ret), disj(*[veq(s, leaf(TM.norm_const(mk('k', 'bytes', tuple(t))))) for t in texts])), w)
    ck.holds('status: parsing never aborts', neg(panics(Q)), w)


def calls(n, name):
    return {x for x in subterms(n) if x.op == 'app' and x.args[0].endswith(name)}


def digests(P, ck):
    f = trait_fn(P, 'std::fmt::Display', CH, 'fmt')
    v = P.sym('digest', P.type(CH), P.lib)
    f, R, out, fmt = text_of(P, CH, v.n)
    es = calls(out, 'Encoding::encode')
    if len(es) != 1:
        raise Missing('the text of a digest')
    e = list(es)[0]
    ck.same('a digest is printed as the encoding of its bytes', out, Cat(fmt, App(e.args[0], leaf(e.args[1][0]), v)), loc(f))
    g = trait_fn(P, 'std::convert::TryFrom', CH, 'try_from')
    w = loc(g)
    Q = P.run(g)
    s = Q.p[0]
    ds = calls(Q.ret, 'Encoding::decode')
    if len(ds) != 1:
        raise Missing('the decoded bytes of a digest')
    d = list(ds)[0]
    if d.args[1][0] is not e.args[1][0]:
        ck.fail('a digest is parsed with the encoding it is printed with', w, 'another encoding is used')
    dec = App(d.args[0], leaf(d.args[1][0]), s)
    b = payload(dec)
    ln = ungate(TM.mapleaves(b, lambda x: leaf(TM.length(x))))
    ck.iff('a digest is parsed exactly from texts of 32 encoded bytes', is_ok(Q.ret), conj(is_ok(dec), Eq(ln, 32)), w)
    ck.same('a parsed digest consists of the bytes encoded', payload(Q.ret), b, w, assume=is_ok(Q.ret))
    ck.holds('parsing a digest never aborts', neg(panics(Q)), w)
    # transaction identifiers are digests
    h = trait_fn(P, 'std::convert::TryFrom', TX, 'try_from')
    X = P.run(h)
    ck.iff('a transaction identifier is parsed exactly when it is a digest', is_ok(X.ret), TM.subst(is_ok(Q.ret), {leafval(s.n): leafval(X.p[0].n)}, {}), loc(h))
    ck.same('a parsed transaction identifier is the digest', payload(X.ret), TM.subst(payload(Q.ret), {leafval(s.n): leafval(X.p[0].n)}, {}), loc(h), assume=is_ok(X.ret))
    x = P.sym('txid', P.type(TX), P.lib)
    hf, hR, hout, hfmt = text_of(P, TX, x.n)
    short = Cat(hfmt, App('display:' + CH, x))
    full = Cat(hfmt, App(e.args[0], leaf(e.args[1][0]), x))
    ck.holds('a transaction identifier is printed as its digest', disj(veq(hout, short), veq(hout, full)), loc(hf))


SPEC = 'https://github.com/algorand/spec/tree/'
SPECS = 'https://github.com/algorandfoundation/specs/tree/'
NAMES = {'V13': SPEC + '0c8a9dc44d7368cc266d5407b79fb3311f4fc795', 'V14': SPEC + '2526b6ae062b4fe5e163e06e41e1d9b9219135a9',
         'V15': SPEC + 'a26ed78ed8f834e2b9ccb6eb7d3ee9f629a6e622', 'V16': SPEC + '22726c9dcd12d9cddce4a8bd7e8ccaa707f74101',
         'V17': SPECS + '5615adc36bad610c7f165fa2967f4ecfa75125f0', 'V18': SPECS + '6c6bd668be0ab14098e51b37e806c509f7b7e31f',
         'V19': SPECS + '0e196e82bfd6e327994bec373c4cc81bc878ef5c', 'V20': SPECS + '4a9db6a25595c6fd097cf9cc137cc83027787eaa',
         'V21': SPECS + '8096e2df2da75c3339986317f9abe69d4fa86b4b', 'V22': SPECS + '57016b942f6d97e6d4c0688b373bb0a2fc85a1a2',
         'V23': SPECS + 'e5f565421d720c6f75cdd186f7098495caf9101f', 'V24': SPECS + '3a83c4c743f8b17adfd73944b4319c25722a6782',
         'V25': SPECS + 'bea19289bf41217d2c0af30522fa222ef1366466', 'V26': SPECS + 'ac2255d586c4474d4ebcf3809acccb59b7ef34ff',
         'V27': SPECS + 'd050b3cade6d5c664df8bd729bf219f179812595', 'V28': SPECS + '65b4ab3266c52c56a0fa7d591754887d68faad0a',
         'V29': SPECS + 'abc54f79f9ad679d2d22f0fb9909fb005c16f8a1', 'V30': SPECS + 'bc36005dbd776e6d1eaf0c560619bb183215645c',
         'Future': 'future'}
for i in range(7):
    NAMES['DeprecatedV%d' % i] = 'v%d' % i
for i in range(7, 13):
    NAMES['V%d' % i] = 'v%d' % i


def versions(P, ck):
    seen = {}
    for v in variants(P, CV):
        f, R, out, _ = text_of(P, CV, val_of(P, CV, v))
        t = literal(out)
        if t is None:
            raise Missing('a constant name for the version ' + v)
        t = t.decode('utf8', 'replace')
        if t in seen:
            ck.fail('version %s has a name of its own' % v, loc(f), 'the same as %s: %s' % (seen[t], t))
        elif v in NAMES and NAMES[v] != t:
            ck.fail('version %s is shown under its published name' % v, loc(f), 'shown as %s, published as %s' % (t, NAMES[v]))
        else:
            ck.ok('version %s is shown under its published name, which no other has' % v, loc(f))
        seen[t] = v
