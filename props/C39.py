"""Key tools."""
from tools import *

RULE = ('for every command: the bytes written to each output file equal the reference value as functions of the inputs, a normal return implies that every input was valid '
        'and every requested output was opened and written, and every exit reports a failure')
PARTS = ['import_', 'generate', 'export', 'sign', 'tx_sign', 'part_generate', 'part_info', 'part_reparent', 'root_import']


def exits(ck, lab, R, w):
    for e in R.events:
        if e.name.endswith('process::exit'):
            ck.holds('%s: a failure exit has a non-zero status' % lab, Ne(e.args[0], 0), w, assume=e.cond)


def to(x, path):
    """The write goes to the file named by this argument."""
    return mapleaves(ungate(nod(x.path)), lambda y: T if y is leafval(nod(path)) else F)


def raw(n, key):
    """A field of a value of a foreign struct type."""
    return ungate(mapleaves(ungate(nod(n)), lambda x: leaf(dict(zip(x.args[2], x.args[3]))[key] if x.op == 'adt' else fld(x, key))))


def requested(ck, lab, R, path, data, w, must=None, enc=None):
    """If `must`, the file holds exactly `data` when the command returns normally; no other data is ever written there."""
    done = neg(panics(R))
    must = T if must is None else must
    ws = [x for x in writes(R) if to(x, path) is not F]
    if not ws:
        un = [x for x in subterms(R.ret) if x.op == 'unk']
        for e in R.I.fxlog:
            for a in e[2]:
                if has_unk(a) if not isinstance(a, TM.Node) else any(has_unk(y) for y in leaves(a)):
                    if opened(a):
                        raise Missing('an understood write to ' + show(path))
        ck.fail('%s is written' % lab, w, 'no write to it was found')
        return []
    good = F
    for e in R.events:
        if opens(e):
            at = mapleaves(ungate(nod(e.args[-1] if e.name.endswith('open') else e.args[0])), lambda y: T if y is leafval(nod(path)) else F)
            ck.implies('%s is only touched when asked for' % lab, conj(e.cond, at), must, w)
    for x in ws:
        here = conj(x.cond, to(x, path))
        v = x.data
        kind = last(x.ev.name)
        if enc:
            v = v if kind == 'write_named' else None
            if v is None:
                if all(y.op == 'app' and y.args[0] == 'msgpack' for y in leaves(x.data)):
                    v = mapleaves(x.data, lambda y: leaf(y.args[1][0]))
                else:
                    ck.fail('%s holds the named msgpack encoding' % lab, w, 'written with ' + x.ev.name)
                    continue
            enc(v, here)
        else:
            ck.same('%s receives exactly the value asked for' % lab, v, data, w, assume=here)
        if x.opts is not None and not isinstance(x.opts, str) or x.opts == 'create':
            (ck.ok if replaces(x.opts) else lambda a, b: ck.fail(a, b, 'open options ' + (show(x.opts) if not isinstance(x.opts, str) else x.opts)))('%s replaces whatever the file held' % lab, w)
        good = disj(good, conj(here, is_ok(x.res)))
    ck.implies('%s is completely written whenever the command succeeds' % lab, conj(done, must), good, w)
    return ws


def opens(e):
    return e.name.endswith(('OpenOptions::open', 'File::create', 'fs::write'))


def succeeds(ck, lab, R, ok, w):
    """With valid inputs, and files which can be opened and written, the command does not fail."""
    fine = ok
    for e in R.events:
        if opens(e) or last(e.name) in SINKS:
            fine = conj(fine, implies(e.cond, is_ok(e.res)))
    for x in {x for x in subterms(R.ret) if x.op == 'app' and x.args[0].endswith('SecretKey::from_bytes')} | {x for n in [panics(R)] for v in TM.node_bv(n) for x in [v] if x.op == 'app' and x.args[0].endswith('SecretKey::from_bytes')}:
        fine = conj(fine, is_ok(leaf(x)))
    ck.implies('%s: succeeds when its input is valid and its output files can be written' % lab, fine, neg(panics(R)), w)


def shown(ck, lab, R, what, v, w):
    hit = F
    for name, cond, args, *_ in R.I.fxlog:
        if name.endswith('io::_print'):
            if any(x is leafval(nod(v)) for a in args for x in subterms(a)):
                hit = disj(hit, cond)
    ck.implies('%s: %s is shown' % (lab, what), neg(panics(R)), hit, w)


def before_outputs(ck, lab, R, ok, w):
    """No output file is touched before its contents are known to be valid."""
    for e in R.events:
        if e.name.endswith(('OpenOptions::open', 'File::create', 'fs::write')):
            ck.implies('%s: no output file is created unless the input is valid' % lab, e.cond, ok, w)


def pub(seed):
    sk = payload(App('ed25519_dalek::SecretKey::from_bytes', seed))
    return App('bytes:PublicKey', App('std::convert::From::from<ed25519_dalek::PublicKey, ed25519_dalek::SecretKey>', sk))


def addr(seed):
    return App('display:data::basics::address::Address', pub(seed))


def given(v):
    return Gt(v.len(), 0)


def printed(ck, lab, R, seed, w):
    """The words printed are the mnemonic of the seed."""
    ks = {x for e in R.I.fxlog for a in e[2] for x in subterms(a) if x.op == 'app' and x.args[0].endswith(WORDS.split('::')[-1])}
    for k in ks:
        ck.same('%s: the mnemonic shown is that of the key' % lab, leaf(k.args[1][0]), seed, w)
    hit = F
    for name, cond, args, *_ in R.I.fxlog:
        if name.endswith('io::_print'):
            if any(x in ks for a in args for x in subterms(a)):
                hit = disj(hit, cond)
    ck.implies('%s: the mnemonic is shown' % lab, neg(panics(R)), hit, w)


def import_(P, ck):
    f, R = cmd(P, 'ImportCmd::entrypoint', [PHRASE])
    me = R.p[0]
    w = loc(f)
    r = App(PHRASE, me.mnemonic)
    seed = payload(r)
    exits(ck, 'import', R, w)
    ck.implies('import: an invalid mnemonic is an error', neg(panics(R)), is_ok(r), w)
    before_outputs(ck, 'import', R, is_ok(r), w)
    requested(ck, 'import: the key file', R, me.sk_file, seed, w, given(me.sk_file))
    requested(ck, 'import: the public key file', R, me.pk_file, addr(seed), w, given(me.pk_file))
    succeeds(ck, 'import', R, is_ok(r), w)
    shown(ck, 'import', R, 'the public key', addr(seed), w)


def generate(P, ck):
    f, R = cmd(P, 'GenerateCmd::entrypoint', [WORDS])
    me = R.p[0]
    w = loc(f)
    ws = [x for x in writes(R) if to(x, me.sk_file) is not F]
    if not ws and not any(has_unk(n) for n in [R.ret, panics(R)]) and not any(x is leafval(me.sk_file.n) for e in R.events if opens(e) for a in e.args for x in subterms(a)):
        ck.fail('generate: the key file is written', w, 'no call is given its name')
        return
    ws = [x for x in ws if not any(y.op == 'app' and y.args[0].startswith('display:') for y in subterms(nod(x.data)))]
    if len(ws) != 1:
        raise Missing('the only write of a key to the key file')
    seed = ws[0].data
    exits(ck, 'generate', R, w)
    fresh = [x for x in subterms(seed) if x.op == 'app' and ('fill_bytes' in x.args[0] or 'OsRng' in x.args[0] or 'generate' in x.args[0] or 'gen' == last(x.args[0]) or last(str(x.args[0]).split('<')[0]) in ('random', 'getrandom'))]
    if not fresh and any(x.op == 'app' for x in subterms(seed)):
        ck.und('generate: the seed is drawn at random', w, 'the key file receives ' + show(seed)[:300])
    elif not fresh:
        ck.fail('generate: the seed is drawn at random', w, 'the key file receives ' + show(seed)[:300])
    else:
        ck.ok('generate: the seed is drawn at random', w)
    requested(ck, 'generate: the key file', R, me.sk_file, seed, w, given(me.sk_file))
    requested(ck, 'generate: the public key file', R, me.pk_file, addr(seed), w, given(me.pk_file))
    printed(ck, 'generate', R, seed, w)
    shown(ck, 'generate', R, 'the public key', addr(seed), w)
    succeeds(ck, 'generate', R, T, w)


def read_seed(ck, lab, R, path, w):
    """The contents read from the given file."""
    c = set()
    for e in R.events:
        if 'read_exact' in e.name or e.name.endswith('fs::read'):
            for y in (x for a in e.args for x in subterms(a)):
                if y.op == 'app' and y.args[0].endswith('File::open') and y.args[1][0] is leafval(path.n):
                    c.add(e)
    if len(c) != 1:
        used = {e.name for e in R.events for a in e.args for x in subterms(a) if x is leafval(path.n)}
        reads = {e.name for e in R.events for a in e.args for x in subterms(a) if x.op in ('app', 'unk') and x is not leafval(path.n) and 'open' in str(x.args[0]) and any(y is leafval(path.n) for y in subterms(x))}
        if not c and not any(has_unk(n) for n in [R.ret, panics(R)]) and (not used or not reads):
            ck.fail('%s: the key file given is read' % lab, w, 'it is opened but nothing is read from it' if used else 'no call is given its name')
            return None, None
        raise Missing('the read of ' + show(path.n))
    e = c.pop()
    return e, mapleaves(e.res, lambda x: leaf(mk('app', x.args[0] + '!1', x.args[1])))


def export(P, ck):
    f, R = cmd(P, 'ExportCmd::entrypoint', [WORDS])
    me = R.p[0]
    w = loc(f)
    e, seed = read_seed(ck, 'export', R, me.sk_file, w)
    if e is None:
        return
    exits(ck, 'export', R, w)
    ok = conj(e.cond, is_ok(e.res))
    ck.implies('export: an unreadable key file is an error', neg(panics(R)), ok, w)
    before_outputs(ck, 'export', R, ok, w)
    requested(ck, 'export: the public key file', R, me.pk_file, addr(seed), w, given(me.pk_file))
    printed(ck, 'export', R, seed, w)
    shown(ck, 'export', R, 'the public key', addr(seed), w)
    succeeds(ck, 'export', R, conj(is_ok(App('std::fs::File::open', me.sk_file)), implies(e.cond, is_ok(e.res))), w)


def sign(P, ck):
    f, R = cmd(P, 'SignCmd::entrypoint', [PHRASE, SIGN])
    me = R.p[0]
    w = loc(f)
    done = neg(panics(R))
    e, fseed = read_seed(ck, 'sign', R, me.sk_file, w)
    if e is None:
        return
    r = App(PHRASE, me.mnemonic)
    bykey, byphr = given(me.sk_file), given(me.mnemonic)
    exits(ck, 'sign', R, w)
    ck.implies('sign: exactly one source for the key', done, neg(iff(bykey, byphr)), w)
    okkey = ite(bykey, conj(e.cond, is_ok(e.res)), is_ok(r))
    ck.implies('sign: an unreadable key or invalid mnemonic is an error', done, okkey, w)
    seed = If(bykey, fseed, payload(r))
    tf = App('std::fs::File::open', me.tx_file)
    tr_ = App('rmp_serde::from_read', payload(tf))
    reads = {x.args[0] for x in subterms(R.ret) if x.op == 'app' and x.args[0].endswith('from_read')}
    if len(reads) == 1:
        tr_ = App(reads.pop(), payload(tf))
    ck.implies('sign: an unreadable or malformed transaction is an error', done, conj(is_ok(tf), is_ok(tr_)), w)
    before_outputs(ck, 'sign', R, conj(okkey, is_ok(tf), is_ok(tr_)), w)
    st = P.type('SignedTx')
    secret = payload(App('ed25519_dalek::SecretKey::from_bytes', seed))
    pk = pub(seed)

    def enc(v, here):
        got = V(v, P.type('SignedTx', P.bin), P.bin)
        calls = {x for x in subterms(v) if x.op == 'app' and x.args[0] == SIGN}
        if not calls:
            if not has_unk(nod(v)):
                ck.fail('sign: what is written is the signed transaction', w, 'written: ' + show(nod(v))[:300])
                return
            raise Missing('the call of Transaction::sign')
        for c in calls:
            ck.same('sign: the transaction signed is the one read', leaf(c.args[1][0]), payload(tr_), w, assume=conj(here, done))
            k = leaf(c.args[1][1])
            sec, pb = raw(k, 'secret'), raw(k, 'public')
            ck.same('sign: the key is the one given', sec, secret, w, assume=conj(here, done))
            ck.same('sign: the public key belongs to it', App('bytes:PublicKey', pb), pk, w, assume=conj(here, done))
        base = V(leaf(next(iter(calls))), got.t, got.C)
        if len(calls) == 1:
            for k, _ in got._fields()[0]:
                if k != 'auth_addr':
                    ck.same('sign: the signed transaction\'s %s is written unchanged' % k, got.f(k), base.f(k), w, assume=here)
            want = If(Eq(base.tx.header.sender, pk), base.auth_addr, pk)
            ck.same('sign: the signer is named when it is not the sender', got.auth_addr, want, w, assume=conj(here, done))
    requested(ck, 'sign: the output file', R, me.out_file, None, w, T, enc)
    one = neg(iff(bykey, byphr))
    kf = App('std::fs::File::open', me.sk_file)
    succeeds(ck, 'sign', R, conj(one, ite(bykey, conj(is_ok(kf), implies(e.cond, is_ok(e.res))), is_ok(r)), is_ok(tf), is_ok(tr_)), w)


def tx_sign(P, ck):
    f = P.fn('Transaction::sign')
    R = P.run(f)
    t, kp = R.p
    w = loc(f)
    ck.holds('signing: never aborts', neg(panics(R)), w)
    ck.same('signing: the transaction itself is carried', R.v.tx, t, w)
    msg = Cat(nod(K('bytes', tuple(b'TX'))), App('msgpack', t))
    sg = [x for x in subterms(R.v.sig.n) if x.op == 'app' and last(x.args[0]) == 'sign']
    if len(sg) != 1:
        raise Missing('the signature primitive')
    ck.same('signing: the signature is over the domain-separated transaction', leaf(sg[0].args[1][1]), msg, w)
    ck.same('signing: with the given key', leaf(sg[0].args[1][0]), kp, w)
    ck.holds('signing: no multisignature or program', conj(R.v.msig.none(), R.v.lsig.none()), w)
    pk = App('bytes:PublicKey', raw(kp, 'public'))
    ck.same('signing: the signer is named exactly when it is not the sender', R.v.auth_addr, If(Eq(t.header.sender, pk), default_val(P, R.v.auth_addr.t), pk), w)


PG, PR, PS = ('data::account::Participation::' + x for x in ('fill_db_with_participation_keys', 'restore', 'persist_new_parent'))
def STR(f, path):
    return f is not None and f['path'] == '<data::basics::address::Address as std::str::FromStr>::from_str'


def part_generate(P, ck):
    f, R = cmd(P, 'PartGenerateCmd::entrypoint', [PG, STR])
    me = R.p[0]
    w = loc(f)
    done = neg(panics(R))
    cs = [e for e in R.I.fxlog if e[0].endswith('fill_db_with_participation_keys')]
    if len(cs) != 1:
        raise Missing('the call that generates the keys')
    _, cond, a, *_ = cs[0]
    exits(ck, 'part generate', R, w)
    ok = App(last_name(R, 'from_str'), me.parent)
    ck.implies('part generate: an invalid parent address is an error', done, is_ok(ok), w)
    ck.same('part generate: keys belong to the parent given', a[0], payload(ok), w, assume=cond)
    ck.same('part generate: valid from the round given', a[1], me.first, w, assume=cond)
    ck.same('part generate: valid to the round given', a[2], me.last, w, assume=cond)
    ck.same('part generate: a dilution given is used as such', a[3], me.dilution, w, assume=conj(cond, Gt(me.dilution, 0)))
    unset = conj(cond, Eq(me.dilution, 0), Lt(me.first, me.last))
    dil = care(a[3], unset)
    roots = {x.args[0] for x in subterms(dil) if x.op == 'app' and x.args[0].endswith('sqrt')}
    what = 'part generate: without one, it is one more than the square root of the number of rounds between'
    if roots and not has_unk(dil):
        ck.same(what, dil, Add(App('cast:f64:u64', App(roots.pop(), App('cast:u64:f64', Sub(me.last, me.first)))), 1), w, assume=unset)
    elif has_unk(dil) or any(x.op in ('app', 'fold', 'whl') for x in subterms(dil)):
        ck.und(what, w, 'computed in a way which is not modelled')
    else:
        ck.fail(what, w, 'it is ' + show(dil)[:200])
    fails = App(cs[0][0], *a)
    ck.implies('part generate: a failed generation is an error', conj(done, cond), is_ok(fails), w)
    ck.implies('part generate: success means that keys were generated', done, cond, w)


def last_name(R, suffix):
    n = {e[0] for e in R.I.fxlog if suffix in e[0]}
    if len(n) != 1:
        raise Missing('the call of ' + suffix)
    return n.pop()


def part_info(P, ck):
    f, R = cmd(P, 'PartInfoCmd::entrypoint', [PR])
    w = loc(f)
    exits(ck, 'part info', R, w)
    ck.implies('part info: an unreadable participation key is an error', neg(panics(R)), is_ok(App(PR)), w)


def part_reparent(P, ck):
    f, R = cmd(P, 'PartReparentCmd::entrypoint', [PR, PS, STR])
    me = R.p[0]
    w = loc(f)
    done = neg(panics(R))
    exits(ck, 'part reparent', R, w)
    ok = App(last_name(R, 'from_str'), me.parent)
    ck.implies('part reparent: an invalid parent address or unreadable key is an error', done, conj(is_ok(ok), is_ok(App(PR))), w)
    cs = [e for e in R.I.fxlog if e[0].endswith('persist_new_parent')]
    if len(cs) != 1:
        raise Missing('the call that stores the new parent')
    _, cond, a, *_ = cs[0]
    ck.implies('part reparent: success means that the change was stored', done, conj(cond, is_ok(App(cs[0][0], a[0]))), w)
    got, old = V(a[0], P.type('Participation', P.bin), P.bin), V(payload(App(PR)), P.type('Participation', P.bin), P.bin)
    for k, _ in got._fields()[0]:
        ck.same('part reparent: %s is stored' % ('the new parent' if k == 'parent' else 'the old ' + k), got.f(k), payload(ok) if k == 'parent' else old.f(k), w, assume=cond)


def root_import(P, ck):
    f = P.fn('Root::import')
    R = P.run(f)
    seed = R.p[0]
    w = loc(f)
    k = App('ed25519_dalek::SecretKey::from_bytes', seed)
    out = R.v.f('0', 'Ok')
    done = is_ok(R.ret)
    ck.same('root import: the secret key is the seed\'s', raw(out.kp, 'secret'), payload(k), w, assume=done)
    ck.same('root import: the public key belongs to it', raw(out.kp, 'public'), App('std::convert::From::from<ed25519_dalek::PublicKey, ed25519_dalek::SecretKey>', payload(k)), w, assume=done)
    ins = [e for e in R.events if last(e.name) == 'insert']
    if not ins:
        ck.fail('root import: the key pair is stored', w, 'no store of it was found')
    ev = F
    for e in ins:
        ck.same('root import: the pair returned is the pair stored', e.args[2], App('msgpack', out.kp), w, assume=conj(e.cond, done))
        ev = disj(ev, conj(e.cond, is_ok(e.res)))
    ck.implies('root import: stored before success is reported', done, ev, w)
