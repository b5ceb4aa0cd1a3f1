"""Secrets: file modes, formatting, printing."""
from tools import *
from taint import Types, Taint
from effects import derived

RULE = ('every file that receives bytes of a secret is opened with an owner-only mode; no formatting site takes a value whose type holds private keys; no value tainted by a '
        'secret reaches a formatting argument in the library')
PARTS = ['modes', 'types', 'flows']

VRF = 'crypto::vrf::VrfKeypair'
SECRET_SRC = (PHRASE, 'SecretKey::to_bytes', 'SecretKey::as_bytes', 'Keypair::to_bytes')


def holds_secret(P, R, x, path_fields):
    """The value written contains the seed itself (not just a public key derived from it)."""
    def clean(y):
        # looking below the derivation of a public key would find the seed again
        return y.op == 'app' and (y.args[0].startswith(('bytes:PublicKey', 'display:')) or y.args[0].endswith(('::sign', 'Digest::digest')) or 'PublicKey, ed25519_dalek::SecretKey>' in y.args[0]
                                  or y.args[0].startswith('ed25519_dalek::Signer::sign'))
    seen = set()

    def go(n):
        if id(n) in seen:
            return False
        seen.add(id(n))
        if isinstance(n, TM.Node):
            return any(go(y) for y in leaves(n))
        if isinstance(n, TM.Term):
            if n.op == 'gate':
                return any(go(y) for y in leaves(ungate(leaf(n))))
            if clean(n):
                return False
            if n.op in ('app', 'unk') and isinstance(n.args[0], str):
                a = n.args[0]
                if a == PHRASE or a == WORDS or 'fill_bytes' in a or a.endswith(('as_bytes', 'to_bytes')) and 'SecretKey' in a or ('read_exact' in a and any('sk_file' in show(z) for z in subterms(n) if z.op == 'fld')):
                    return True
            return any(go(y) for y in n.args)
        if isinstance(n, tuple):
            return any(go(y) for y in n)
        return False
    return go(ungate(nod(x)))


def modes(P, ck):
    """Every write of every command of the binary, and of every library function that writes a file."""
    n = 0
    for name in ('ImportCmd::entrypoint', 'GenerateCmd::entrypoint', 'ExportCmd::entrypoint', 'SignCmd::entrypoint', 'PartGenerateCmd::entrypoint', 'PartReparentCmd::entrypoint',
                 'PartInfoCmd::entrypoint'):
        f, R = cmd(P, name, [PHRASE, WORDS, SIGN])
        for e in R.events:
            nm = e.name.split('<')[0]
            if nm.endswith('fs::write') or last(e.name) in SINKS and ('Write' in nm or 'encode' in nm or 'to_writer' in nm):
                x = Write(e)
                sec = holds_secret(P, R, x.data, ())
                w = '%s:%s %s' % (e.fn['file'], e.line, e.fn['path'])
                lab = '%s: the file %s' % (name.split('::')[0], show(x.path) if not isinstance(x.path, str) else x.path)
                if not sec:
                    ck.ok(lab + ' receives no secret', w)
                    continue
                n += 1
                m = mode_of(x.opts)
                if m is None:
                    if x.opts is None or x.opts == 'create' or 'mode' not in (options(x.opts) or {}):
                        ck.fail(lab + ' receives a secret and is owner-only from its creation', w, 'it is created with the default mode')
                    else:
                        ck.und(lab + ' receives a secret and is owner-only from its creation', w, 'the mode is not a constant')
                elif m & 0o077:
                    ck.fail(lab + ' receives a secret and is owner-only from its creation', w, 'mode %o' % m)
                else:
                    ck.ok(lab + ' receives a secret and is owner-only from its creation', w, 'mode %o' % m)
    if not n:
        raise Missing('a file that receives a secret')


def sites(f, T):
    """(kind, type formatted, operand, line) of every place a value is handed to the formatting machinery."""
    for b in f['blocks']:
        if b.get('c'):
            continue
        for s in b['s']:
            if s[0] == '=' and s[2] and s[2][0] == 'cast' and 'Unsize' in s[2][1]:
                to = T[s[2][4]]['s']
                if 'dyn std::fmt::Debug' in to or 'dyn std::fmt::Display' in to or 'dyn core::fmt::' in to:
                    yield 'formatted', T[s[2][3]], s[2][2], s[3]
        t = b['t']
        if t[0] == 'call' and t[1][0] == 'fn':
            p = t[1][1]
            if '::Argument::' in p and '::new_' in p or "Argument::<'_>::new_" in p:
                if t[1][3]:
                    yield 'formatted', T[t[1][3][0]], t[2][0], t[5]
            elif p in ('std::fmt::Debug::fmt', 'std::fmt::Display::fmt', 'std::fmt::LowerHex::fmt', 'std::fmt::UpperHex::fmt', 'std::string::ToString::to_string'):
                if t[1][3]:
                    yield 'formatted', T[t[1][3][0]], t[2][0], t[5]


def secret_types(P, C):
    return Types(C, [VRF])


def types(P, ck):
    P.type(VRF)
    n = k = 0
    for C in (P.lib, P.bin):
        ty = secret_types(P, C)
        for f in C.fns:
            if not f.get('local') or not f.get('blocks'):
                continue
            for kind, t, op, line in sites(f, C.T):
                n += 1
                if ty.secret(t):
                    # the hand-written redacting impl may be called; a derived one formats the secret field itself
                    if redacted(C, t):
                        continue
                    k += 1
                    ck.fail('no value holding private keys is formatted', '%s:%s %s' % (f['file'], line, f['path']), 'a value of type %s is formatted' % t['s'])
    if not k:
        ck.ok('no value holding private keys is formatted', '', '%d formatting sites examined' % n)
    ty = secret_types(P, P.lib)
    secret = sorted({t['path'] for t in P.lib.T if t['k'] in ('struct', 'enum') and t.get('local') and ty.secret(t)})
    impls = {}
    for im in P.lib.impls if hasattr(P.lib, 'impls') else []:
        impls.setdefault(im.get('self_path') or '', []).append(im)
    for p in secret:
        bad = [f for f in P.lib.fns if f.get('local') and f.get('self') is not None and (P.lib.T[f['self']].get('path') == p) and (f.get('trait') or '').endswith(('fmt::Debug', 'fmt::Display'))]
        d = [f for f in bad if derived_fmt(f)]
        if d:
            ck.fail('%s cannot be formatted' % p, loc(d[0]), 'it derives ' + d[0]['trait'])
        else:
            ck.ok('%s cannot be formatted' % p, '', 'no derived formatting impl')
    if len(secret) < 3:
        raise Missing('the types holding private keys')


def derived_fmt(f):
    return bool(f.get('derived'))


def redacted(C, t):
    """A local secret type with a hand-written formatting impl (whose body is examined on its own)."""
    u = t
    while u['k'] in ('ref', 'ptr'):
        u = C.T[u['of']]
    if not u.get('local') or u['k'] not in ('struct', 'enum'):
        return False
    return any(f.get('local') and f.get('self') is not None and C.T[f['self']].get('path') == u['path'] and (f.get('trait') or '').endswith(('fmt::Debug', 'fmt::Display'))
               and not derived_fmt(f) for f in C.fns)


RESULTS = ('crypto::mnemonic::phrase_to_key', 'crypto::mnemonic::mnemonic_to_key', 'crypto::mnemonic::key_to_mnemonic')
SAN = ('::len', '::is_empty', 'Digest::digest', 'Signer::sign', '::sign', 'VrfKeypair::public', 'Keypair::generate', 'hashable::hash', 'hash_obj', 'Keypair::verify', 'VrfKeypair::prove',
       'prove_bytes', 'Keypair::public', 'PublicKey::from', 'constant_time', 'ct_eq', 'gen_nonce')


def flows(P, ck):
    C = P.lib
    T_ = C.T
    ty = secret_types(P, C)
    vrf = P.type(VRF)
    hidden = {f[0] for f in vrf['variants'][0]['fields'] if 'PublicKey' not in T_[f[1]]['s']}
    if not hidden:
        raise Missing('the private part of ' + VRF)

    def source_field(t, k):
        while t['k'] in ('ref', 'ptr'):
            t = T_[t['of']]
        p = t.get('path')
        if p == VRF:
            return k in hidden
        if p == 'ed25519_dalek::Keypair':
            return k == 'secret'
        return p in ('ed25519_dalek::SecretKey', 'ed25519_dalek::ExpandedSecretKey')
    entry = {'crypto::mnemonic::key_to_mnemonic': [1], 'crypto::mnemonic::phrase_to_key': [1], 'crypto::mnemonic::mnemonic_to_key': [1], 'data::account::Root::import': [1],
             'crypto::vrf::VrfKeypair::from_seed': [1]}
    found = set()

    def sources(f):
        for k, v in entry.items():
            if f['path'] == k or f['path'].replace('<', '').replace('>', '') == k:
                found.add(k)
                return v
        # a parameter that is itself a value of a secret type
        return [i + 1 for i in range(f['argc']) if not derived(f) and is_raw(T_, f['locals'][i + 1])]

    def san(p):
        return any(p.endswith(x) or (x + '::<') in p for x in SAN) or 'convert::From::from' == p[-19:] and False
    X = Taint(C, ty, sources, source_field, san, lambda f: f['path'] in RESULTS)
    n = bad = 0
    for f in X.fns.values():
        for kind, t, op, line in sites(f, T_):
            n += 1
            if X.hot(f, op) or any(X.hot(f, a) for a in feeding(f, op)):
                u = t
                while u['k'] in ('ref', 'ptr'):
                    u = T_[u['of']]
                if not ty.carrier(u) or u['s'] == 'u32' and False:
                    continue
                bad += 1
                ck.fail('no secret reaches a formatting argument', '%s:%s %s' % (f['file'], line, f['path']), 'the value formatted (of type %s) may contain secret bytes' % t['s'])
    if not bad:
        ck.ok('no secret reaches a formatting argument', '', '%d formatting sites, %d functions with secret-carrying locals' % (n, len([1 for v in X.tainted.values() if v])))
    for k in entry:
        if k in found:
            ck.ok('secrets entering %s are followed' % k)
        else:
            ck.und('secrets entering %s are followed' % k, '', 'function not found')


def is_raw(T_, i):
    t = T_[i]
    while t['k'] in ('ref', 'ptr'):
        t = T_[t['of']]
    return (t.get('path') or '') == 'ed25519_dalek::SecretKey'


def feeding(f, op):
    """A formatting argument is a reference to a reference: the operands it was borrowed from."""
    out = []
    work = [op]
    seen = set()
    while work:
        o = work.pop()
        if not o or o[0] not in ('cp', 'mv') or o[1][0] in seen:
            continue
        seen.add(o[1][0])
        for b in f['blocks']:
            for s in b['s']:
                if s[0] == '=' and s[1] == [o[1][0]] and s[2] and s[2][0] in ('ref', 'reborrow', 'use'):
                    q = ['cp', s[2][2]] if s[2][0] != 'use' else s[2][1]
                    out.append(q)
                    work.append(q)
    return out
