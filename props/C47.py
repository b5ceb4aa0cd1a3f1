"""New keys are random."""
import re
from spec import *
import terms as TM

RULE = ('in the value-flow summary of each function that makes a key, the seed the key is derived from must consist of nothing but whole draws from a random generator; '
        'every call site that draws from a generator must name a cryptographically secure one, and no generator is started from a fixed seed')
PARTS = ['sources', 'root', 'participation', 'tool']

GOOD = re.compile(r'\b(OsRng|ThreadRng|StdRng|EntropyRng|ChaCha\d+(Rng|Core)|Hc128(Rng|Core)|ReadRng)\b')
WEAK = re.compile(r'\b(SmallRng|StepRng|Xor\w*Rng|Xoshiro\w*|Xoroshiro\w*|SplitMix64|Pcg\w*|Lcg\w*|Mcg\w*|Isaac\w*|IsaacRng)\b')
DRAW = re.compile(r'^(rand(_core)?(::\w+)*::(RngCore|Rng|CryptoRng)::\w+|(ed25519_dalek::)?(\w+::)*(Keypair|SecretKey)::generate|rand(::\w+)*::random|getrandom(::\w+)*)$')
SEEDED = re.compile(r'SeedableRng::(seed_from_u64|from_seed|from_rng)$')


def calls(P):
    for nm in ('lib', 'bin'):
        m = getattr(P, nm, None)
        if m is None:
            continue
        for f in m.fns:
            if not f.get('local'):
                continue
            for b in f.get('blocks') or []:
                t = b['t']
                if t[0] == 'call' and t[1] and t[1][0] == 'fn':
                    yield m, f, t[1]


def sources(P, ck):
    n = 0
    for m, f, c in calls(P):
        name = c[1].split('<')[0]
        if DRAW.match(name):
            n += 1
            what = 'the generator %s draws from is a secure one' % f['path']
            tys = [m.T[i]['s'] for i in c[3] or []]
            if any(WEAK.search(t) for t in tys):
                ck.fail(what, loc(f), '%s draws from %s' % (c[1], ', '.join(tys)))
            elif any(GOOD.search(t) for t in tys) or not tys:
                ck.ok(what, loc(f))
            else:
                ck.und(what, loc(f), 'it draws from ' + ', '.join(tys))
        elif SEEDED.search(name):
            what = 'no generator in %s starts from a known seed' % f['path']
            if name.endswith('seed_from_u64'):
                ck.fail(what, loc(f), 'it calls ' + c[1])
            else:
                ck.und(what, loc(f), 'it calls ' + c[1])
    if not n:
        ck.fail('keys are drawn at random', 'src', 'nothing in the tree draws random bytes')


def drawn(x):
    """True: nothing but random bytes; False: bytes which are not random; None: cannot tell."""
    if x.op == 'app':
        nm = str(x.args[0]).split('<')[0].split('!')[0]
        if 'fill_bytes' in nm or DRAW.match(nm) or nm.endswith('::generate') or nm == 'generate':
            return True
        if nm.startswith(('bytes:', 'std::convert::', 'std::borrow', 'ed25519_dalek::')) and len(x.args[1]) == 1:
            return drawn(x.args[1][0])
        return None
    if x.op == 'fld' or x.op == 'slice' or x.op == 'index':
        return drawn(x.args[0])
    if x.op == 'concat':
        r = [drawn(y) for y in x.args[0]]
        return False if False in r else None if None in r else True
    if x.op == 'store':
        return False if isinstance(x.args[2], TM.Term) and drawn(x.args[2]) is False else None
    if x.op in ('k', 'rep', 'lin', 'sym'):
        return False
    if x.op == 'arr':
        r = [drawn(y) for y in x.args[0]]
        return False if False in r else None if None in r else True
    return None


def judge(ck, what, n, w, assume=T):
    xs = [x for x in leaves(care(nod(n), assume)) if x is not PANIC]
    if has_unk(nod(n)):
        return ck.und(what, w, 'parts of the computation are not modelled')
    r = [drawn(x) for x in xs]
    if False in r:
        ck.fail(what, w, 'it is ' + show(leaf(xs[r.index(False)]))[:300])
    elif None in r or not xs:
        ck.und(what, w, 'it is ' + (show(leaf(xs[r.index(None)]))[:300] if xs else 'unknown'))
    else:
        ck.ok(what, w)


def root(P, ck):
    f = P.fn('account::Root::generate')
    R = P.run(f)
    w = loc(f)
    seeds = {x for x in subterms(R.ret) if x.op == 'app' and str(x.args[0]).split('<')[0].endswith('SecretKey::from_bytes')}
    gens = {x for x in subterms(R.ret) if x.op == 'app' and str(x.args[0]).split('<')[0].endswith('generate')}
    what = 'the seed of a new root key is random in every byte'
    if not seeds and gens:
        ck.ok(what, w)
    elif not seeds:
        ck.und(what, w, 'no secret key is made')
    for x in seeds:
        judge(ck, what, leaf(x.args[1][0]), w)


def participation(P, ck):
    f = P.fn('Participation::fill_db_with_participation_keys')
    SEED = 'crypto::vrf::VrfKeypair::from_seed'
    R = P.run(f, opaque=[SEED, 'crypto::ots::OTSSecrets::generate'])
    w = loc(f)
    out = V(payload(R.ret), P.type('account::Participation'), P.lib)
    what = 'the seed of a new VRF key is random in every byte'
    vrf = [x for x in leaves(care(out.vrf.n, is_ok(R.ret))) if x is not PANIC]
    if not vrf or any(not (x.op == 'app' and x.args[0] == SEED) for x in vrf):
        return ck.und(what, w, 'the key is not made from a seed: ' + '; '.join(show(leaf(x))[:100] for x in vrf))
    for x in vrf:
        judge(ck, what, leaf(x.args[1][0]), w)


def tool(P, ck):
    import tools
    f, R = tools.cmd(P, 'GenerateCmd::entrypoint', [tools.WORDS])
    w = loc(f)
    what = 'the seed of a key made by the tool is random in every byte'
    words = {x for e in R.I.fxlog for a in e[2] for x in subterms(nod(a)) if x.op == 'app' and x.args[0] == tools.WORDS} | \
        {x for x in subterms(R.ret) if x.op == 'app' and x.args[0] == tools.WORDS}
    own = [e for e in R.I.fxlog if e[0] == tools.WORDS]
    seeds = {x.args[1][0] for x in words} | {y for e in own for y in leaves(nod(e[2][0]))}
    if not seeds:
        return ck.und(what, w, 'no mnemonic is made')
    for x in seeds:
        judge(ck, what, leaf(x), w)
