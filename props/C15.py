"""Sortition credentials: acceptance, the value they commit to, weight and priority."""
from spec import *
import terms as TM

RULE = 'a credential is returned exactly when the VRF proof verifies under the member\'s selection key for the given selector and the sortition weight is not zero; every field of it, the sortition weight, the lowest output and the order equal the reference formulas'
PARTS = ['verification', 'weight', 'priority', 'lowest', 'order']

VRF = 'crypto::vrf::VrfPublicKey::verify'
SIZE = 'data::committee::Selector::committee_size<S>'
NEWBIN = 'statrs::distribution::Binomial::new'
CDF = 'statrs::distribution::DiscreteCDF::cdf<statrs::distribution::Binomial, u64, f64>'


def verification(P, ck):
    f = P.fn('UnauthenticatedCredential::verify')
    R = P.run(f, opaque=[VRF])
    self_, proto, mem = R.p
    w = loc(f)
    # which fields of the credential there are
    out = V(payload(R.ret), P.type('credential::Credential'), P.lib)
    proof = App(VRF, mem.record.data.selection_id, self_.proof, mem.selector)
    if not any(x.op == 'app' and x.args[0] == VRF for x in subterms(R.ret)):
        ck.und('the proof is verified', w, 'VrfPublicKey::verify is not called')
        return
    raw = payload(proof, 'Ok')
    dse = is_true(proto.credential_domain_separation_enabled.n)
    hc = rec(P, 'HashableCredential', raw_out=raw, member=mem.record.addr, iter=num(0))
    h = ite(dse, hash_of(P, V(hc, P.type('HashableCredential'), P.lib)), digest(Cat(raw, mem.record.addr)))
    ck.same('the hashed value commits to output and address', hash_of(P, V(hc, P.type('HashableCredential'), P.lib)), digest(Cat(b'CR', App('msgpack', hc))), w)
    online = mem.record.data.status.is_('Online')
    stake = If(online, mem.record.data.micro_algos, 0)
    total = mem.total_money
    size = App(SIZE, mem.selector, proto)
    S = P.call('sortition::select', mem.record.data.micro_algos, total, App('cast:u64:f64', size), h)
    weight = If(conj(online, Gt(mem.record.data.micro_algos, 0)), S.ret, 0)
    bad = disj(Gt(stake, total), Eq(total, 0), Eq(size, 0), Gt(size, total))
    live = neg(panics(R))
    ck.implies('nothing is returned without a committee of possible size', is_ok(R.ret), neg(bad), w)
    ck.implies('the proof verifies under the selection key for the selector', is_ok(R.ret), is_ok(proof), w)
    good = conj(live, neg(bad), neg(conj(Gt(stake, 0), panics(S))))
    ck.implies('a proved credential is judged, not aborted on, when the committee is possible', conj(is_ok(proof), neg(bad), neg(conj(Gt(stake, 0), panics(S)))), live, w)
    ck.iff('accepted exactly when proved and selected', is_ok(R.ret), conj(is_ok(proof), Ne(weight, 0)), w, assume=good)
    acc = conj(is_ok(R.ret), good)
    ck.same('the weight', out.weight.n, weight, w, assume=acc)
    ck.same('the hashed value', out.vrf_out.n, h, w, assume=acc)
    ck.iff('the domain separation flag', is_true(out.domain_separation_enabled.n), dse, w, assume=acc)
    ck.iff('the hashable part is kept with domain separation', out.hashable.some(), dse, w, assume=acc)
    ck.same('the hashable part: output', out.hashable.get().raw_out.n, raw, w, assume=conj(acc, dse))
    ck.same('the hashable part: address', out.hashable.get().member.n, mem.record.addr, w, assume=conj(acc, dse))
    ck.same('the proof is kept', out.inner.proof.n, self_.proof, w, assume=acc)


def apps(n):
    return {x.args[0] for x in subterms(n) if x.op == 'app'}


def weight(P, ck):
    f = P.fn('sortition::select')
    R = P.run(f)
    money, total, size, out = R.p
    w = loc(f)
    prob = App('bin:Div', size, App('cast:u64:f64', total))
    t = App('num::BigInt::from_bytes_be', leaf(TM.adt('num::bigint::Sign', 'Plus', (), ())), out)
    names = apps(R.ret)
    plus = [x for x in subterms(R.ret) if x.op == 'app' and x.args[0].endswith('BigInt::from_bytes_be')]
    parse = [x for x in subterms(R.ret) if x.op == 'app' and x.args[0].endswith('BigInt::parse_bytes')]
    bins = [x for x in subterms(R.ret) if x.op == 'app' and x.args[0] == NEWBIN]
    ratios = [x for x in subterms(R.ret) if x.op == 'app' and x.args[0].startswith('num::ToPrimitive::to_f64<')]
    if not plus or not parse or not bins or not ratios or any(len(x) != 1 for x in (plus, parse, bins, ratios)):
        ck.und('the sortition formula', w, 'shape of the computation not recognised')
        return
    pl, ps, bn, rt = plus[0], parse[0], bins[0], ratios[0]
    sg, src = pl.args[1]
    ck.holds('the output is read as an unsigned number', T if sg.op == 'adt' and sg.args[1] == 'Plus' else F, w)
    ck.same('the whole output is read', leaf(src), out, w)
    lit, radix = ps.args[1]
    ck.same('the output is scaled by its largest value', leaf(lit), b'f' * 64, w)
    ck.same('the scale is hexadecimal', leaf(radix), 16, w)
    big = rt.args[1][0]
    if not (big.op == 'app' and big.args[0].endswith('Ratio::<T>::new')):
        ck.und('the sortition formula', w, 'shape of the ratio not recognised')
        return
    ck.same('the ratio is output / maximum', leaf(big.args[1][0]), leaf(pl), w)
    ck.same('the ratio is output / maximum (denominator)', leaf(big.args[1][1]), payload(leaf(ps), 'Some'), w)
    ck.same('the success probability is size / total', leaf(bn.args[1][0]), prob, w)
    ck.same('the number of trials is the stake', leaf(bn.args[1][1]), money, w)
    ratio = payload(leaf(rt), 'Some')
    dist = payload(leaf(bn), 'Ok')
    d = newd()
    i = leaf(mk('idx', d, num(0), gate(nod(money))))
    hit = Ge(App(CDF, dist, i), ratio)
    none = TM.forall(d, num(0), gate(nod(money)), neg(hit))
    firsts = [x for x in subterms(R.ret) if x.op == 'first']
    if any(x.op in ('whl', 'loopx', 'unk', 'fold') for x in subterms(R.ret)) or len(firsts) != 1:
        ck.und('the walk over the distribution', w, 'shape of the walk not recognised')
        return
    want = leaf(TM.mkq('first', d, num(0), gate(nod(money)), hit))
    ck.same('the weight is the first count whose cumulative probability reaches the ratio', R.ret, ite(none, nod(money), want), w, assume=neg(panics(R)))


def priority(P, ck):
    f = P.fn('Credential::lowest_output')
    R = P.run(f)
    s = R.p[0]
    w = loc(f)
    s = V(s.n, P.type('credential::Credential'), P.lib) if s.t['k'] == 'ref' else s
    dse = is_true(s.domain_separation_enabled.n)
    HC = P.type('HashableCredential')

    def out(k):
        hc = rec(P, 'HashableCredential', raw_out=s.hashable.get().raw_out, member=s.hashable.get().member, iter=k)
        plain = digest(Cat(s.vrf_out, App('be8', k), leaf(mk('rep', num(0), num(24)))))
        return ite(dse, hash_of(P, V(hc, HC, P.lib)), plain)

    live = conj(Gt(s.weight, 0), implies(dse, s.hashable.some()), neg(panics(R)))
    got = care(R.ret, live)
    for x in leaves(got):
        if x is not PANIC and x.op != 'fold':
            ck.und('the lowest output', w, 'not a single pass over the outputs: ' + show(leaf(x))[:80])
            return
    bad = [x for x in leaves(got) if x is not PANIC]
    if not bad:
        ck.und('the lowest output', w, 'no result')
    for x in bad:
        d, lo, hi, init, step = x.args
        acc = mk('lv', d, 'acc')
        i = mk('idx', d, lo, hi)
        n = leaf(hi)
        if any(y.op in ('unk', 'whl') for y in subterms(R.ret)):
            ck.und('the lowest output', w, 'parts of the computation are not modelled')
            return
        big = [y for y in subterms(step) if y.op == 'app' and y.args[0].endswith('BigInt::from_bytes_be')]
        if not big:
            ck.und('the lowest output', w, 'outputs are not compared as numbers')
            return
        sg = big[0].args[1][0]
        name = big[0].args[0]
        ck.holds('outputs are compared as unsigned numbers', T if sg.op == 'adt' and sg.args[1] == 'Plus' else F, w)
        X = lambda k: App(name, leaf(sg), out(k))
        a = leaf(acc)
        first_in = conj(Eq(n, s.weight))           # every weight is a step
        skipped = Eq(n, Sub(s.weight, 1))          # the first output is the start value
        k1 = Add(leaf(i), 1)
        if first_in is T:
            here = conj(live, Lt(leaf(i), s.weight))
            st = nod(step) if isinstance(step, TM.Node) else leaf(step)
            first = conj(here, Eq(leaf(i), 0))
            rest = conj(here, Gt(leaf(i), 0))
            if init.op == 'none':       # minimum of an iterator
                mn = [y for y in leaves(st) if not (y.op == 'app' and y.args[0] == 'min' and acc in y.args[1])]
                if mn:
                    ck.fail('the lowest output is a minimum', w, 'a step is ' + show(leaf(mn[0]))[:80])
                    continue
                other = mapleaves(st, lambda y: leaf([z for z in y.args[1] if z is not acc][0]))
                ck.same('each iteration hashes the credential with its own counter', other, X(k1), w, assume=here)
            else:
                ck.same('the first output starts the minimum', st, X(k1), w, assume=first)
                ck.same('each later output lowers the minimum', st, Min(X(k1), a), w, assume=rest)
        elif skipped is T:
            st = nod(step) if isinstance(step, TM.Node) else leaf(step)
            ck.same('the first output starts the minimum', leaf(init), X(leaf(num(1))), w, assume=live)
            ck.same('each later output lowers the minimum', st, Min(X(Add(leaf(i), 2)), a), w, assume=conj(live, Lt(leaf(i), n)))
        else:
            ck.fail('every unit of weight has its own output', w, 'the pass takes %s steps' % show(n))


def lowest(P, ck):
    """Credentials of weight 1 to 3, each step of the pass written out."""
    f = P.fn('Credential::lowest_output')
    w = loc(f)
    for dse in (True, False):
        for n in (1, 2, 3):
            hc = V(any_rec(P, 'HashableCredential'), P.type('HashableCredential'), P.lib)
            c = any_rec(P, 'credential::Credential', weight=num(n), domain_separation_enabled=leaf(TM.TRUE if dse else TM.FALSE), hashable=Some_(hc.n) if dse else leaf(TM.NONE))
            cv = V(c, P.type('credential::Credential'), P.lib)
            R = P.run(f, args=[cell('cred')], cells={'cred': c}, eager=1)
            name = 'the lowest of %d output%s %s domain separation' % (n, '' if n == 1 else 's', 'with' if dse else 'without')
            if has_unk(R.ret) or has_unk(panics(R)):
                ck.und(name, w, 'parts of the computation are not modelled')
                continue
            if panics(R) is T:
                ck.fail(name, w, 'it aborts')
                continue
            big = [y for y in subterms(R.ret) if y.op == 'app' and y.args[0].endswith('BigInt::from_bytes_be')]
            if not big:
                ck.fail(name, w, 'no output is read as a number: ' + show(R.ret)[:100])
                continue
            X = []
            for k in range(1, n + 1):
                if dse:
                    h = hash_of(P, V(rec(P, 'HashableCredential', raw_out=hc.raw_out, member=hc.member, iter=num(k)), P.type('HashableCredential'), P.lib))
                else:
                    h = digest(Cat(cv.vrf_out, nod(K('bytes', tuple(k.to_bytes(8, 'big')) + (0,) * 24))))
                X.append(App(big[0].args[0], leaf(big[0].args[1][0]), h))
            for i in range(n):
                least = conj(neg(panics(R)), *[Lt(X[i], X[j]) for j in range(n) if j != i])
                ck.same(name + ': when it is output %d' % (i + 1), R.ret, X[i], w, assume=least)


def order(P, ck):
    f = P.fn('Credential::lt')
    low = P.fn('Credential::lowest_output')['path']
    R = P.run(f, opaque=[low])
    a, b = R.p
    w = loc(f)
    ck.iff('one credential comes before another when its lowest output is smaller', is_true(R.ret), Lt(App(low, a), App(low, b)), w)
    f = P.fn('Credential::selected')
    R = P.run(f)
    ck.iff('selected: the weight is not zero', is_true(R.ret), Gt(R.p[0].weight, 0), loc(f))
    for f in P.fns('eq'):
        if 'credential::Credential' in f['path'] and f['local']:
            R = P.run(f)
            ck.iff('equality is equality of the hashed values', is_true(R.ret), Eq(R.p[0].vrf_out, R.p[1].vrf_out), loc(f))
