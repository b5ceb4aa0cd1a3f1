"""State deltas and application call references."""
from spec import *

RULE = 'accept condition of StateDelta::is_valid (quantified over all entries) equals the reference; the index lookups and their inverses equal the reference for every index and list'
PARTS = ['delta', 'address', 'address_inverse', 'app', 'app_inverse', 'few_references']


def delta(P, ck):
    f = P.fn('StateDelta::is_valid')
    R = P.run(f)
    d, p = R.p
    w = loc(f)
    # entries of the map in key order
    m = leafval(d.n)
    n = length(m)
    kt, vt = None, P.type('ValueDelta')
    k = newd()
    i = mk('idx', k, num(0), n)
    I = P.interp()
    key = index(app('keys', m), i)
    val = V(leaf(index(app('values', m), i)), vt, P.lib)
    kl = length(key)
    act = val.action
    bl = val.bytes.len()
    body = conj(Le(kl, p.max_app_key_len),
                implies(act.is_('SetBytes'), conj(Le(bl, p.max_app_bytes_value_len), Le(Add(kl, bl), p.max_app_sum_key_value_lens))))
    allow = disj(le(n, num(0)), Ne(p.max_app_key_len, 0))
    want = conj(allow, forall(k, num(0), n, body))
    got = is_true(R.ret)
    ck.implies('accepted only if every key and value is within its limits', got, forall(k, num(0), n, body), w)
    ck.iff('accepted exactly when every entry is within its limits', got, want, w)
    ck.holds('never aborts', neg(panics(R)), w)


def lookup(P, ck, name, lst, zero, what):
    f = P.fn('AppCallFields::' + name)
    R = P.run(f)
    self = R.p[0]
    i = R.p[1]
    l = self.f(lst)
    w = loc(f)
    z = zero(R)
    good = disj(Eq(i, 0), Le(i, l.len()))
    ck.iff('%s: valid exactly up to the length of the list' % what, is_ok(R.ret), good, w)
    ck.same('%s: index zero' % what, payload(R.ret), z, w, assume=conj(Eq(i, 0), is_ok(R.ret)))
    at = mapleaves(l.n, lambda x: mapleaves(i.n, lambda j: leaf(index(x, add(j, num(-1))))))
    ck.same('%s: a list index' % what, payload(R.ret), at, w, assume=conj(Ge(i, 1), good, is_ok(R.ret)))
    ck.holds('%s: never aborts' % what, neg(panics(R)), w)


def address(P, ck):
    lookup(P, ck, 'address_by_index', 'accounts', lambda R: R.p[2], 'account reference')


def app(*a):
    import terms
    if isinstance(a[0], str):
        return terms.app(*a)
    P, ck = a
    lookup(P, ck, 'app_id_by_index', 'foreign_apps', lambda R: R.p[0].application_id, 'application reference')


def inverse(P, ck, name, lst, zero, what):
    f = P.fn('AppCallFields::' + name)
    R = P.run(f)
    self, target = R.p[0], R.p[1]
    l = self.f(lst)
    w = loc(f)
    z = zero(R)
    isz = Eq(target, z)
    absent = l.all(lambda e: neg(Eq(e, target)))
    got = is_ok(R.ret)
    ck.iff('%s: found exactly when it is the implicit entry or in the list' % what, got, disj(isz, neg(absent)), w)
    r = payload(R.ret)
    ck.same('%s: the implicit entry is index zero' % what, r, 0, w, assume=conj(isz, got))
    # otherwise the first position holding the target, plus one
    d = newd()
    L = leafval(l.n)
    pos = mapleaves(nod(leafval(l.n)), lambda x: leaf(mkq('first', d, num(0), length(x), Eq(l.at(mk('idx', d, num(0), length(x))), target))))
    ck.same('%s: otherwise one more than its first position' % what, r, Add(pos, 1), w, assume=conj(neg(isz), got))
    ck.holds('%s: never aborts' % what, neg(panics(R)), w)


def address_inverse(P, ck):
    inverse(P, ck, 'index_by_address', 'accounts', lambda R: R.p[2], 'account lookup')


def app_inverse(P, ck):
    inverse(P, ck, 'index_by_app_id', 'foreign_apps', lambda R: R.p[0].application_id, 'application lookup')


def few_references(P, ck):
    """Lists of a few references of any value, repeated ones included."""
    for name, lst, rt, zero in (('index_by_address', 'accounts', 'Address', 'sender'), ('index_by_app_id', 'foreign_apps', 'AppIndex', 'application_id')):
        f = P.fn('AppCallFields::' + name)
        w = loc(f)
        t = P.type(rt)
        for n in range(5):
            xs = [P.sym('x%d' % i, t, P.lib) for i in range(n)]
            kv = {lst: leaf(mk('arr', tuple(leafval(x.n) for x in xs)))}
            target = P.sym('target', t, P.lib)
            first = P.sym('first', t, P.lib)
            if zero == 'sender':
                a = [any_rec(P, 'AppCallFields', **kv), target.n, first.n]
            else:
                kv[zero] = first.n
                a = [any_rec(P, 'AppCallFields', **kv), target.n]
            R = P.run(f, args=a, eager=2)
            lab = '%s in a list of %d' % (name, n)
            want = num(-1)
            want = leaf(want)
            for i in reversed(range(n)):
                want = ite(Eq(target, xs[i]), leaf(num(i + 1)), want)
            want = ite(Eq(target, first), leaf(num(0)), want)
            hit = disj(Eq(target, first), *[Eq(target, x) for x in xs])
            ck.iff(lab + ': found exactly if it is there', is_ok(R.ret), hit, w)
            ck.same(lab + ': the first place where it is', payload(R.ret), want, w, assume=conj(is_ok(R.ret), hit))
