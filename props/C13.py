"""Durability of key material."""
from spec import *
import effects
import terms as TM

RULE = ('every write to and flush of the key store is an event with its path condition, number and result; success must imply that every write and flush succeeded and that every write is followed by a flush; '
        'the restore functions are interpreted over exactly the entries the store functions wrote and must give every field back')
PARTS = ['durable', 'participation', 'root', 'erased', 'parent', 'elsewhere']

WRITE = ('sled::Tree::insert', 'sled::Tree::remove', 'sled::Tree::clear', 'sled::Tree::apply_batch')


def split(R):
    ws = [e for e in R.events if e.name in WRITE]
    fl = [e for e in R.events if e.name == 'sled::Tree::flush']
    return ws, fl


def keyname(e):
    k = [x for x in leaves(e.args[1])]
    return show(k[0]).strip("'") if len(k) == 1 else '?'


def line(f, e):
    return '%s:%s %s' % ((e.fn or f)['file'], e.line, (e.fn or f)['path'])


def one(P, ck, f, must):
    R = P.run(f)
    good = is_ok(R.ret)
    nm = '::'.join(f['path'].split('::')[-2:])
    ws, fl = split(R)
    for e in R.events:
        if e.name.startswith('sled::') and e not in ws and e not in fl:
            ck.und('%s: store operation %s' % (nm, e.name), line(f, e), 'no rule for this operation')
    for n, w in enumerate(ws):
        ck.holds('%s: success means the write of %s succeeded' % (nm, keyname(w)), implies(conj(good, w.cond), is_ok(w.res)), line(f, w))
        ck.holds('%s: success means the write of %s was flushed' % (nm, keyname(w)),
                 implies(conj(good, w.cond), disj(*[conj(x.cond, Lt(w.no, x.no), is_ok(x.res)) for x in fl])), line(f, w))
    for x in fl:
        ck.holds('%s: success means the flush succeeded' % nm, implies(conj(good, x.cond), is_ok(x.res)), line(f, x))
    if must:
        ck.holds('%s: success means something was written' % nm, implies(good, disj(*[w.cond for w in ws])), loc(f))
    return R, ws


NAMES = ['account::Root::generate', 'account::Participation::persist', 'account::Participation::persist_new_parent', 'account::Participation::delete_old_keys',
         'account::Participation::fill_db_with_participation_keys']


def durable(P, ck):
    for n in NAMES:
        one(P, ck, P.fn(n), True)
    # any other public function that stores key material
    w = effects.reaches(P.lib, lambda c: c in WRITE)
    done = {P.fn(n)['id'] for n in NAMES}
    for f in P.lib.fns:
        if f['id'] in w and f['id'] not in done and f.get('pub') and 'account' in f['file'] and f['kind'] == 'item' and f.get('dk') != 'Closure' \
                and P.lib.T[f['locals'][0]].get('path') == 'std::result::Result':
            one(P, ck, f, False)


def written(ws, good):
    """key -> value stored last when the function succeeds."""
    db = {}
    for w in ws:
        for k in leaves(w.args[1]):
            v = w.args[2] if len(w.args) > 2 else leaf(num(0))
            old = db.get(k)
            db[k] = v if old is None else ite(w.cond, v, old)
    return db


def participation(P, ck):
    f, g = P.fn('account::Participation::persist'), P.fn('account::Participation::restore')
    R = P.run(f)
    s, = R.p
    good = is_ok(R.ret)
    ws, _ = split(R)
    for w in ws:
        ck.holds('persist: %s is written whenever it succeeds' % keyname(w), implies(good, w.cond), line(f, w))
    G = P.run(g, args=[], db=written(ws, good))
    back(P, ck, G, s, good, 'participation', g)


def back(P, ck, G, s, good, label, g):
    w = loc(g)
    ck.holds('%s: what was stored is restored' % label, implies(good, is_ok(G.ret)), w)
    out = V(payload(G.ret), s.t, P.lib)
    live = conj(good, is_ok(G.ret))
    for k, _ in out._fields()[0]:
        if k == 'voting':
            for k2, _ in out.voting._fields()[0]:
                if k2 != 'lock':
                    ck.same('%s: restored %s.%s is the stored one' % (label, k, k2), out.voting.f(k2), s.voting.f(k2), w, assume=live)
        else:
            ck.same('%s: restored %s is the stored one' % (label, k), out.f(k), s.f(k), w, assume=live)


def root(P, ck):
    f, g = P.fn('account::Root::generate'), P.fn('account::Root::restore')
    R = P.run(f)
    good = is_ok(R.ret)
    ws, _ = split(R)
    s = V(payload(R.ret), P.type('account::Root'), P.lib)
    G = P.run(g, args=[], db=written(ws, good))
    w = loc(g)
    ck.holds('root: what was stored is restored', implies(good, is_ok(G.ret)), w)
    out = V(payload(G.ret), s.t, P.lib)
    ck.same('root: the restored key is the one handed out', out.n, s.n, w, assume=conj(good, is_ok(G.ret)))
    E = P.run(g, args=[], db={})
    ck.holds('root: restoring from an empty store is an error', neg(disj(is_ok(E.ret), panics(E))), w)
    g = P.fn('account::Participation::restore')
    E = P.run(g, args=[], db={})
    ck.holds('participation: restoring from an empty store is an error', neg(disj(is_ok(E.ret), panics(E))), loc(g))


def erased(P, ck):
    """After deleting old keys the store holds the reduced secrets."""
    f, per = P.fn('account::Participation::delete_old_keys'), P.fn('account::Participation::persist')
    R = P.run(f)
    s = R.p[0]
    good = is_ok(R.ret)
    after = V(R.out['self'], s.t, P.lib)
    B = P.run(per, args=[s.n])
    db = written(split(B)[0], T)
    for k, v in written(split(R)[0], good).items():
        db[k] = v
    g = P.fn('account::Participation::restore')
    G = P.run(g, args=[], db=db)
    back(P, ck, G, after, good, 'after deletion', g)


def parent(P, ck):
    f, per = P.fn('account::Participation::persist_new_parent'), P.fn('account::Participation::persist')
    R = P.run(f)
    s, = R.p
    good = is_ok(R.ret)
    old = P.sym('old', s.t)
    db = written(split(P.run(per, args=[old.n]))[0], T)
    for k, v in written(split(R)[0], good).items():
        db[k] = v
    g = P.fn('account::Participation::restore')
    G = P.run(g, args=[], db=db)
    out = V(payload(G.ret), s.t, P.lib)
    live = conj(good, is_ok(G.ret))
    ck.same('new parent: the restored parent is the new one', out.parent, s.parent, loc(f), assume=live)
    for k, _ in out._fields()[0]:
        if k not in ('parent', 'voting'):
            ck.same('new parent: %s is kept' % k, out.f(k), old.f(k), loc(f), assume=live)


def elsewhere(P, ck):
    """The registration of participation keys hands out what was stored."""
    f = P.fn('account::Participation::fill_db_with_participation_keys')
    R = P.run(f)
    good = is_ok(R.ret)
    s = V(payload(R.ret), P.type('account::Participation'), P.lib)
    g = P.fn('account::Participation::restore')
    G = P.run(g, args=[], db=written(split(R)[0], good))
    back(P, ck, G, s, good, 'new participation', g)
