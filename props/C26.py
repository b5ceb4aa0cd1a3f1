"""Transaction grouping."""
from spec import *

RULE = ('both grouping functions must be the fold of one step function over the whole list: the running group is closed exactly when its id is zero or differs from the '
        'next transaction\'s, every closed group and the last one are output in order, and every transaction joins exactly one group; for lists of up to three transactions the gated result of the whole function equals the specified grouping')
PARTS = ['payset_groups', 'tx_groups', 'payset_flat', 'flatten', 'short_lists', 'short_paysets']

DEC = 'data::bookkeeping::block::BlockHeader::decode_signed_tx'


def nothing(x):
    """A sequence without elements."""
    if x.op == 'coll' and x.args[1] is num(0) and x.args[2] is num(1):
        return all(y == () for y in leaves(TM.subst(x.args[3], {mk('idx', x.args[0], x.args[1], x.args[2]): num(0)})))
    return length(x) is num(0)


def grouping(P, ck, lab, out, items, n, group, item_t, C, w, zh, live=T):
    """out: the diagram of the list of groups; items(i): the i-th transaction."""
    full = {x for x in subterms(out) if x.op == 'fold' and x.args[2] is n}
    if len(full) != 1:
        one = TM.subst(out, {n: num(1)})
        if not full and not has_unk(out) and is_leaf(one) and nothing(leafval(one)):
            return ck.fail(lab + ': the result is every closed group, then the last one', w, 'a list of one transaction gives no group')
        raise Missing('the fold over the whole list that collects a group')
    d, lo, _, init, step = full.pop().args
    acc = mk('lv', d, 'acc')
    idx = mk('idx', d, lo, n)
    I = Interp([C])
    hd = V(leaf(I.ranged(index(acc, num(0)), item_t, C.T)), item_t, C)
    la = V(leaf(I.ranged(index(acc, sub(length(acc), num(1))), item_t, C.T)), item_t, C)
    x = items(idx)
    got = step if isinstance(step, TM.Node) else ungate1(step)
    some_ = Gt(leaf(length(acc)), 0)
    same_ = disj(neg(some_), veq(group(hd).n, group(la).n))         # a group has one id
    close = conj(some_, disj(neg(veq(group(hd).n, group(x).n)), veq(group(hd).n, zh)))
    want = If(close, One(x), Cat(leaf(acc), One(x)))
    ck.holds(lab + ': starts from the first transaction with no group open', conj(Eq(leaf(lo), 0), Eq(leaf(length(init)), 0)), w)
    ck.same(lab + ': the open group is closed exactly when its id is zero or differs from the next transaction\'s; the transaction always joins', got, want, w, assume=same_)

    def at(h):
        k = newd()
        j = mk('idx', k, lo, h)
        TM.RNG.setdefault(j, (0, U64))
        return TM.mkq('fold', k, lo, h, init, TM.subst(step, {idx: j, acc: mk('lv', k, 'acc')}))

    def closes(a, y):
        m = {acc: a}
        h2 = TM.subst(group(hd).n, m)
        return conj(Gt(leaf(length(a)), 0), disj(neg(veq(h2, group(y).n)), veq(h2, zh)))
    d2 = newd()
    i2 = mk('idx', d2, num(0), n)
    a2 = at(i2)
    closed = coll(d2, num(0), n, ite(closes(a2, items(i2)), leaf((a2,)), leaf(())))
    last = at(n)
    res = If(Gt(leaf(length(last)), 0), Cat(leaf(closed), leaf(mk('arr', (last,)))), leaf(closed))
    ck.same(lab + ': the result is every closed group, then the last one', out, res, w, assume=live)


def tx_groups(P, ck):
    f = P.fn('signed_txs_to_group')
    R = P.run(f)
    txs = R.p[0]
    w = loc(f)
    ck.holds('list: never aborts', neg(panics(R)), w)
    et = txs.el()
    grouping(P, ck, 'list', R.ret, lambda i: txs.at(i), leafval(txs.len()), lambda x: x.tx.header.group, et, f['_c'], w, default_val(P, txs.at(num(0)).tx.header.group.t))


def payset_groups(P, ck):
    f = P.fn('Block::decode_payset_groups')
    R = P.run(f, opaque=[DEC])
    b = R.p[0]
    w = loc(f)
    C = f['_c']
    ps = b.payset
    st = P.type('SignedTxWithAD')
    ck.holds('payset: never aborts', neg(panics(R)), w)

    def item(i):
        return V(payload(App(DEC, b.header, ps.at(i))), st, C)
    good = ps.all(lambda x: is_ok(App(DEC, b.header, x)))
    ck.iff('payset: groups exist exactly if every transaction decodes', is_ok(R.ret), good, w)
    out = care(payload(R.ret), is_ok(R.ret))
    grouping(P, ck, 'payset', out, item, leafval(ps.len()), lambda x: x.tx.tx.header.group, st, C, w, default_val(P, item(num(0)).tx.tx.header.group.t), is_ok(R.ret))


def payset_flat(P, ck):
    f = P.fn('Block::decode_payset_flat')
    R = P.run(f, opaque=[DEC])
    b = R.p[0]
    w = loc(f)
    ps = b.payset
    ck.holds('flat payset: never aborts', neg(panics(R)), w)
    ck.iff('flat payset: exists exactly if every transaction decodes', is_ok(R.ret), ps.all(lambda x: is_ok(App(DEC, b.header, x))), w)
    out = V(care(payload(R.ret), is_ok(R.ret)), R.v.f('0', 'Ok').t, b.C)
    ck.holds('flat payset: one entry per transaction', Eq(out.len(), ps.len()), w)
    i = mk('idx', newd(), num(0), leafval(ps.len()))
    ck.same('flat payset: entry i is the decoded transaction i', out.at(i), payload(App(DEC, b.header, ps.at(i))), w)


def flatten(P, ck):
    f = P.fn('signed_tx_groups_flatten')
    R = P.run(f)
    g = R.p[0]
    w = loc(f)
    ck.holds('flatten: never aborts', neg(panics(R)), w)
    d = newd()
    n = leafval(g.len())
    grp = g.at(mk('idx', d, num(0), n)).n
    want = leaf(coll(d, num(0), n, mapleaves(grp, lambda x: leaf((mk('splice', x),)))))
    ck.same('flatten: the groups\' transactions, in order', R.ret, want, w)


def split(xs, group, zh):
    """The specified groups of a list of known length, and the laws of equality of the ids it uses."""
    ids = [group(x).n for x in xs] + [nod(zh)]
    laws = [implies(conj(veq(ids[i], ids[j]), veq(ids[j], ids[k])), veq(ids[i], ids[k])) for i in range(len(ids)) for j in range(len(ids)) for k in range(len(ids))
            if i != j and j != k and i != k]

    def go(i, done, cur):
        if i == len(xs):
            return leaf(mk('arr', tuple(mk('arr', tuple(g)) for g in done + ([cur] if cur else []))))
        x = leafval(xs[i].n)
        if not cur:
            return go(i + 1, done, [x])
        join = conj(veq(ids[i - 1], ids[i]), neg(veq(ids[i], zh)))
        return If(join, go(i + 1, done, cur + [x]), go(i + 1, done + [cur], [x]))
    return go(0, [], []), conj(*laws) if laws else T


def short_lists(P, ck):
    f = P.fn('signed_txs_to_group')
    w = loc(f)
    for n in (1, 2, 3):
        xs = [P.sym('tx%d' % i, P.type('SignedTx')) for i in range(n)]
        R = P.call(f, leaf(mk('arr', tuple(leafval(x.n) for x in xs))))
        want, laws = split(xs, lambda x: x.tx.header.group, default_val(P, xs[0].tx.header.group.t))
        ck.same('a list of %d: the groups' % n, R.ret, want, w, assume=laws)


def short_paysets(P, ck):
    f = P.fn('Block::decode_payset_groups')
    w = loc(f)
    b = P.sym('block', P.type('Block'))
    st = P.type('SignedTxWithAD')
    for n in (1, 2, 3):
        ys = [P.sym('stib%d' % i, b.payset.at(num(0)).t) for i in range(n)]
        blk = rec(P, 'Block', header=b.header.n, payset=leaf(mk('arr', tuple(leafval(y.n) for y in ys))))
        R = P.run(f, args=[blk], opaque=[DEC])
        ok = conj(*[is_ok(App(DEC, b.header, y)) for y in ys])
        xs = [V(payload(App(DEC, b.header, y)), st, f['_c']) for y in ys]
        ck.iff('a payset of %d: groups exist exactly if every transaction decodes' % n, is_ok(R.ret), ok, w)
        want, laws = split(xs, lambda x: x.tx.tx.header.group, default_val(P, xs[0].tx.tx.header.group.t))
        ck.same('a payset of %d: the groups' % n, care(payload(R.ret), is_ok(R.ret)), want, w, assume=conj(laws, ok))
