"""Merkle multi-proofs."""
from merkle import *

RULE = ('the accept condition of Tree::verify, the loop that folds the elements up to the root, one step of PartialLayer::up, Siblings::get and the construction of '
        'tree and proof must each equal the reference definition, for every tree, element set and proof; for trees of up to five leaves and proofs of up to three hashes the gated result of the whole of verify and prove equals the reference')
PARTS = ['verify', 'partial_up', 'siblings', 'prove', 'layer_up', 'build', 'root', 'small_proofs', 'small_trees', 'small_layers', 'small_builds']


def verify(P, ck):
    f = P.fn('Tree::verify')
    R = P.run(f, opaque=[UP])
    root, elems, proof = R.p
    w = loc(f)
    C = f['_c']
    empty = Eq(elems.len(), 0)
    ck.iff('verify: nothing to prove is accepted exactly with an empty proof', is_ok(R.ret), Eq(proof.len(), 0), w, assume=empty)
    L = only(loops(R.ret), 'verify')
    plt, st = P.type('partial::PartialLayer'), P.type('partial::Siblings')
    il = L.role(lambda x: x is num(0))
    ip = L.role(lambda x: x.op in ('sorted', 'coll'))
    is_ = L.role(lambda x: x.op == 'adt' and x.args[0].endswith('Siblings'))
    # start values
    x = L.inits[ip]
    if x.op != 'sorted':
        ck.fail('verify: the elements are folded in order of position', w, 'the partial layer starts as ' + show(x)[:300])
        return
    base = V(leaf(x.args[3]), plt, C)
    d = newd()
    i = mk('idx', d, num(0), leafval(elems.len()))
    ck.holds('verify: every element is folded', Eq(base.len(), elems.len()), w)
    e = base.at(i)
    ck.same('verify: each element at its claimed position', e.pos, keyof(elems, i), w)
    ck.same('verify: each element with its own hash', e.hash, valof(elems, i), w)
    a, b = (V(leaf(mk('lv', x.args[0], v)), e.t, C) for v in 'ab')
    ck.iff('verify: sorted by position', x.args[4], Lt(a.pos, b.pos), w)
    s0 = V(leaf(L.inits[is_]), st, C)
    ck.same('verify: the proof supplies the siblings', s0.hints, proof, w)
    ck.holds('verify: no tree supplies siblings', Eq(s0.tree.levels.len(), 0), w)
    # one round
    pl, s, l = L.var(ip, plt, C), L.var(is_, st, C), leaf(L.vars[il])
    do = L_do(L, UP)
    ck.holds('verify: each round computes the hashes', is_true(do), w)
    up = App(UP, pl, s, l, do)
    more = disj(neg(Eq(s.hints.len(), 0)), Gt(pl.len(), 1))
    ck.iff('verify: folds on exactly while siblings or nodes remain, up to the height limit', L.back, conj(more, is_ok(up), Le(l, 63)), w)
    go = L.back
    ck.same('verify: each round replaces the layer by the one above', care(L.next[ip], go), payload(up), w)
    ck.same('verify: each round keeps the remaining siblings', care(L.next[is_], go), App(UP + '!1', pl, s, l, do), w)
    ck.same('verify: each round is one level higher', care(L.next[il], go), Add(l, 1), w)
    # the end
    E = [L.at_end(j) for j in range(len(L.inits))]
    m = {leafval(x): mk('sym', 'end%d' % j) for j, x in enumerate(E)}
    acc = TM.subst(is_ok(R.ret), m)
    I = Interp([C])
    for j, t in ((ip, plt), (is_, st)):
        I.ranged(m[leafval(E[j])], t, C.T)
    pe, se = V(leaf(m[leafval(E[ip])]), plt, C), V(leaf(m[leafval(E[is_])]), st, C)
    top = pe.at(num(0))
    want = conj(Eq(se.hints.len(), 0), Le(pe.len(), 1), Eq(top.pos, 0), veq(top.hash, root))
    ck.iff('verify: accepted exactly if the fold used every sibling and ended in the root at position 0', acc, want, w, assume=neg(empty))


def keyof(m, i):
    return nod(TM.index(TM.app('keys', leafval(m.n)), i))


def valof(m, i):
    return nod(TM.index(TM.app('values', leafval(m.n)), i))


P_ = []


def partial_up(P, ck):
    P_[:] = [P]
    f = P.fn('PartialLayer::up')
    R = P.run(f)
    s0, sib, lvl, do = R.p
    C = f['_c']
    w = loc(f)
    Ls = [L for L in loops(R.ret) if any(x.op == 'arr' and not x.args[0] for x in L.inits)]
    L = only(Ls, 'PartialLayer::up')
    ir = L.role(lambda x: x.op == 'arr' and not x.args[0])
    ii = L.role(lambda x: x is num(0))
    is_ = L.role(lambda x: x is leafval(sib.n))
    res, i, s = L.vars[ir], L.vars[ii], L.var(is_, sib.t, C)
    me = s0.at(i)
    par = leafval(Rem(me.pos, 2))
    for p in (0, 1):
        step(ck, f, R, L, (ir, ii, is_), par, p, w)
    end = {}
    for M in loops(R.ret):
        for j, x in enumerate(M.inits):
            k = 'index' if x is num(0) else 'nodes' if x.op == 'arr' else 'source'
            end[leafval(M.at_end(j))] = mk('sym', 'end_' + k)
    out = TM.subst(R.ret, end)
    n = s0.len()
    ei, er, es = (leaf(mk('sym', 'end_' + k)) for k in ('index', 'nodes', 'source'))
    TM.RNG[leafval(ei)] = (0, U64)
    ck.implies('fold: succeeds only when every node was folded', is_ok(out), Ge(ei, n), w)
    ck.implies('fold: succeeds when every node was folded', Ge(ei, n), is_ok(out), w)
    ck.same('fold: yields the parents', payload(out), er, w, assume=is_ok(out))
    ck.same('fold: leaves the remaining siblings behind', TM.subst(R.out['s'], end), es, w, assume=Ge(ei, n))


def step(ck, f, R, L, roles, par, parity, w):
    """One round of the fold, for a node at an even or an odd position."""
    ir, ii, is_ = roles
    s0, sib, lvl, do = R.p
    C = f['_c']
    res, i, s = L.vars[ir], L.vars[ii], L.var(is_, sib.t, C)
    n = s0.len()
    me, nxt = s0.at(i), s0.at(add(i, num(1)))
    lab = 'fold step at an %s position: ' % ('odd' if parity else 'even')
    memo = {}

    def at(x):
        return TM.subst(nod(x), {par: num(parity)}, memo)
    sibpos = at(Sub(me.pos, 1) if parity else Add(me.pos, 1))
    more = Lt(leaf(i), n)
    paired = conj(Lt(Add(leaf(i), 1), n), Eq(nxt.pos, sibpos))
    proving = Gt(s.tree.levels.len(), 0)
    below = Lt(lvl, s.tree.levels.len())
    have = ite(proving, below, Gt(s.hints.len(), 0))
    go = conj(more, disj(paired, have))
    ck.iff(lab + 'continues exactly if the sibling is a neighbour or supplied', at(L.back), go, w)
    zh = default_val(P_[0], me.hash.t)
    row = s.tree.levels.at(leafval(lvl.n))
    intree = If(Lt(sibpos, row.len()), row.at(leafval(sibpos)), zh)
    sh = If(paired, nxt.hash, If(proving, intree, s.hints.at(num(0))))
    new = V(at(appended(care(L.next[ir], L.back), res)), me.t, C)
    ck.same(lab + "the parent's position is half the child's", new.pos, at(Div(me.pos, 2)), w, assume=go)
    ck.same(lab + "the parent's hash is of the left, then the right child", new.hash, node(sh, me.hash) if parity else node(me.hash, sh), w,
            assume=conj(go, is_true(do.n)))
    ck.same(lab + 'a neighbour used as sibling is skipped, and nothing else is', at(L.next[ii]), Add(leaf(i), If(paired, 2, 1)), w, assume=go)
    ns = V(at(L.next[is_]), sib.t, C)
    h = s.hints
    ck.same(lab + 'a supplied sibling is consumed once', ns.hints, If(paired, h, mapleaves(h.n, lambda x: leaf(TM.slice_(x, num(1), length(x))))), w, assume=conj(go, neg(proving)))
    ck.same(lab + 'a sibling taken from the tree is recorded, in order', ns.hints, If(paired, h, Cat(h, One(intree))), w, assume=conj(go, proving))
    ck.same(lab + 'the source of siblings stays', ns.tree, s.tree, w, assume=go)


def siblings(P, ck):
    f = P.fn('Siblings::get')
    R = P.run(f)
    s, l, i = R.p
    w = loc(f)
    proving = Gt(s.tree.levels.len(), 0)
    ck.iff('sibling: found exactly if the proof has one left, or the tree has that level', is_ok(R.ret), ite(proving, Lt(l, s.tree.levels.len()), Gt(s.hints.len(), 0)), w)


def prove(P, ck):
    f = P.fn('Tree::prove')
    R = P.run(f, opaque=[UP])
    t, idxs = R.p
    C = f['_c']
    w = loc(f)
    none = Eq(idxs.len(), 0)
    ck.iff('prove: proving nothing always succeeds', is_ok(R.ret), T, w, assume=none)
    ck.same('prove: proving nothing gives an empty proof', payload(R.ret), nod(mk('arr', ())), w, assume=none)
    n = t.levels.at(num(0)).len()
    ok = conj(neg(Eq(t.levels.len(), 0)), idxs.all(lambda x: Lt(x, n)))
    L = only(loops(R.ret), 'prove')
    plt, st = P.type('partial::PartialLayer'), P.type('partial::Siblings')
    il = L.role(lambda x: x is num(0))
    is_ = L.role(lambda x: x.op == 'adt' and x.args[0].endswith('Siblings'))
    ip = 3 - il - is_
    s0 = V(leaf(L.inits[is_]), st, C)
    ck.same('prove: siblings come from this tree', s0.tree, t, w)
    ck.holds('prove: the proof starts empty', Eq(s0.hints.len(), 0), w)
    pl, s, l = L.var(ip, plt, C), L.var(is_, st, C), leaf(L.vars[il])
    up = App(UP, pl, s, l, L_do(L, UP))
    ck.iff('prove: goes up to the last layer below the root', L.back, conj(Lt(Add(l, 1), t.levels.len()), is_ok(up)), w)
    ck.same('prove: each round replaces the layer by the one above', care(L.next[ip], L.back), payload(up), w)
    ck.same('prove: each round keeps the siblings collected', care(L.next[is_], L.back), App(UP + '!1', pl, s, l, L_do(L, UP)), w)
    ck.same('prove: each round is one level higher', care(L.next[il], L.back), Add(l, 1), w)
    # first layer
    x = L.inits[ip]
    if x.op != 'fold':
        raise Missing('the fold that selects the leaves')
    d, lo, hi, init, step = x.args[:5]
    ck.holds('prove: every requested index is considered', conj(Eq(leaf(lo), 0), Eq(leaf(hi), idxs.len()), Eq(leaf(length(init)), 0)), w)
    acc = mk('lv', d, 'acc')
    av = V(leaf(acc), plt, C)
    srt = [y for y in subterms(step) if y.op == 'sorted']
    if len({id(y) for y in srt}) != 1:
        raise Missing('the sorted index list')
    so = srt[0]
    et = idxs.el()
    a, b = (V(leaf(mk('lv', so.args[0], v)), et, C) for v in 'ab')
    ck.same('prove: the requested indices are sorted', so.args[3], idxs, w)
    ck.iff('prove: sorted ascending', so.args[4], Lt(a, b), w)
    cur = V(leaf(so), idxs.t, C).at(mk('idx', d, lo, hi))
    last = av.at(sub(length(acc), num(1)))
    dup = conj(Gt(av.len(), 0), Eq(last.pos, cur))
    got = ungate1(step) if not isinstance(step, TM.Node) else step
    kept = mapleaves(got, lambda y: T if y is acc else F)
    ck.iff('prove: exactly the repeated indices are dropped', kept, dup, w)
    new = V(appended(care(got, neg(kept)), acc), last.t, C)
    ck.same('prove: a leaf is selected at its index', new.pos, cur, w, assume=neg(kept))
    ck.same('prove: a leaf is selected with its hash', new.hash, t.levels.at(num(0)).at(leafval(cur.n)), w, assume=neg(kept))
    # result
    end = {leafval(L.at_end(j)): mk('sym', 'end%d' % j) for j in range(3)}
    out = TM.subst(R.ret, end)
    se = V(leaf(end[leafval(L.at_end(is_))]), st, C)
    ck.implies('prove: succeeds only for indices of existing leaves', is_ok(out), disj(none, neg(Eq(t.levels.len(), 0))), w)
    ck.implies('prove: an index beyond the leaves is refused', is_ok(out), disj(none, bound(out, so, n, idxs)), w)
    ck.same('prove: the proof is the siblings collected', payload(out), se.hints, w, assume=conj(is_ok(out), neg(none)))


def bound(out, so, n, idxs):
    d = newd()
    return mapleaves(nod(n), lambda h: TM.forall(d, num(0), leafval(idxs.len()), Lt(V(leaf(so), idxs.t, idxs.C).at(mk('idx', d, num(0), leafval(idxs.len()))), leaf(h))))


def L_do(L, up):
    """The last argument which the loop passes to up."""
    s = {x.args[1][-1] for x in subterms(L.back) if x.op == 'app' and x.args[0] == up}
    if len(s) != 1:
        raise Missing('the call of ' + up)
    return ungate(leaf(s.pop()))


def build(P, ck):
    for f in P.insts('Tree::from_array'):
        R = P.run(f, opaque=[LUP])
        w = loc(f)
        t = R.v.f('0', 'Ok')
        ck.holds('build: never refused', is_ok(R.ret), w)
        first = levels_loop(P, ck, 'build', t.levels, w)
        ck.holds('build: starts from one layer', Eq(first.len(), 1), w)
        arr = R.p[0]
        lv0 = first.at(num(0))
        ck.holds('build: one leaf per element', Eq(lv0.len(), arr.len()), w)


def root(P, ck):
    f = P.fn('Tree::root')
    R = P.run(f)
    t = R.p[0]
    w = loc(f)
    l0 = t.levels.at(num(0))
    top = t.levels.at(sub(length(leafval(t.levels.n)), num(1)))
    live = Gt(t.levels.len(), 0)
    ck.same('root: zero for no leaves, else the single node of the top layer', R.ret, If(Eq(l0.len(), 0), default_val(P, R.v.t), top.at(num(0))), w,
            assume=conj(live, neg(panics(R))))


# ---- whole functions on inputs of known shape (hashes stay symbolic)
def seq(*xs):
    return leaf(mk('arr', tuple(leafval(nod(x.n if isinstance(x, V) else x)) for x in xs)))


def hashes(P, n, pre='h'):
    return [P.sym('%s%d' % (pre, i), P.type('CryptoHash')).n for i in range(n)]


def fixed_map(name, kv):
    m = mk('sym', name)
    TM.LEN[m] = num(len(kv))
    TM.FIXED[m] = (tuple(num(k) for k, _ in kv), tuple(leafval(v) for _, v in kv))
    return leaf(m)


def fold_up(items, sibling):
    """The layer above; sibling(pos) gives the missing neighbour, None if there is none."""
    out, i = [], 0
    while i < len(items):
        pos, h = items[i]
        i += 1
        if i < len(items) and items[i][0] == pos ^ 1:
            s = items[i][1]
            i += 1
        else:
            s = sibling(pos ^ 1)
            if s is None:
                return None
        out.append((pos // 2, node(s, h) if pos & 1 else node(h, s)))
    return out


def small_proofs(P, ck):
    f = P.fn('Tree::verify')
    w = loc(f)
    root, = hashes(P, 1, 'root')
    H, S = hashes(P, 3, 'elem'), hashes(P, 3, 'hint')
    sets = [(), (0,), (1,), (2,), (5,), (0, 1), (0, 2), (1, 2), (2, 3), (0, 1, 2), (1, 2, 3)]
    for ps in sets:
        bad, und, k = [], [], 0
        for n in range(4):
            items, left = [(p, H[j]) for j, p in enumerate(ps)], list(S[:n])
            while items is not None and items and (left or len(items) > 1):
                items = fold_up(items, lambda p: left.pop(0) if left else None)
            want = F if items is None or left else T if not items else veq(items[0][1], root) if items[0][0] == 0 else F
            kv = [(p, H[j]) for j, p in enumerate(ps)]
            for order in (kv, kv[::-1])[:2 if len(kv) > 1 else 1]:
                k += 1
                R = P.run(f, args=[root, fixed_map('elems%s.%d.%d' % (ps, n, k), order), seq(*S[:n])], eager=1)
                ck.iff('elements at %s with a proof of %d%s: accepted exactly if the proof recomputes the root' % (list(ps), n, ', visited in reverse' if order is not kv else ''),
                       is_ok(R.ret), want, w)


def small_trees(P, ck):
    f = P.fn('Tree::prove')
    w = loc(f)
    zh = default_val(P, P.type('CryptoHash'))
    for n in range(1, 6):
        rows = [hashes(P, n, 'leaf')]
        while len(rows[-1]) > 1:
            r = rows[-1]
            rows.append([node(r[i], r[i + 1] if i + 1 < len(r) else zh) for i in range(0, len(r), 2)])
        tree = rec(P, 'merkle::Tree', levels=seq(*[seq(*r) for r in rows]))
        sets = [[]] + [[i] for i in range(n)] + [[i, j] for i in range(n) for j in range(n)][:25] + [[n], [0, n]] + [list(range(n)), list(range(n - 1, -1, -1))]
        for ix in sets:
            R = P.run(f, args=[tree, cell('ix')], cells={'ix': seq(*[num(i) for i in ix])}, eager=1)
            nm = 'a tree of %d, proving %s: ' % (n, ix)
            if any(i >= n for i in ix):
                ck.iff(nm + 'refused', is_ok(R.ret), F, w)
                continue
            items, proof = [(i, rows[0][i]) for i in sorted(set(ix))], []
            for r in rows[:-1] if ix else ():
                def sib(p):
                    proof.append(r[p] if p < len(r) else zh)
                    return proof[-1]
                items = fold_up(items, sib)
            ck.iff(nm + 'never refused', is_ok(R.ret), T, w)
            ck.same(nm + 'the proof is the missing siblings, layer by layer', payload(R.ret), seq(*proof), w)


def small_layers(P, ck):
    """One fold step over whole layers of up to three nodes at known positions."""
    f = P.fn('PartialLayer::up')
    w = loc(f)
    tree0 = rec(P, 'merkle::Tree', levels=seq())
    H, S = hashes(P, 3, 'node'), hashes(P, 3, 'hint')
    for ps in ((), (0,), (1,), (7,), (0, 1), (1, 2), (2, 3), (0, 1, 2), (1, 2, 3), (0, 3, 4), (1, 3, 5)):
        for n in range(4):
            left = list(S[:n])
            want = fold_up([(p, H[j]) for j, p in enumerate(ps)], lambda p: left.pop(0) if left else None)
            items = [rec(P, 'partial::LayerItem', pos=num(p), hash=H[j]) for j, p in enumerate(ps)]
            R = P.run(f, args=[seq(*items), cell('s'), num(0), leaf(TM.TRUE)], cells={'s': rec(P, 'partial::Siblings', tree=tree0, hints=seq(*S[:n]))}, eager=1)
            nm = 'a layer of %s with %d hashes: ' % (list(ps), n)
            ck.iff(nm + 'folded exactly if they suffice', is_ok(R.ret), F if want is None else T, w)
            if want is not None:
                ck.same(nm + 'the layer above', payload(R.ret), seq(*[rec(P, 'partial::LayerItem', pos=num(p), hash=x) for p, x in want]), w)
                ck.same(nm + 'the hashes left over', V(R.out['s'], P.type('partial::Siblings'), f['_c']).hints, seq(*left), w)


def small_builds(P, ck):
    """The layers built over arrays of up to five elements."""
    zh = default_val(P, P.type('CryptoHash'))
    for f in P.insts('Tree::from_array'):
        w = loc(f)
        a = P.params(f)[1][0]
        for n in range(6):
            xs = [P.sym('el%d' % i, a.el()) for i in range(n)]
            R = P.run(f, args=[seq(*xs)], eager=1)
            got = R.v.f('0', 'Ok').levels
            rows = [[got.at(num(0)).at(num(i)).n for i in range(n)]]
            while len(rows[-1]) > 1:
                r = rows[-1]
                rows.append([node(r[i], r[i + 1] if i + 1 < len(r) else zh) for i in range(0, len(r), 2)])
            ck.iff('an array of %d: a tree is built' % n, is_ok(R.ret), T, w)
            ck.holds('an array of %d: layers up to a single node' % n, Eq(got.len(), len(rows)), w)
            for k, r in enumerate(rows):
                ck.holds('an array of %d: layer %d has a node for every two below' % (n, k), Eq(got.at(num(k)).len(), len(r)), w)
                for i in range(len(r) if k else 0):
                    ck.same('an array of %d: node %d of layer %d' % (n, i, k), got.at(num(k)).at(num(i)), r[i], w)
