"""Merkle trie: operations, node cache, storage."""
from spec import *
import intrinsics as IT

RULE = ('by abstract interpretation of every trie operation: a malformed or vain operation leaves root, element length and store alone; a failure of any callee is returned, '
        'publishes no root and reaches no panic; every node written as modified is marked dirty, and every node id that a result or a written node refers to was itself written; '
        'the node hash commits to path and every child after dirty children were recomputed')
PARTS = ['trie_add', 'trie_delete', 'root_hash', 'node_find', 'node_add', 'node_remove', 'node_hash', 'cache', 'storage', 'errors', 'collapse', 'split_paths', 'hash_few']

CACHE = 'MerkleTrieCache::'
DIGEST_ = 'ed25519_dalek::Digest::digest<sha2::Sha512Trunc256>'


def node_t(P):
    return P.type('merkletrie::node::Node')


def tup(*xs):
    def go(i, acc):
        if i == len(xs):
            return leaf(TM.adt('tuple', '', tuple(str(k) for k in range(len(xs))), tuple(acc)))
        return mapleaves(nod(xs[i]), lambda x: go(i + 1, acc + [x]))
    return go(0, [])


def models(P, fail=False):
    """Contracts of the node cache and of the recursive operations. fail: every one of them may also report an error."""
    NT = node_t(P)

    def nodev(c, x):
        c.I.rangedn(x, NT, P.lib.T)
        return x

    def res(c, name, args, good, ty=None):
        if not fail:
            return Ok_(good) if good is not None else Ok_()
        r = App('try ' + name, *args)
        if ty is not None:
            nodev(c, payload(r))
        c.st = dict(c.st)
        c.st[(-1, '#err')] = ite(is_ok(r), c.st.get((-1, '#err'), leaf(num(0))), leaf(num(1)))
        return r

    def alloc(c, s):
        cur = IT.val(c, s)
        IT.wr(c, s, App('alloc', cur))
        return tup(default_val(P, NT), App('newid', cur))

    def get(c, s, i):
        cur, i = IT.val(c, s), IT.val(c, i)
        return res(c, 'get', [cur, i], nodev(c, App('node', cur, i)), NT)

    def put(c, s, i, n):
        cur, i, n = IT.val(c, s), IT.val(c, i), IT.val(c, n)
        IT.wr(c, s, App('set', cur, i, n))
        return res(c, 'set', [cur, i, n], None)

    def dele(c, s, i):
        cur, i = IT.val(c, s), IT.val(c, i)
        IT.wr(c, s, App('del', cur, i))
        return res(c, 'del', [cur, i], None)

    def find(c, s, k, d):
        a = [IT.val(c, x) for x in (s, k, d)]
        return res(c, 'find', a, App('found', *a))

    def change(nm):
        def g(c, s, k, d, path):
            a = [IT.val(c, x) for x in (s, k, d, path)]
            IT.wr(c, k, App(nm + '!', *a))
            return res(c, nm, a, App(nm, *a))
        return g

    def calc(c, s, k):
        a = [IT.val(c, x) for x in (s, k)]
        IT.wr(c, s, nodev(c, App('hashed', *a)))
        IT.wr(c, k, App('hashed!', *a))
        return res(c, 'hash', a, None)
    return {CACHE + 'allocate_new_node': alloc, CACHE + 'get_node': get, CACHE + 'set_node': put, CACHE + 'delete_node': dele,
            'Node::find': find, 'Node::add': change('add'), 'Node::remove': change('remove'), 'Node::calculate_hash': calc}


EMPTY = leaf(mk('arr', ()))
OPS = ('set', 'del', 'alloc', 'add!', 'remove!', 'hashed!')


def chain(n, root, cond=T):
    """What was done to the cache, newest first, for every guarded outcome: [(condition, [(op, args)])]."""
    out = []
    for x in set(leaves(n)):
        c = conj(cond, cond_of(n, lambda y: y is x))
        if c is F:
            continue
        l, y = [], x
        while y is not root:
            if y.op == 'app' and y.args[0] in OPS:
                a = y.args[1]
                k = 1 if y.args[0] in ('add!', 'remove!', 'hashed!') else 0
                l.append((y.args[0], a))
                y = a[k]
            elif y.op == 'whl':
                L = Loop(y.args[:6])
                l.append(('loop', (L, y.args[6])))
                y = L.inits[y.args[6]]
            elif y.op == 'fold':
                L = Counted(y)
                l.append(('loop', (L, 0)))
                y = L.inits[0]
            else:
                raise Missing('history of the node cache: ' + show(y)[:80])
        out.append((c, l))
    return out


class Counted:
    """A counted loop whose rounds change only the cache, as a loop with one carried value."""
    def __init__(self, x):
        self.key, self.d = x, x.args[0]
        self.inits, self.next, self.vars = [leafval(ungate(leaf(x.args[3])))], [x.args[4]], [mk('lv', x.args[0], 'acc')]


def deep(n, c):
    """The value under a condition, guarded fields included."""
    def one(x):
        if x.op == 'adt':
            return leaf(TM.adt(x.args[0], x.args[1], x.args[2], tuple(TM.gate(deep(ungate(leaf(y)), c)) for y in x.args[3])))
        return leaf(x)
    return mapleaves(care(n, c), one)


def written(l, i):
    """Is node i written in this history (or does it carry the loop variable that is)?"""
    if any(op == 'set' and a[1] is i for op, a in l):
        return True
    if i.op == 'whl':
        for op, a in l:
            if op == 'loop' and a[0].key == i.args[:6]:
                L, k = a
                j = i.args[6]
                body = chain(leaf(L.next[k]) if isinstance(L.next[k], TM.Term) else L.next[k], L.vars[k])
                rest = l[l.index((op, a)) + 1:]
                nx = L.next[j]
                return written(rest, L.inits[j]) and all(any(o == 'set' and b[1] is y for o, b in bl) for _, bl in body for y in leaves(nod(nx)))
    return False


def sets(l):
    """Every write of a history, those inside loops included."""
    r = []
    for op, a in l:
        if op == 'set':
            r.append((a[1], a[2], None))
        elif op == 'loop':
            L, k = a
            for c, bl in chain(nod(L.next[k]), L.vars[k]):
                r += [(x, y, (L, k)) for x, y, _ in sets(bl)]
    return r


def new_ids(n):
    """Node ids stored into a child table by the operation itself."""
    r = []
    for x in subterms(n):
        if x.op == 'store' and len(x.args) == 3:
            v = x.args[2]
            for y in leaves(ungate(leaf(v))):
                if y.op == 'adt' and y.args[1] == 'Some':
                    r += leaves(ungate(leaf(y.args[3][0])))
    return r


def kept_table(ck, name, w, n, tab, k):
    """A child table equals another one but for slot k."""
    for x in set(leaves(n)):
        what = '%s: other children are kept' % name
        while x.op == 'store' and x.args[1] is leafval(k.n):
            x = x.args[0]
        if x is leafval(tab.n):
            ck.ok(what, w)
        elif x.op in ('store', 'rep', 'arr'):
            ck.fail(what, w, show(x)[:200])
        else:
            ck.und(what, w, show(x)[:200])


def check_writes(P, ck, name, w, R, cache, path, kept):
    """Obligations common to Node::add and Node::remove."""
    NT, C = node_t(P), R.f['_c']
    n = 0
    for c, l in chain(R.out['cache'], leafval(cache.n)):
        good = conj(c, is_ok(R.ret))
        if good is F:
            continue
        for i, node, lp in sets(l):
            v = V(deep(ungate(leaf(node)), good), NT, C)
            n += 1
            what = '%s: write %d' % (name, n)
            ck.holds(what + ': an inner node is marked for re-hashing', disj(v.children.none(), is_true(v.dirty.n)), w, assume=c)
            # an inner node under construction holds its own path
            for z in set(leaves(v.hash.n)):
                cz = conj(c, cond_of(v.hash.n, lambda y: y is z), v.children.some())
                if cz is F:
                    continue
                ok = z is leafval(path.n) or z.op == 'concat' and z.args[0][0] is leafval(path.n)
                (ck.ok if ok else ck.fail)(what + ': an inner node holds its path until it is hashed', w, show(z)[:200])
            for y in set(new_ids(v.children.n)):
                ok = written(l, y) or y.op == 'app' and y.args[0] in kept or y.op == 'lv' and lp is not None
                (ck.ok if ok else ck.fail)(what + ': every new child was written', w, show(y)[:200])
        for y in set(leaves(care(payload(R.ret), good))):
            ok = written(l, y)
            if not ok and any(op == 'loop' and isinstance(a[0], Counted) and any(o == 'set' for _, bl in chain(nod(a[0].next[0]), a[0].vars[0]) for o, _ in bl) for op, a in l):
                ck.und('%s: the node it returns was written' % name, w, 'form of the chain of nodes')
                continue
            (ck.ok if ok else ck.fail)('%s: the node it returns was written' % name, w, show(y)[:200])
    if not n:
        raise Missing('writes of ' + name)


def elem_len_ok(self, d):
    return Eq(self.element_length, d.len())


def quiet(R, cond, ck, name, w, self, cache_too=True):
    """Root, element length (and store) untouched under a condition."""
    o = V(R.out['self'], self.t, R.f['_c'])
    ck.holds(name + ': root unchanged', veq(o.root, self.root), w, assume=cond)
    ck.same(name + ': element length unchanged', o.element_length, self.element_length, w, assume=cond)
    if cache_too:
        ck.same(name + ': nothing stored', o.cache, self.cache, w, assume=cond)


def is_err_variant(n, v):
    """The result is the error v of the trie."""
    return mapleaves(nod(n), lambda x: T if x.op == 'adt' and x.args[1] == 'Err' and any(y.op == 'adt' and y.args[1] == v for y in leaves(ungate(leaf(x.args[3][0])))) else F)


def el_at(v, i):
    return v.at(leafval(nod(i)))


def trie(P, ck, name):
    f = P.fn('merkletrie::trie::Trie::' + name)
    R = P.run(f, models=models(P))
    self, d = R.p
    w = loc(f)
    o = V(R.out['self'], self.t, f['_c'])
    has = self.root.some()
    right = elem_len_ok(self, d)
    small = T
    bad = conj(has, neg(right))
    ck.holds(name + ': an element of another length is an error', is_err_variant(R.ret, 'ElementLengthMismatch'), w, assume=bad)
    quiet(R, bad, ck, name + ' (element of another length)', w, self)
    root = App('node', self.cache, self.root.get())
    found = is_true(App('found', root, self.cache, d))
    return f, R, self, d, w, o, has, conj(has, right, small), root, found, small


def trie_add(P, ck):
    f, R, self, d, w, o, has, fits, root, found, small = trie(P, ck, 'add')
    dup = conj(fits, found)
    ck.iff('add: an element already present reports false', conj(is_ok(R.ret), neg(is_true(payload(R.ret)))), dup, w, assume=disj(fits, neg(has)))
    quiet(R, dup, ck, 'add (element present)', w, self)
    # first element
    first = conj(neg(has), small)
    ck.holds('add: the first element is stored under the new root', conj(is_ok(R.ret), is_true(payload(R.ret)), o.root.some()), w, assume=first)
    for c, l in chain(o.cache.n, leafval(self.cache.n), first):
        if is_ok(R.ret) is F:
            continue
        for y in set(leaves(care(o.root.get().n, c))):
            ws = [(i, n) for i, n, _ in sets(l) if i is y]
            if not ws:
                ck.fail('add: the first root is written before it is published', w, show(y)[:200])
                continue
            v = V(ungate(leaf(ws[-1][1])), node_t(P), f['_c'])
            ck.same('add: the first root is a leaf holding the element', v.hash, d, w, assume=c)
            ck.holds('add: the first root is a leaf', v.children.none(), w, assume=c)
    ck.same('add: the first element sets the element length', o.element_length, d.len(), w, assume=first)
    # further elements
    new = conj(fits, neg(found))
    want = App('add', root, self.cache, d, EMPTY)
    ck.holds('add: a new element reports true', conj(is_ok(R.ret), is_true(payload(R.ret))), w, assume=new)
    ck.same('add: the new root is the one the insertion returned', o.root.get(), want, w, assume=conj(new, o.root.some()))
    ck.holds('add: a root is published', o.root.some(), w, assume=new)
    ck.same('add: the element length stays', o.element_length, self.element_length, w, assume=new)
    after(ck, 'add', w, o, self, new, App('add!', root, self.cache, d, EMPTY))


def after(ck, name, w, o, self, cond, base):
    """What is left to do after the recursive operation: nothing, or dropping the old root."""
    ck.same('%s: the store holds what the recursive operation wrote, less the old root' % name, o.cache, App('del', base, self.root.get()), w, assume=cond)


def trie_delete(P, ck):
    f, R, self, d, w, o, has, fits, root, found, small = trie(P, ck, 'delete')
    vain = disj(neg(has), conj(fits, neg(found)))
    ck.iff('delete: an absent element reports false', conj(is_ok(R.ret), neg(is_true(payload(R.ret)))), vain, w, assume=conj(disj(fits, neg(has)), small))
    quiet(R, vain, ck, 'delete (element absent)', w, self)
    rv = V(root, node_t(P), f['_c'])
    last = conj(fits, found, rv.children.none())
    ck.holds('delete: removing the only element reports true', conj(is_ok(R.ret), is_true(payload(R.ret))), w, assume=last)
    ck.holds('delete: removing the only element empties the trie', o.root.none(), w, assume=last)
    ck.same('delete: the only node is dropped from the store', o.cache, App('del', self.cache, self.root.get()), w, assume=last)
    more = conj(fits, found, rv.children.some())
    ck.holds('delete: removing an element reports true', conj(is_ok(R.ret), is_true(payload(R.ret))), w, assume=more)
    ck.holds('delete: a root is published', o.root.some(), w, assume=more)
    ck.same('delete: the new root is the one the removal returned', o.root.get(), App('remove', root, self.cache, d, EMPTY), w, assume=conj(more, o.root.some()))
    ck.same('delete: the element length stays', o.element_length, self.element_length, w, assume=more)
    after(ck, 'delete', w, o, self, more, App('remove!', root, self.cache, d, EMPTY))


def root_hash(P, ck):
    f = P.fn('merkletrie::trie::Trie::root_hash')
    R = P.run(f, models=models(P))
    self, = R.p
    w = loc(f)
    o = V(R.out['self'], self.t, f['_c'])
    has = self.root.some()
    root = App('node', self.cache, self.root.get())
    h = V(App('hashed', root, self.cache), node_t(P), f['_c'])
    tag = If(h.children.none(), num(0), num(1))
    ck.same('root_hash: commits to the kind and the fresh hash of the root', payload(R.ret), App(DIGEST_, Cat(One(tag), h.hash)), w, assume=has)
    ck.holds('root_hash: never fails with a working store', is_ok(R.ret), w)
    ck.same('root_hash: the root keeps its fresh hash in the store', o.cache, App('set', App('hashed!', root, self.cache), self.root.get(), h), w, assume=has)
    ck.holds('root_hash: the root stays', veq(o.root, self.root), w)
    ck.same('root_hash: element length stays', o.element_length, self.element_length, w)


def node_find(P, ck):
    f = P.fn('merkletrie::node::Node::find')
    R = P.run(f, models=models(P))
    self, cache, d = R.p
    w = loc(f)
    ck.same('find: stores nothing', R.out['cache'], cache, w)
    ck.iff('find: a leaf holds exactly its own remainder', is_true(payload(R.ret)), veq(self.hash, d), w, assume=self.children.none())
    ch = el_at(self.children.get(), el_at(d, num(0)))
    pres = conj(self.children.some(), Gt(d.len(), 0))
    ck.holds('find: no child on the path, not found', conj(is_ok(R.ret), neg(is_true(payload(R.ret)))), w, assume=conj(pres, ch.none()))
    ck.same('find: otherwise what the child finds of the rest', payload(R.ret),
            App('found', App('node', cache, ch.get()), cache, slice_from(d, 1)), w, assume=conj(pres, ch.some()))


def slice_from(v, k):
    return ungate(mapleaves(nod(v), lambda x: leaf(TM.slice_(x, num(k), leafval(V(leaf(x), v.t, v.C).len().n if hasattr(V(leaf(x), v.t, v.C).len(), 'n') else V(leaf(x), v.t, v.C).len())))))


def node_add(P, ck):
    f = P.fn('merkletrie::node::Node::add')
    R = P.run(f, models=models(P))
    self, cache, d, path = R.p
    w = loc(f)
    C, NT = f['_c'], node_t(P)
    check_writes(P, ck, 'add', w, R, cache, path, ('add',))
    # an inner node
    tab = self.children.get()
    d0 = el_at(d, num(0))
    ch = el_at(tab, d0)
    inner = conj(self.children.some(), Gt(d.len(), 0))
    ok = is_ok(R.ret)
    ck.holds('add: succeeds with a working store (inner node)', ok, w, assume=inner)
    rest = slice_from(d, 1)
    for c, l in chain(R.out['cache'], leafval(cache.n), inner):
        for y in set(leaves(care(payload(R.ret), c))):
            ws = [n for i, n, _ in sets(l) if i is y]
            if not ws:
                ck.fail('add: the returned node is written', w, show(y)[:200])
                continue
            cc = conj(c, cond_of(payload(R.ret), lambda z: z is y))
            v = V(ungate(leaf(ws[0])), NT, C)
            nt = v.children.get()
            ck.holds('add: an inner node stays inner', v.children.some(), w, assume=cc)
            kept_table(ck, 'add', w, care(nt.n, conj(cc, v.children.some())), tab, d0)
            mine = el_at(nt, d0)
            have = conj(cc, v.children.some())
            ck.holds('add: the element is under its own child', mine.some(), w, assume=have)
            rec_ = App('add', App('node', cache, ch.get()), cache, rest, Cat(path, One(d0)))
            ck.same('add: an existing child takes the rest of the element', mine.get(), rec_, w, assume=conj(have, ch.some(), mine.some()))
            for z in set(leaves(care(mine.get().n, conj(have, ch.none(), mine.some())))):
                zc = conj(have, ch.none(), mine.some(), cond_of(mine.get().n, lambda q: q is z))
                if zc is F:
                    continue
                lv_ = [n for i, n, _ in sets(l) if i is z]
                if not lv_:
                    ck.fail('add: a new child is written', w, show(z)[:200])
                    continue
                u = V(ungate(leaf(lv_[0])), NT, C)
                ck.holds('add: a new child is a leaf', u.children.none(), w, assume=zc)
                ck.same('add: a new child holds the rest of the element', u.hash, rest, w, assume=zc)
    # a leaf splits at the first difference
    isleaf = self.children.none()
    ws, single = [], []
    for c, l in chain(R.out['cache'], leafval(cache.n), conj(isleaf, ok)):
        ws += [(c, i, n) for i, n, lp in sets(l)]
        single += [n for i, n, lp in sets(l) if lp is None]
    leaves_ = [(c, i, V(ungate(leaf(n)), NT, C)) for c, i, n in ws]
    lf = [(c, i, v) for c, i, v in leaves_ if v.children.none() is T]
    both = [(c, i, v) for c, i, v in leaves_ if v.children.none() is F and len(new_ids(v.children.n)) == 2]
    if conj(isleaf, ok) is F:
        return ck.fail('add: a leaf is split', w, 'no path of the operation on a leaf succeeds')
    forks = [v for v in (V(ungate(leaf(n)), NT, C) for n in dict.fromkeys(single)) if v.children.none() is F]
    if len(lf) == 2 and len(forks) == 1 and len(new_ids(forks[0].children.n)) == 1 and not any(x.op == 'unk' for x in subterms(forks[0].children.n)):
        return ck.fail('add: one branch for the old and one for the new element', w, show(forks[0].children.n)[:160])
    if len(lf) != 2 or len(both) != 1:
        ck.und('add: splitting a leaf', w, '%d leaves, %d forks' % (len(lf), len(both)))
        return
    c, _, fork = both[0]
    ids = {i: v for _, i, v in lf}
    srcs = {}
    for x in subterms(fork.children.n):
        if x.op == 'store':
            z = leafval(ungate(leaf(x.args[2]))).args[3][0]
            srcs[z] = x.args[1]
    for z, at in srcs.items():
        if z not in ids:
            ck.fail('add: the fork refers to the two leaves it wrote', w, show(z)[:200])
            continue
        # at = s[k], leaf = s[k+1..]
        s, k = at.args[0], at.args[1]
        h = leafval(ids[z].hash.n)
        whole = {leafval(self.hash.n): self.hash, leafval(d.n): d}
        if s not in whole:
            ck.und('add: the fork branches on the two elements', w, show(at)[:120])
            continue
        want = leafval(ungate(leaf(TM.slice_(s, TM.add(k, num(1)), leafval(nod(whole[s].len()))))))
        (ck.ok if h is want else ck.fail)('add: each half of a split leaf keeps what follows its branch byte', w, show(h)[:160])
        if k.op == 'whl':
            L = Loop(k.args[:6])
            kk = L.vars[k.args[6]]
            ck.iff('add: the split is where the elements first differ', L.back, Eq(leaf(TM.index(leafval(self.hash.n), kk)), leaf(TM.index(leafval(d.n), kk))), w)
            ck.holds('add: the search for the difference starts at the first byte', Eq(leaf(L.inits[k.args[6]]), 0), w)
            ck.same('add: and proceeds by one byte', L.next[k.args[6]], Add(leaf(kk), 1), w)
        elif is_num(k):
            ck.fail('add: the split is where the elements first differ', w, 'it is always at byte %s' % show(k))
    roots = {y.args[0] for y in srcs.values()}
    (ck.ok if roots == {leafval(self.hash.n), leafval(d.n)} else ck.fail)('add: one branch for the old and one for the new element', w, '')
    pre = [k.args[1] for k in srcs.values()]
    if pre and all(p is pre[0] for p in pre):
        ck.same('add: the fork holds its path', fork.hash, Cat(path, ungate(leaf(TM.slice_(leafval(d.n), num(0), pre[0])))), w, assume=c)
    # the nodes above the fork, one for each shared byte
    for c, l in chain(R.out['cache'], leafval(cache.n), conj(isleaf, ok)):
        for op, a in l:
            if op == 'loop':
                L, k = a
                for c2, bl in chain(nod(L.next[k]), L.vars[k]):
                    for i, n, _ in sets(bl):
                        v = V(ungate(leaf(n)), NT, C)
                        st = [x for x in subterms(v.children.n) if x.op == 'store']
                        if not st and not any(x.op in ('unk', 'whl') for x in subterms(v.children.n)):
                            ck.fail('add: a node for a shared byte leads to the node below it', w, 'it has no child: ' + show(v.children.n)[:80])
                            continue
                        if len(st) != 1 or st[0].args[1].op not in ('at', 'index') and len(st[0].args[1].args) != 2:
                            ck.und('add: shared bytes', w, 'form of the chain of nodes')
                            continue
                        at = st[0].args[1]
                        pos = at.args[1]
                        ck.same('add: a node for a shared byte holds its path', v.hash, Cat(path, ungate(leaf(TM.slice_(leafval(d.n), num(0), pos)))), w)
                        (ck.ok if at.args[0] in (leafval(d.n), leafval(self.hash.n)) else ck.fail)('add: shared bytes lead down the path of the element', w, show(at)[:100])
                        if pre and isinstance(L, Loop):
                            K = mk('sym', '#split')         # wherever the split is
                            TM.RNG.setdefault(K, (0, 2 ** 62))
                            pk = TM.subst(pos, {pre[0]: K})
                            go = lambda vs: leaf(TM.subst(pk, dict(zip(L.vars, [leafval(ungate(nod(q))) for q in vs]))))
                            ck.same('add: the first node above the fork is for the last shared byte', go(L.inits), Sub(leaf(K), 1), w, assume=Gt(leaf(K), 0))
                            ck.same('add: the next one is for the byte before', go(L.next), Sub(leaf(pk), 1), w, assume=Gt(leaf(pk), 0))
                            ck.iff('add: there is one for every shared byte', TM.subst(L.back, {pre[0]: K}), Ge(leaf(pk), 0), w)
                        z = leafval(ungate(leaf(st[0].args[2]))).args[3][0]
                        (ck.ok if z.op == 'lv' and z.args[0] == L.d else ck.fail)('add: a node for a shared byte leads to the node below it', w, show(z)[:100])


def node_remove(P, ck):
    f = P.fn('merkletrie::node::Node::remove')
    R = P.run(f, models=models(P))
    self, cache, key, path = R.p
    w = loc(f)
    C, NT = f['_c'], node_t(P)
    tab = self.children.get()
    k0 = el_at(key, num(0))
    ch = el_at(tab, k0)
    pre = conj(self.children.some(), Gt(key.len(), 0), ch.some())
    ck.holds('remove: succeeds with a working store', is_ok(R.ret), w, assume=pre)
    child = V(App('node', cache, ch.get()), NT, C)
    rest = slice_from(key, 1)
    ra = [child, cache, rest, Cat(path, One(k0))]
    n = 0
    for c, l in chain(R.out['cache'], leafval(cache.n), pre):
        ops = [op for op, _ in l]
        if not ops or ops[0] not in ('set', 'del'):
            ck.fail('remove: the changed node is written', w, str(ops)[:200])
            continue
        for y in set(leaves(care(payload(R.ret), c))):
            ws = [(i, m) for i, m, _ in sets(l) if i is y]
            if not ws:
                ck.fail('remove: the node it returns is written', w, show(y)[:200])
                continue
            n += 1
            v = V(care(ungate(leaf(ws[0][1])), c), NT, C)
            inner = conj(c, v.children.some())
            ck.holds('remove: an inner node is marked for re-hashing', is_true(v.dirty.n), w, assume=inner)
            ck.same('remove: an inner node holds its path until it is hashed', care(v.hash.n, inner) if inner is not F else path, path, w, assume=inner)
            if inner is not F:
                nt = v.children.get()
                kept_table(ck, 'remove', w, care(nt.n, inner), tab, k0)
                ck.holds('remove: the leaf is gone', el_at(nt, k0).none(), w, assume=conj(inner, child.children.none()))
                dn = conj(inner, child.children.some())
                ck.holds('remove: a changed child stays', el_at(nt, k0).some(), w, assume=dn)
                if conj(dn, el_at(nt, k0).some()) is not F:
                    ck.same('remove: a changed child is replaced by what became of it', el_at(nt, k0).get(), App('remove', *ra), w, assume=conj(dn, el_at(nt, k0).some()))
            # what is dropped is the child whose content moves up
            dels = [a[1] for op, a in l if op == 'del']
            col = conj(c, v.children.none())
            if len(dels) > 1:
                ck.und('remove: collapsing', w, '%d nodes dropped' % len(dels))
            elif dels and col is not F:
                st = [a for op, a in l if op == 'del'][0][0]
                src = V(App('node', st, ungate(leaf(dels[0]))), NT, C)
                ck.holds('remove: only a leaf is merged into its parent', src.children.none(), w, assume=col)
                h = leafval(care(v.hash.n, col)) if len(set(leaves(care(v.hash.n, col)))) == 1 else None
                if h is None or h.op != 'concat' or len(h.args[0]) != 2:
                    ck.fail('remove: the merged leaf is the branch byte and the rest', w, show(v.hash.n)[:160])
                else:
                    ck.same('remove: the merged leaf keeps the rest of the dropped one', care(ungate(leaf(h.args[0][1])), col), src.hash, w, assume=col)
            elif dels:
                ck.fail('remove: only a merged child is dropped', w, show(dels[0])[:160])
            elif col is not F:
                ck.holds('remove: a node that loses its children was merged', F, w, assume=col)
    if not n:
        raise Missing('writes of remove')


def node_hash(P, ck):
    f = P.fn('merkletrie::node::Node::calculate_hash')
    R = P.run(f, models=models(P))
    self, cache = R.p
    w = loc(f)
    C, NT = f['_c'], node_t(P)
    o = V(R.out['self'], self.t, C)
    todo = conj(self.children.some(), is_true(self.dirty.n))
    ck.same('hash: a leaf or clean node keeps its hash', o.hash, self.hash, w, assume=neg(todo))
    ck.same('hash: and the store', R.out['cache'], cache, w, assume=neg(todo))
    ck.holds('hash: afterwards the node is clean', neg(is_true(o.dirty.n)), w, assume=todo)
    ck.holds('hash: the children stay', veq(o.children, self.children), w)
    now = care(R.out['cache'], todo)
    if not is_leaf(now):
        ck.und('hash: the store after the children were hashed', w, '%d cases' % len(leaves(now)))
        return
    tab = self.children.get()
    # every dirty inner child is hashed and stored first
    x = leafval(now)
    if x.op != 'fold':
        ck.fail('hash: the dirty children are hashed first', w, show(x)[:200])
        return
    d, lo, hi, init, body = x.args[:5]
    acc = mk('lv', d, 'acc')
    ids = {y.args[1][1] for y in subterms(body) if y.op == 'app' and y.args[0] == 'node' and y.args[1][0] is acc}
    if len(ids) != 1:
        ck.und('hash: the dirty children', w, '%d ids' % len(ids))
        return
    cid = ids.pop()
    cv = V(App('node', leaf(acc), leaf(cid)), NT, C)
    due = conj(cv.children.some(), is_true(cv.dirty.n))
    step = If(due, App('set', App('hashed!', cv, leaf(acc)), leaf(cid), App('hashed', cv, leaf(acc))), leaf(acc))
    body = nod(body) if not isinstance(body, TM.Node) else body
    # domain: all present children, either directly or through a flattened sequence
    if hi is num(256):
        j = [y for y in subterms(leaf(cid)) if y.op == 'idx' and y.args[0] == d]
        slot = el_at(tab, leaf(j[0])) if j else None
        pres = slot.some() if slot is not None else F
        ck.same('hash: every present child is looked at', leaf(cid), slot.get() if slot is not None else num(0), w, assume=pres)
        ck.same('hash: a dirty inner child is hashed and stored, others stay', body, step, w, assume=pres)
        ck.same('hash: absent children change nothing', body, leaf(acc), w, assume=neg(pres))
    else:
        ck.same('hash: a dirty inner child is hashed and stored, others stay', body, step, w)
        seq = cid.args[0] if cid.op in ('at', 'index') or len(cid.args) == 2 else None
        full = seq is not None and seq.op == 'coll' and leaf_len(seq) is hi
        (ck.ok if full and flat_children(seq, tab) else ck.fail)('hash: every present child is looked at', w, show(cid)[:200])
    ck.holds('hash: from the first child', Eq(leaf(lo), 0), w)
    ck.same('hash: starting from the store it was given', init if isinstance(init, TM.Node) else leaf(init), cache, w)
    # what is hashed
    h = leafval(care(o.hash.n, todo)) if is_leaf(care(o.hash.n, todo)) else None
    if h is None or h.op != 'app' or h.args[0] != DIGEST_:
        ck.fail('hash: the node hash is a digest', w, show(care(o.hash.n, todo))[:200])
        return
    pre = h.args[1][0]
    if pre.op != 'concat' or len(pre.args[0]) != 3 or pre.args[0][2].op != 'coll':
        ck.fail('hash: the digest covers the path with its length and the children', w, show(pre)[:300])
        return
    a, b, l = pre.args[0]
    ck.same('hash: first the length of the path, then the path', Cat(leaf(a), leaf(b)), Cat(One(Rem(self.hash.len(), 256)), self.hash), w)
    dd, lo, hi = l.args[0], l.args[1], l.args[2]
    i = mk('idx', dd, lo, hi)
    slot = el_at(tab, leaf(i))
    cv = V(App('node', now, slot.get()), NT, C)
    ent = Cat(One(If(cv.children.none(), num(0), num(1))), One(Rem(cv.hash.len(), 256)), One(leaf(i)), cv.hash)
    el = l.args[3]
    ck.holds('hash: all 256 children in order', conj(Eq(leaf(lo), 0), Eq(leaf(hi), 256)), w)
    got = flat_el(el)
    ck.same('hash: a present child contributes kind, length, branch byte and fresh hash', got, ent, w, assume=slot.some())
    ck.same('hash: an absent child contributes nothing', got, EMPTY, w, assume=slot.none())


def flat_el(el):
    """The items one element of a flattened sequence contributes, as a sequence."""
    def one(x):
        parts = [ungate(leaf(y.args[0])) if y.op == 'splice' else mapleaves(ungate(leaf(y)), lambda z: leaf(mk('arr', (z,)))) for y in x]
        return Cat(*parts) if parts else EMPTY
    return ungate(mapleaves(el, one))


def leaf_len(x):
    return leafval(leaf(TM.length(x)))


def flat_children(seq, tab):
    """The sequence of the ids present in a child table, in order."""
    d, lo, hi, el = seq.args[0], seq.args[1], seq.args[2], seq.args[3]
    if lo is not num(0) or hi not in (num(256), leaf_len(leafval(tab.n))):
        return False
    el = ungate(el if isinstance(el, TM.Node) else leaf(el))
    slot = leafval(el_at(tab, leaf(mk('idx', d, lo, hi))).n)
    return all(len(x) == 1 and x[0].op == 'splice' and x[0].args[0] is slot for x in leaves(el))


def cache(P, ck):
    f = P.fn(CACHE + 'allocate_new_node')
    R = P.run(f)
    self, = R.p
    w = loc(f)
    C, NT = f['_c'], node_t(P)
    r = R.v
    n = V(r.f('0').n, NT, C)
    o = V(R.out['self'], self.t, C)
    ck.same('allocate: a fresh node has the next id', r.f('1'), self.next_node_id, w)
    ck.same('allocate: ids are not handed out twice', o.next_node_id, Add(self.next_node_id, 1), w)
    ck.holds('allocate: a fresh node is an empty leaf', conj(n.children.none(), Eq(n.hash.len(), 0)), w)
    same_map(ck, 'allocate', w, o.cache, self.cache, self.next_node_id, n)
    f = P.fn(CACHE + 'get_node')
    DE = 'crypto::merkletrie::node::Node::deserialize'
    R = P.run(f, opaque=['Node::deserialize'], fallible=lambda n: 'torage::' in n)
    self, i = R.p
    w = loc(f)
    o = V(R.out['self'], self.t, C)
    ld = [x for x in subterms(R.ret) if x.op == 'app' and x.args[0].endswith('load_node<dyn crypto::merkletrie::storage::Storage>')]
    if len(ld) != 1:
        raise Missing('the load of a node')
    ld = leaf(ld[0])
    (ck.ok if leafval(ld).args[1][1] is leafval(i.n) else ck.fail)('get: loads the node asked for', w, show(ld)[:200])
    hit = is_some(lookup(self.cache, i))
    raw = payload(ld)
    dec = App(DE, payload(raw, 'Some'))
    ck.holds('get: no crash', neg(panics(R)), w)
    ck.holds('get: a storage error is returned', neg(is_ok(R.ret)), w, assume=R.err)
    ck.holds('get: a node that is nowhere is an error', neg(is_ok(R.ret)), w, assume=conj(neg(hit), neg(is_some(raw))))
    ck.holds('get: a node that does not decode is an error', neg(is_ok(R.ret)), w, assume=conj(neg(hit), is_some(raw), neg(is_some(dec))))
    ck.same('get: what the cache holds', payload(R.ret), payload(lookup(self.cache, i), 'Some'), w, assume=conj(hit, is_ok(R.ret)))
    ck.same('get: or what the store holds', payload(R.ret), payload(dec, 'Some'), w, assume=conj(neg(hit), is_ok(R.ret)))
    ck.holds('get: succeeds if the store has the node', is_ok(R.ret), w, assume=conj(is_ok(ld), is_some(raw), is_some(dec)))
    ck.same('get: no id is used up', o.next_node_id, self.next_node_id, w)
    for x in set(leaves(o.cache.n)):
        ok = x is leafval(self.cache.n) or x.op == 'mapins' and x.args[0] is leafval(self.cache.n) and x.args[1] is leafval(i.n) and x.args[2] is leafval(payload(dec, 'Some'))
        (ck.ok if ok else ck.fail)('get: at most the decoded node is remembered', w, show(x)[:200])
    for nm in ('set_node', 'delete_node'):
        f = P.fn(CACHE + nm)
        R = P.run(f, opaque=['Node::serialize'], fallible=lambda n: 'torage::' in n)
        self, i = R.p[:2]
        w = loc(f)
        o = V(R.out['self'], self.t, C)
        sts = [(c, dv) for n, c, dv, _, _ in R.I.fxlog if n.endswith('store_node<dyn crypto::merkletrie::storage::Storage>')]
        if len(sts) != 1:
            ck.fail(nm + ': written to the store', w, '%d writes' % len(sts))
            continue
        c, dv = sts[0]
        ck.holds(nm + ': always written to the store', c, w)
        ck.same(nm + ': under its own id', dv[1], i, w)
        ck.iff(nm + ': fails exactly if the store does', neg(is_ok(R.ret)), R.err, w)
        ck.holds(nm + ': no crash', neg(panics(R)), w)
        ck.same(nm + ': no id is used up', o.next_node_id, self.next_node_id, w)
        if nm == 'set_node':
            ck.same(nm + ': as serialized', dv[2], App('crypto::merkletrie::node::Node::serialize!1', R.p[2], EMPTY), w)
            same_map(ck, nm, w, o.cache, self.cache, i, R.p[2])
        else:
            ck.same(nm + ': as nothing', dv[2], EMPTY, w)
            ck.same(nm + ': and forgotten', o.cache, ungate(mapleaves(nod(self.cache), lambda x: leaf(TM.app('mapdel', x, leafval(i.n))))), w)


def lookup(m, k):
    return App('get', m, k)


def same_map(ck, name, w, got, cur, k, v):
    want = leaf(mk('mapins', leafval(nod(cur)), leafval(nod(k)), leafval(nod(v))))
    ck.same(name + ': remembered in the cache', got, want, w)


def storage(P, ck):
    n = 0
    for f in P.fns(item='load_node') + P.fns(item='store_node'):
        if f.get('trait') != 'crypto::merkletrie::storage::Storage' or not f.get('blocks'):
            continue
        n += 1
        R = P.run(f, fallible=lambda n: n.startswith('sled::'))
        w = loc(f)
        name = f['path'].split(' as ')[0].strip('<').split('::')[-1] + '::' + f['item']
        ck.holds(name + ': no crash', neg(panics(R)), w)
        ck.iff(name + ': fails exactly if the database does', neg(is_ok(R.ret)), R.err, w)
        if name.startswith('Tree::'):
            key = App('be8', R.p[1])
            if f['item'] == 'load_node':
                g = [x for x in subterms(R.ret) if x.op == 'app' and 'get' in x.args[0] and len(x.args[1]) == 2]
                g = g[0] if g else None
                if g is None:
                    raise Missing('lookup in the tree')
                (ck.ok if g.args[1][1] is leafval(key) else ck.fail)(name + ': reads the key of the node', w, show(g)[:160])
                ck.same(name + ': returns what is stored', payload(R.ret), payload(leaf(g)), w, assume=is_ok(R.ret))
            else:
                empty = Eq(R.p[2].len(), 0)
                for e in R.events:
                    ck.same(name + ': uses the key of the node', e.args[1], key, w)
                rm = disj(*[e.cond for e in R.events if e.name.endswith('remove')] or [F])
                ins = disj(*[e.cond for e in R.events if e.name.endswith('insert')] or [F])
                ck.iff(name + ': empty content removes', rm, empty, w)
                ck.iff(name + ': other content is inserted', ins, neg(empty), w)
                for e in R.events:
                    if e.name.endswith('insert'):
                        ck.same(name + ': the content itself', e.args[2], R.p[2], w, assume=e.cond)
        else:
            self, i = R.p[:2]
            if f['item'] == 'load_node':
                ck.same(name + ': returns what is stored', payload(R.ret), App('get', self.mem_store, i), w)
            else:
                o = V(R.out['self'], self.t, f['_c'])
                m = leafval(nod(self.mem_store))
                k, v = leafval(i.n), leafval(R.p[2].n)
                ck.same(name + ': stores or removes the content', o.mem_store,
                        If(Eq(R.p[2].len(), 0), leaf(TM.app('mapdel', m, k)), leaf(mk('mapins', m, k, v))), w)
    if n < 4:
        raise Missing('the storage implementations')


def failing(y):
    """The outcome of a fallible trie or storage operation."""
    return y.op == 'app' and y.args[0].startswith('try ')


def if_all_succeed(n):
    """The condition in the case that no fallible step fails."""
    for v in support(n):
        x = TM.VARS[v]
        if x.op == 'var' and failing(x.args[0]) and x.args[1] == 'Ok' or x.op == 'all' and any(failing(y) for y in subterms(leaf(x))):
            n = TM.restrict(n, v, True)
    return n


def errors(P, ck):
    """A failure of any callee is returned, publishes nothing and crashes nothing."""
    M = models(P, True)
    for name in ('trie::Trie::add', 'trie::Trie::delete', 'trie::Trie::root_hash', 'node::Node::find', 'node::Node::add', 'node::Node::remove', 'node::Node::calculate_hash'):
        f = P.fn('merkletrie::' + name)
        own = name.split('::', 1)[1]
        R = P.run(f, models=M)
        w = loc(f)
        if R.err is F:
            ck.fail(own + ': fallible steps', w, 'no step of this operation can fail')
            continue
        ck.holds(own + ': a failure is returned', neg(is_ok(R.ret)), w, assume=conj(R.err, neg(panics(R))), free=lambda v: v.op == 'var' and failing(v.args[0]))
        pre = T
        if own in ('Node::add', 'Node::remove', 'Node::find'):
            # called with the rest of an element on the path; removal only of what is there
            pre = disj(R.p[0].children.none(), Gt(R.p[2].len(), 0))
            if own == 'Node::remove':
                pre = conj(pre, R.p[0].children.some(), el_at(R.p[0].children.get(), el_at(R.p[2], num(0))).some())
        crash = conj(panics(R), pre)
        ck.holds(own + ': a failure is not turned into a crash', neg(conj(crash, neg(if_all_succeed(crash)))), w)
        for stop, g, L in R.I.loop_stops:
            bad = conj(stop, neg(if_all_succeed(stop)))      # the abort that exists because of a failed operation, in whatever iteration
            if conj(TM.axioms(bad), bad) is F:
                ck.ok(own + ': a failure within a loop is not turned into a crash', w)
            else:
                ck.fail(own + ': a failure within a loop is not turned into a crash', w, f'{loc(g)} aborts within a loop when a trie or storage operation fails')
        if own in ('Trie::add', 'Trie::delete', 'Trie::root_hash'):
            self = R.p[0]
            o = V(R.out['self'], self.t, f['_c'])
            ck.holds(own + ': no new root is published on failure', veq(o.root, self.root), w, assume=R.err)
            ck.same(own + ': the element length stays on failure', o.element_length, self.element_length, w, assume=R.err)


def node_of(P, hash, children):
    return V(rec(P, 'merkletrie::node::Node', dirty=leaf(TM.FALSE), hash=hash, children=children), node_t(P), P.lib)


def collapse(P, ck):
    """Removal below a node with one, two or three children (branches at known bytes, everything else symbolic)."""
    f = P.fn('merkletrie::node::Node::remove')
    w = loc(f)
    C, NT = f['_c'], node_t(P)
    self, cache, key, path = P.params(f)[1]
    ids = {b: leaf(mk('sym', 'id%d' % b)) for b in (0, 3, 200, 255)}
    for x in ids.values():
        TM.RNG[leafval(x)] = (0, U64)
    rest = leaf(mk('sym', 'rest'))
    TM.RNG.setdefault(leafval(TM_len(rest)), (0, 63))
    for tab in ((3,), (0, 3), (3, 255), (3, 200), (0, 3, 255)):
        t = mk('rep', NONE_(), num(256))
        for b in tab:
            t = TM.store(t, num(b), TM.some(leafval(ids[b])))
        me = node_of(P, self.hash, Some_(leaf(t)))
        d = Cat(One(num(3)), rest)
        R = P.run(f, args=[me, cell('cache'), d, path], cells={'cache': nod(cache)}, models=models(P), eager=1)
        n0 = V(App('node', cache, ids[3]), NT, C)
        gone = n0.children.none()
        sub_ = [n0, cache, rest, Cat(path, One(num(3)))]
        for case, cond in (('a leaf', gone), ('part of a subtree', neg(gone))):
            base = nod(cache) if cond is gone else App('remove!', *sub_)
            left = [(b, ids[b]) for b in sorted(tab) if b != 3]
            if cond is not gone:
                left.append((3, App('remove', *sub_)))
            if not left:
                continue
            nm = 'removing %s below branches %s: ' % (case, sorted(tab))
            ck.implies(nm + 'succeeds', cond, conj(is_ok(R.ret), neg(panics(R))), w)
            ck.same(nm + 'the node keeps its id', payload(R.ret), ids[3], w, assume=cond)
            only = V(App('node', base, left[0][1]), NT, C)
            merged = conj(cond, only.children.none()) if len(left) == 1 else F
            stays = conj(cond, neg(merged))
            for c, l in chain(R.out['cache'], leafval(nod(cache)), cond):
                if conj(c, cond) is F:
                    continue
                c = conj(c, cond)
                if not l or l[0][0] != 'set':
                    ck.fail(nm + 'the node is written last', w, str(l)[:200])
                    continue
                before, i, n = l[0][1]
                ck.same(nm + 'the node is written under its id', leaf(i), ids[3], w, assume=c)
                v = V(deep(ungate(leaf(n)), c), NT, C)
                for want, cc in ((True, conj(c, merged)), (False, conj(c, stays))):
                    if cc is F:
                        continue
                    if want:
                        ck.holds(nm + 'an only leaf is merged into the node', v.children.none(), w, assume=cc)
                        ck.same(nm + 'the merged leaf holds its branch byte and remainder', v.hash, Cat(One(num(left[0][0])), only.hash), w, assume=cc)
                        ck.same(nm + 'the merged leaf is dropped from the store, nothing else is', leaf(before), App('del', base, left[0][1]), w, assume=cc)
                    else:
                        ck.holds(nm + 'otherwise the node stays an inner node', v.children.some(), w, assume=cc)
                        ck.same(nm + 'nothing else changes in the store', leaf(before), base, w, assume=cc)
                        ck.same(nm + 'it holds its path', v.hash, path, w, assume=cc)
                        ck.holds(nm + 'it is to be hashed again', is_true(v.dirty.n), w, assume=cc)
                        for b in (0, 3, 4, 200, 255):
                            have = dict(left).get(b)
                            slot = v.children.get().at(num(b))
                            ck.same(nm + 'branch %d is %s' % (b, 'kept' if have is not None else 'absent'), slot, Some_(have) if have is not None else leaf(NONE_()), w, assume=cc)


def NONE_():
    return TM.NONE


def TM_len(n):
    return leaf(TM.length(leafval(n)))


def open_bytes(name):
    """A byte sequence of unknown length and content."""
    x = leaf(mk('sym', name))
    TM.RNG.setdefault(leafval(TM_len(x)), (0, 63))
    return x


def split_paths(P, ck):
    """Insertion below a leaf that shares its first bytes with the new element: every node from the new one down."""
    f = P.fn('merkletrie::node::Node::add')
    w = loc(f)
    C, NT = f['_c'], node_t(P)
    self, cache, key, path = P.params(f)[1]
    for j in range(4):
        common = tuple(num(x) for x in (9, 0, 255)[:j])
        tail_old, tail_new = open_bytes('old'), open_bytes('new')
        old = Cat(leaf(mk('arr', common + (num(7),))), tail_old)
        new = Cat(leaf(mk('arr', common + (num(4),))), tail_new)
        me = node_of(P, old, leaf(TM.NONE))
        nm = 'splitting a leaf after %d shared bytes: ' % j
        R = P.run(f, args=[me, cell('cache'), new, path], cells={'cache': nod(cache)}, models=models(P), eager=1)
        ck.holds(nm + 'succeeds', conj(is_ok(R.ret), neg(panics(R))), w)
        for c, l in chain(R.out['cache'], leafval(nod(cache))):
            def at(i):
                for k, (op, a) in enumerate(l):
                    if op == 'set' and a[1] is i:
                        return V(ungate(leaf(a[2])), NT, C)
                raise Missing('the write of node ' + show(i)[:100])
            i = leafval(care(payload(R.ret), c))
            for k in range(j + 1):
                v = at(i)
                ck.holds(nm + 'node %d is an inner node to be hashed' % k, conj(v.children.some(), is_true(v.dirty.n)), w, assume=c)
                ck.same(nm + 'node %d holds its path' % k, v.hash, Cat(path, leaf(mk('arr', common[:k]))) if k else path, w, assume=c)
                t = v.children.get()
                want = {common[k]} if k < j else {num(7), num(4)}
                for b in (num(0), num(4), num(7), num(9), num(255)):
                    ck.iff(nm + 'node %d has exactly the branches it needs (%s)' % (k, show(b)), t.at(b).some(), T if b in want else F, w, assume=c)
                if k < j:
                    i = leafval(care(t.at(common[k]).get().n, conj(c, t.at(common[k]).some())))
                    continue
                for b, tail in ((num(7), tail_old), (num(4), tail_new)):
                    x = t.at(b)
                    y = at(leafval(care(x.get().n, conj(c, x.some()))))
                    ck.holds(nm + 'a leaf for each element', y.children.none(), w, assume=c)
                    ck.same(nm + 'a leaf holds its remainder', y.hash, tail, w, assume=c)
        R = P.run(f, args=[me, cell('cache'), new, path], cells={'cache': nod(cache)}, models=models(P, True), eager=20)
        ck.holds(nm + 'a failure is returned', neg(is_ok(R.ret)), w, assume=R.err)
        ck.holds(nm + 'each write can fail', neg(R.err is F and T or F), w)


def hash_few(P, ck):
    """Hashing a node with known branches: every inner child to be hashed is, and every child is committed to."""
    f = P.fn('merkletrie::node::Node::calculate_hash')
    w = loc(f)
    C, NT = f['_c'], node_t(P)
    self, cache = P.params(f)[1]
    for tab in ((), (0,), (5, 255), (0, 5, 200)):
        ids = {b: leaf(mk('sym', 'id%d' % b)) for b in tab}
        t = mk('rep', TM.NONE, num(256))
        for b in tab:
            TM.RNG[leafval(ids[b])] = (0, U64)
            t = TM.store(t, num(b), TM.some(leafval(ids[b])))
        me = V(rec(P, 'merkletrie::node::Node', dirty=leaf(TM.TRUE), hash=self.hash, children=Some_(leaf(t))), NT, P.lib)
        R = P.run(f, args=[cell('self'), cell('cache')], cells={'self': me.n, 'cache': nod(cache)}, models=models(P), eager=1)
        nm = 'hashing a node with branches %s: ' % (list(tab),)
        ck.holds(nm + 'succeeds', conj(is_ok(R.ret), neg(panics(R))), w)
        cur = nod(cache)
        for b in tab:
            ch = V(App('node', cur, ids[b]), NT, C)
            cur = If(conj(ch.children.some(), is_true(ch.dirty.n)), App('set', App('hashed!', ch, cur), ids[b], App('hashed', ch, cur)), cur)
        ck.same(nm + 'inner children are hashed and stored first', R.out['cache'], cur, w)
        pre = Cat(One(Rem(self.hash.len(), 256)), self.hash)
        for b in tab:
            ch = V(App('node', cur, ids[b]), NT, C)
            pre = Cat(pre, One(If(ch.children.none(), num(0), num(1))), One(Rem(ch.hash.len(), 256)), One(num(b)), ch.hash)
        o = V(R.out['self'], NT, C)
        ck.same(nm + 'the hash covers path and children', o.hash, App(DIGEST_, pre), w)
        ck.holds(nm + 'the node is clean', neg(is_true(o.dirty.n)), w)
