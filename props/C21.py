"""The byte form of trie nodes."""
from spec import *
import intrinsics as IT
import overflow

RULE = ('what Node::serialize appends to a buffer for a leaf must be read back by Node::deserialize as the same hash without children; for an inner node, the entries written are one per child, '
        'in strictly increasing order of their index, and one round of the reading loop over one entry must store exactly this child and end right behind the entry, must be taken up again iff the index is greater '
        'than the one before, and a failed read, an unordered index or a remaining input must lead to None; sizes of allocations must be bounded by the bytes given; no input may abort')
PARTS = ['writing', 'leaf_nodes', 'header', 'entries', 'order', 'failures', 'bounds', 'few_children']

ND = 'crypto::merkletrie::node::Node'
EMPTY = leaf(mk('arr', ()))
ALLOC = ('from_elem', 'with_capacity', 'with_capacity_in', 'reserve', 'reserve_exact', 'resize', 'repeat')


def u8(P):
    return [t for t in P.lib.T if t['k'] == 'int' and t['s'] == 'u8'][0]


def wfn(P):
    return P.fn(ND + '::serialize')


def rfn(P):
    return P.fn(ND + '::deserialize')


def node_t(P):
    return P.type(ND)


def written(P):
    """What is appended for a symbolic node: (function, node, run, diagram of byte sequences)."""
    f = wfn(P)
    s, cells = P.sym('self', node_t(P), P.lib), {'buf': EMPTY}
    R = P.run(f, args=[s.n, cell('buf')], cells=cells)
    return f, s, R, ungate(R.out['buf'])


def parts_of(t):
    """A byte sequence as a list of parts."""
    if t.op == 'concat':
        return list(t.args[0])
    return [t]


def forms(P):
    """(items of a leaf, items of an inner node before its entries, the entries as a coll term, node)"""
    f, s, R, out = written(P)
    inner = s.children.some()
    lf, nn = care(out, neg(inner)), care(out, inner)
    if not is_leaf(lf) or not is_leaf(nn):
        raise Missing('one byte sequence for a leaf and one for an inner node')
    a, b = parts_of(leafval(lf)), parts_of(leafval(nn))
    cs = [i for i, x in enumerate(b) if x.op == 'coll']
    if cs != [len(b) - 1]:
        raise Missing('entries of the children at the end of the encoding')
    return f, s, R, a, b[:-1], b[-1]


def cat(parts):
    return TM.concat(list(parts))


def log_reads():
    """Models which record the outcome of every read, and the size of every allocation."""
    def rd(key):
        h = IT.TRAITS[key]

        def m(c, *a):
            r = h(c, *a)
            if r is NotImplemented:
                return r
            c.I.recs.append(('read', c.cond, is_ok(r)))
            return r
        return m

    def al(c, *a):
        n = a[-1] if c.path.endswith(('from_elem', 'reserve', 'reserve_exact', 'repeat')) else a[1] if c.path.endswith('resize') else a[0]
        c.I.recs.append(('size', c.cond, IT.val(c, n), c.path))
        return NotImplemented
    M = {'Read::read_exact': rd(('std::io::Read', 'read_exact')), 'VarIntReader::read_varint': rd(('integer_encoding::VarIntReader', 'read_varint'))}
    for x in ALLOC:
        M[x] = al
    return M


def decode(P, bytes_, M=None):
    return P.run(rfn(P), args=[nod(bytes_)], models=M or {})


def bytes_sym(P, nm):
    b = P.sym(nm, P.lib.T[[i for i, t in enumerate(P.lib.T) if t['k'] == 'slice' and P.lib.T[t['of']]['s'] == 'u8'][0]], P.lib)
    return leafval(b.n)


def result(P, R):
    return V(R.ret, R.rt, R.f['_c'])


def writing(P, ck):
    f, s, R, out = written(P)
    w = loc(f)
    ck.holds('writing never aborts', neg(panics(R)), w)
    for g, c in ((s.children.some(), 'an inner node'), (neg(s.children.some()), 'a leaf')):
        ck.holds('writing goes through every loop to its end', neg(disj(*[x[0] for x in R.I.loop_stops])), w)
    b = P.sym('buf', [t for t in P.lib.T if (t.get('path') or '').endswith('vec::Vec') and t['s'].endswith('Vec<u8>')][0], P.lib)
    R2 = P.run(f, args=[s.n, cell('buf')], cells={'buf': b.n})
    ck.same('the encoding is appended to what is in the buffer', R2.out['buf'], ungate(TM.mapleaves(out, lambda x: leaf(TM.concat([leafval(b.n), x])))), w)


def leaf_nodes(P, ck):
    f, s, R, a, b, ent = forms(P)
    w = loc(rfn(P))
    D = decode(P, cat(a))
    v = result(P, D)
    ck.holds('a written leaf is decoded', v.some(), w)
    n = V(payload(D.ret, 'Some'), node_t(P), P.lib)
    ck.same('a decoded leaf has the hash that was written', n.hash, s.hash, w)
    ck.holds('a decoded leaf has no children', neg(n.children.some()), w)
    rest = bytes_sym(P, 'rest')
    D = decode(P, TM.concat([cat(a), rest]))
    ck.holds('bytes behind a leaf are an error', implies(Ge(leaf(TM.length(rest)), num(1)), neg(result(P, D).some())), w)


def header(P, ck):
    f, s, R, a, b, ent = forms(P)
    w = loc(rfn(P))
    D0 = decode(P, TM.concat([cat(b), bytes_sym(P, 'rest')]))
    if not has_unk(D0.ret) and not any(x.op in ('fold', 'coll', 'first', 'all') for x in subterms(D0.ret)):
        return ck.fail('the children of an inner node are decoded', w, 'nothing is read behind the header')
    D, L, st, rest = on_inner(P, b)
    H = cat(b)
    n = V(payload(D.ret, 'Some'), node_t(P), P.lib)
    empty = TM.norm_const(mk('rep', TM.NONE, num(256)))
    some = result(P, D).some()
    ck.same('a decoded inner node has the hash that was written', n.hash, s.hash, w, assume=some)
    end = V(at_stop(L, D.ret, {}), D.rt, P.lib)
    kids = V(payload(end.n, 'Some'), node_t(P), P.lib).children
    ck.holds('a decoded inner node has children', implies(conj(inv(L, st), end.some()), kids.some()), w)
    ck.same('the entries start right behind the header', nod(ungate1(L.inits[st.pos])), st.boundary(TM.concat([H, rest]), TM.length(H)), w)
    ck.same('decoding starts without children', st.childs(L.inits[st.kids]), leaf(empty), w)
    # the byte that tells the two kinds apart
    if len(a) != len(b):
        raise Missing('a tag which tells leaves from inner nodes')
    df = [i for i in range(len(a)) if a[i] is not b[i]]
    if len(df) != 1 or TM.length(a[df[0]]) is not num(1) or TM.length(b[df[0]]) is not num(1):
        raise Missing('a tag of one byte which tells leaves from inner nodes')
    i = df[0]
    tag = P.sym('tag', u8(P), P.lib)
    D = decode(P, TM.concat([cat(a[:i]), mk('arr', (leafval(tag.n),)), cat(a[i + 1:]), rest]))
    known = disj(*[Eq(tag, leaf(TM.index(x[i], num(0)))) for x in (a, b)])
    ck.holds('an unknown kind of node is an error', implies(result(P, D).some(), known), w)


def the_loop(D):
    return main_loop(D.ret)


class Roles:
    """Which carried values of the loop hold the place in the input and the children."""
    def boundary(self, buf, at):
        """The place `at` in buf, in the way this loop represents it."""
        return leaf(at if self.kind == 'pos' else TM.slice_(buf, at, TM.length(buf)))

    def childs(self, x):
        x = nod(ungate1(x)) if isinstance(x, Term) else ungate(x)
        return payload(x, 'Some') if self.opt else x


def ungate1(x):
    return ungate(leaf(x)) if isinstance(x, Term) else x


def roles(P, L, D):
    r = Roles()
    pos, kids = [], []
    for i, x in enumerate(L.inits):
        nx = nod(ungate1(x))
        ls = leaves(nx)
        if all(y.op == 'adt' and y.args[1] == 'Some' and holds_children(y.args[3][0]) for y in ls):
            kids.append(i)
            r.opt = True
        elif all(holds_children(y) for y in ls):
            kids.append(i)
            r.opt = False
        elif any(is_len(z) for z in subterms(L.next[i])):
            pos.append(i)
    if len(pos) != 1 or len(kids) != 1:
        raise Missing('the place in the input and the children among the carried values of the loop')
    r.pos, r.kids = pos[0], kids[0]
    r.kind = 'pos' if all(TM_int(y) for y in leaves(L.next[r.pos])) else 'rest'
    return r


def TM_int(y):
    return y.op in ('lin', 'num') or y in TM.RNG or y.op == 'k' and isinstance(y.args[0], int)


def is_len(z):
    return z.op == 'app' and z.args[0] == 'varint length'


def holds_children(y):
    return TM.length(y) is num(256)


def on_inner(P, header, M=None):
    """Reading an inner node with arbitrary bytes behind its header."""
    rest = bytes_sym(P, 'rest')
    D = decode(P, TM.concat([cat(header), rest]), M)
    L = the_loop(D)
    return D, L, roles(P, L, D), rest


def standing(L, st, buf, at, kids):
    """Substitution: the loop stands at `at` of buf with these children, whatever the other carried values."""
    return {L.vars[st.pos]: leafval(st.boundary(buf, at)), L.vars[st.kids]: TM.some(kids) if st.opt else kids}


def entry(ent):
    """(bound index, its range, condition, bytes) of the entries that are written."""
    d, lo, hi, e = ent.args
    out = []
    for x in set(leaves(e)):
        if x == ():
            continue
        out.append((cond_of(e, lambda z: z == x), TM.concat([y.args[0] if y.op == 'splice' else mk('arr', (y,)) for y in x])))
    if len(out) != 1:
        raise Missing('the entry of a child')
    return mk('idx', d, lo, hi), lo, hi, out[0][0], out[0][1]


def at_stop(L, n, m):
    """A value after the loop, for the given last state."""
    return TM.subst(L.stopped(n), m)


def entries(P, ck):
    f, s, R, a, b, ent = forms(P)
    w, w2 = loc(f), loc(rfn(P))
    iv, lo, hi, c, item = entry(ent)
    D, L, st, rest = on_inner(P, b)
    H = cat(b)
    arr = s.children.get()
    if not is_leaf(arr.n):
        raise Missing('children of the node')
    ck.same('entries: every slot is looked at', leaf(TM.sub(hi, lo)), num(256), w)
    i, j = leafval(P.sym('i', u8(P), P.lib).n), leafval(P.sym('j', u8(P), P.lib).n)
    at = lambda x, k: TM.subst(x, {iv: TM.add(lo, k)})
    it, ci = at(item, i), at(c, i)
    slot = TM.index(it, num(0))
    val = TM.index(leafval(arr.n), slot)
    ck.iff('entries: an entry is written iff the child of its index is there', ci, TM.is_variant(val, 'Some'), w)
    ck.holds('entries: they are written in strictly increasing order of their index', implies(TM.lt(i, j), TM.lt(slot, TM.index(at(item, j), num(0)))), w)
    PRE, REST = bytes_sym(P, 'pre'), bytes_sym(P, 'more')
    K = leafval(P.sym('kids', arr.t, P.lib).n)
    B = TM.concat([H, PRE, it, REST])
    m = {rest: TM.concat([PRE, it, REST])}
    m.update(standing(L, st, B, TM.length(TM.concat([H, PRE])), K))
    nx = [TM.subst(nod(x), m) for x in L.next]
    ck.same('entries: the reader stores the child that was written under its index', st.childs(nx[st.kids]), leaf(TM.store(K, slot, TM.some(TM.vfld(val, 'Some', '0')))), w2, assume=ci)
    ck.same('entries: the reader ends right behind the entry', nx[st.pos], st.boundary(B, TM.length(TM.concat([H, PRE, it]))), w2, assume=ci)
    # the first entry is always taken
    D1, L1, st1, _ = on_inner(P, b)
    m1 = {v: leafval(nod(ungate1(x))) for v, x in zip(L1.vars, L1.inits)}
    first = TM.subst(TM.subst(L1.back, m1), {rest: TM.concat([it, REST])})
    ck.holds('entries: the first entry is taken', implies(ci, first), w2)
    # the end of the input ends the loop, with the children collected so far
    whole = TM.concat([H, rest])
    m = standing(L, st, whole, TM.length(whole), K)
    ck.holds('entries: reading stops at the end of the input', neg(TM.subst(L.back, m)), w2)
    end = at_stop(L, D.ret, m)
    ck.holds('entries: a node is returned at the end of the input', V(end, D.rt, P.lib).some(), w2)
    n = V(payload(end, 'Some'), node_t(P), P.lib)
    ck.same('entries: the node has the children that were read', n.children, leaf(TM.some(K)), w2)
    ck.same('entries: the node has the hash that was written', n.hash, s.hash, w2)


def order(P, ck):
    f, s, R, a, b, ent = forms(P)
    w = loc(rfn(P))
    iv, lo, hi, c, item = entry(ent)
    D, L, st, rest = on_inner(P, b)
    H = cat(b)
    i, j = leafval(P.sym('i', u8(P), P.lib).n), leafval(P.sym('j', u8(P), P.lib).n)
    arr = s.children.get()
    K = leafval(P.sym('kids', arr.t, P.lib).n)
    at = lambda x, k: TM.subst(x, {iv: TM.add(lo, k)})
    PRE, REST = bytes_sym(P, 'pre'), bytes_sym(P, 'more')
    B = TM.concat([H, PRE, at(item, i), at(item, j), REST])
    m = {rest: TM.concat([PRE, at(item, i), at(item, j), REST])}
    m.update(standing(L, st, B, TM.length(TM.concat([H, PRE])), K))
    nx = [TM.subst(nod(x), m) for x in L.next]
    took = TM.subst(L.back, m)
    m2 = dict(m)
    m2.update({v: TM.gate(x) for v, x in zip(L.vars, nx)})
    again = TM.subst(L.back, m2)
    both = conj(at(c, i), at(c, j), took)
    ck.iff('order: after an entry, the next one is taken iff its index is greater', again, TM.lt(TM.index(at(item, i), num(0)), TM.index(at(item, j), num(0))), w, assume=both)
    # arbitrary bytes: whatever the loop takes is in order
    whole = TM.concat([H, rest])
    m = {v: TM.gate(x) for v, x in zip(L.vars, [nod(x) for x in L.next])}
    pos, pos2 = L.vars[st.pos], m[L.vars[st.pos]]
    byte = lambda p: TM.index(whole, p) if st.kind == 'pos' else TM.index(p, num(0))
    ck.holds('order: indices that are not strictly increasing are never taken', implies(conj(inv(L, st), L.back, TM.subst(L.back, m)), TM.lt(byte(pos), byte(pos2))), w)
    end = V(at_stop(L, D.ret, {}), D.rt, P.lib)
    ck.holds('order: input left over by the loop is an error', implies(conj(inv(L, st), neg(L.back), left(L, st, whole)), neg(end.some())), w)


def left(L, st, buf):
    """There is input left at the place of the loop."""
    p = L.vars[st.pos]
    return TM.lt(p, TM.length(buf)) if st.kind == 'pos' else TM.lt(num(0), TM.length(p))


def inv(L, st):
    """What every state of the loop has: the children exist."""
    return TM.is_variant(L.vars[st.kids], 'Some') if st.opt else T


def failures(P, ck):
    """A read that fails leads to None, in and outside of the loop."""
    M = log_reads()
    buf = bytes_sym(P, 'buf')
    D = decode(P, buf, M)
    f = rfn(P)
    w = loc(f)
    L = the_loop(D)
    st = roles(P, L, D)
    reads = [x[1:] for x in D.I.recs if x[0] == 'read']
    if not reads:
        raise Missing('a read which may fail')
    for k, (c, good) in enumerate(reads):
        bad = L.recorded(D.I, conj(c, neg(good)))
        inside = any(x in L.vars for v in support(bad) for x in subterms(leaf(TM.VARS[v])))
        if not inside:
            ck.holds('failures: nothing is returned after a failed read (%d)' % (k + 1), implies(bad, neg(result(P, D).some())), w)
        else:
            ck.holds('failures: no further entry after a failed read (%d)' % (k + 1), neg(conj(inv(L, st), bad, L.back)), w)
            ck.holds('failures: nothing is returned after a failed read of an entry (%d)' % (k + 1), implies(conj(inv(L, st), bad), neg(V(at_stop(L, D.ret, {}), D.rt, P.lib).some())), w)


def bounds(P, ck):
    M = log_reads()
    buf = bytes_sym(P, 'buf')
    D = decode(P, buf, M)
    f = rfn(P)
    w = loc(f)
    L = the_loop(D)
    st = roles(P, L, D)
    ck.holds('bounds: no input makes the decoder abort', neg(panics(D)), w)
    for stop, g, l in D.I.loop_stops:
        ck.holds('bounds: no input makes a round of the loop abort', neg(conj(L.recorded(D.I, stop), inv(L, st))), w)
    ck.holds('bounds: the loop starts with children', T if not st.opt else TM.is_variant(L.inits[st.kids], 'Some'), w)
    ck.holds('bounds: the loop keeps the children', T if not st.opt else implies(conj(inv(L, st), L.back), conj(*[TM.is_variant(x, 'Some') for x in leaves(nod(L.next[st.kids]))])), w)
    for _, c, n, path in [x for x in D.I.recs if x[0] == 'size']:
        ck.holds('bounds: an allocation is no larger than the input (%s)' % path.split('::')[-1], L.recorded(D.I, implies(c, Le(n, leaf(TM.length(buf))))), w)
    p, q = leaf(L.vars[st.pos]), nod(L.next[st.pos])
    if st.kind == 'pos':
        ok = conj(Lt(p, q), Le(q, leaf(TM.length(buf))))
    else:
        ok = Lt(App_len(q), App_len(p))
    ck.holds('bounds: a round of the loop moves on, within the input', implies(conj(inv(L, st), L.back), ok), w)


def App_len(n):
    return TM.mapleaves(n, lambda x: leaf(TM.length(x)))


TABLES = ((), (3,), (0, 200), (1, 2, 255))


def few_children(P, ck):
    """Both functions as a whole, on nodes with up to three children of unconstrained ids and an unconstrained hash."""
    f, g = wfn(P), rfn(P)
    h = leaf(mk('sym', 'hash'))
    TM.RNG[TM.length(leafval(h))] = (0, 64)
    for tab in TABLES:
        for inner in ((True,) if tab else (False, True)):
            t, ids = mk('rep', TM.NONE, num(256)), {}
            for b in tab:
                ids[b] = mk('sym', 'id%d' % b)
                TM.RNG[ids[b]] = (0, 2**64 - 1)
                t = TM.store(t, num(b), TM.some(ids[b]))
            nd = rec(P, ND, dirty=leaf(TM.FALSE), hash=h, children=Some_(leaf(t)) if inner else leaf(TM.NONE))
            R = P.run(f, args=[nd, cell('buf')], cells={'buf': EMPTY}, eager=1)
            what = 'an inner node with children %s' % list(tab) if inner else 'a leaf'
            ck.holds('writing %s never aborts' % what, neg(panics(R)), loc(f))
            Q = P.run(g, args=[R.out['buf']], eager=4)
            v = result(P, Q)
            ck.holds('%s is read back' % what, v.some(), loc(g))
            ck.holds('reading %s never aborts' % what, neg(panics(Q)), loc(g))
            n = V(payload(Q.ret, 'Some'), node_t(P), P.lib)
            ck.same('%s is read back with its hash' % what, n.hash, h, loc(g), assume=v.some())
            ck.holds('%s is read back as what it is' % what, implies(v.some(), n.children.some() if inner else neg(n.children.some())), loc(g))
            if inner:
                kids = n.children.get()
                for b in range(256):
                    want = leaf(TM.some(ids[b])) if b in ids else leaf(TM.NONE)
                    ck.same('%s is read back with its child %d' % (what, b), kids.at(num(b)), want, loc(g), assume=conj(v.some(), n.children.some()))
