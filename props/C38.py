"""Payset commitment."""
from merkle import *

RULE = ('contents_match_header, payset_commit, the Merkle leaf of every transaction and the construction of the tree must each equal the reference definition, for every '
        'block and protocol; the whole tree over a payset of up to four transactions equals the reference tree')
PARTS = ['match', 'commit', 'leaves', 'array', 'layer_up', 'small_blocks']

FB = 'crypto::merklearray::merkle::Tree::from_block'
ROOT = 'crypto::merklearray::merkle::Tree::root'
PC = 'data::bookkeeping::block::Block::payset_commit'
DEC = 'data::bookkeeping::block::BlockHeader::decode_signed_tx'


def match(P, ck):
    f = P.fn('Block::contents_match_header')
    R = P.run(f, opaque=[PC])
    b = R.p[0]
    w = loc(f)
    c = App(PC, b)
    ck.holds('match: never aborts', neg(panics(R)), w)
    ck.iff('match: exactly if the commitment can be computed and is the header\'s', is_true(R.ret), conj(is_ok(c), veq(payload(c), b.header.tx_root)), w)


def commit(P, ck):
    f = P.fn('Block::payset_commit')
    R = P.run(f, opaque=[FB, ROOT])
    b = R.p[0]
    w = loc(f)
    sup, pr = params_of(P, b.header.upgrade_state.current_protocol)
    ty = pr.payset_commit
    tree = App(FB, b)
    flat, mer = ty.is_('Flat'), ty.is_('Merkle')
    ck.iff('commitment: exists exactly for a supported protocol and scheme, and decodable contents', is_ok(R.ret), conj(sup, disj(flat, conj(mer, is_ok(tree)))), w)
    want = If(flat, digest(Cat(nod(K('bytes', (80, 70))), App('msgpack', b.payset))), App(ROOT, payload(tree)))
    ck.same('commitment: flat is the hash of the payset, Merkle the root of the transaction tree', payload(R.ret), want, w, assume=is_ok(R.ret))
    g = P.fn('Block::tx_merkle_tree')
    Q = P.run(g, opaque=[FB])
    ck.same('the tree for proofs is the tree committed to', Q.ret, App(FB, Q.p[0]), loc(g))


def leafhash(tx, stib):
    txid = digest(Cat(nod(K('bytes', tuple(b'TX'))), App('msgpack', tx)))
    st = digest(Cat(nod(K('bytes', tuple(b'STIB'))), App('msgpack', stib)))
    return Cat(txid, st)


def leaves(P, ck):
    f = P.fn('Tree::from_block')
    R = P.run(f, opaque=[DEC, LUP])
    b = R.p[0]
    w = loc(f)
    ps = b.payset
    good = ps.all(lambda x: is_ok(App(DEC, b.header, x)))
    ck.iff('tree: built exactly if every transaction decodes', is_ok(R.ret), good, w)
    t = R.v.f('0', 'Ok')
    lv = V(care(t.n, is_ok(R.ret)), t.t, t.C)
    first = levels_loop(P, ck, 'tree', lv.levels, w)
    ck.holds('tree: starts from one layer', Eq(first.len(), 1), w)
    l0 = first.at(num(0))
    ck.holds('tree: one leaf per transaction', Eq(l0.len(), ps.len()), w)
    d = newd()
    i = mk('idx', d, num(0), leafval(ps.len()))
    st = ps.at(i)
    dt = P.type('SignedTxWithAD')
    stad = V(payload(App(DEC, b.header, st)), dt, b.C)
    want = digest(Cat(nod(K('bytes', tuple(b'TL'))), leafhash(stad.tx.tx, st)))
    ck.same('tree: leaf i is the hash of the id and the full encoding of transaction i', l0.at(i), want, w)


def array(P, ck):
    """The array form of the same leaves."""
    f = P.fn('TxMerkleElem::to_be_hashed')
    R = P.run(f)
    e = R.p[0]
    w = loc(f)
    ck.same('array element: tagged as a transaction leaf', R.v.f('0'), 'TL', w)
    ck.same('array element: commits to id and full encoding', R.v.f('1'), leafhash(e.tx, e.stib), w)
    f = P.fn('TxMerkleArray::from_block')
    R = P.run(f, opaque=[DEC])
    b = R.p[0]
    w = loc(f)
    ps = b.payset
    ck.iff('array: exists exactly if every transaction decodes', is_ok(R.ret), ps.all(lambda x: is_ok(App(DEC, b.header, x))), w)
    out = R.v.f('0', 'Ok')
    ck.holds('array: one element per transaction', Eq(out.len(), ps.len()), w, assume=is_ok(R.ret))
    i = mk('idx', newd(), num(0), leafval(ps.len()))
    x = V(care(out.n, is_ok(R.ret)), out.t, out.C).at(i)
    stad = V(payload(App(DEC, b.header, ps.at(i))), P.type('SignedTxWithAD'), b.C)
    ck.same('array: element i has the decoded transaction i', x.tx, stad.tx.tx, w)
    ck.same('array: element i has the encoding of transaction i', x.stib, ps.at(i), w)


def small_blocks(P, ck):
    """The whole tree and its root over paysets of up to four transactions."""
    f, g = P.fn('Tree::from_block'), P.fn('Tree::root')
    w = loc(f)
    b = P.sym('block', P.type('Block'))
    zh = default_val(P, P.type('CryptoHash'))
    dt = P.type('SignedTxWithAD')
    for n in range(5):
        ys = [P.sym('stib%d' % i, b.payset.at(num(0)).t) for i in range(n)]
        blk = rec(P, 'Block', header=b.header.n, payset=leaf(mk('arr', tuple(leafval(y.n) for y in ys))))
        R = P.run(f, args=[blk], opaque=[DEC], eager=1)
        good = conj(*[is_ok(App(DEC, b.header, y)) for y in ys]) if ys else T
        ck.iff('a payset of %d: a tree is built exactly if every transaction decodes' % n, is_ok(R.ret), good, w)
        t = R.v.f('0', 'Ok')
        t = V(care(t.n, is_ok(R.ret)), t.t, t.C)
        row = [digest(Cat(nod(K('bytes', tuple(b'TL'))), leafhash(V(payload(App(DEC, b.header, y)), dt, b.C).tx.tx, y))) for y in ys]
        k = 0
        while True:
            ck.implies('a payset of %d: layer %d has a node for every two below' % (n, k), good, Eq(t.levels.at(num(k)).len(), len(row)), w)
            for i, x in enumerate(row):
                ck.same('a payset of %d: node %d of layer %d' % (n, i, k), t.levels.at(num(k)).at(num(i)), x, w, assume=good)
            k += 1
            if len(row) <= 1:
                break
            row = [node(row[i], row[i + 1] if i + 1 < len(row) else zh) for i in range(0, len(row), 2)]
        ck.implies('a payset of %d: no layer above a single node' % n, good, Eq(t.levels.len(), k), w)
        Q = P.call(g, t)
        ck.same('a payset of %d: the root' % n, Q.ret, row[0] if row else zh, loc(g), assume=good)
