"""Shared rules for the dense Merkle tree: layer construction."""
from spec import *

UP = 'crypto::merklearray::partial::PartialLayer::up'
LUP = 'crypto::merklearray::layer::Layer::up'


def only(ls, what):
    if len(ls) != 1:
        raise Missing('the only loop of ' + what)
    return ls[0]


def node(l, r):
    return digest(Cat(nod(K('bytes', (77, 65))), l, r))


def layer_up(P, ck):
    """Layer::up halves a layer, padding with a zero hash."""
    f = P.fn('Layer::up')
    R = P.run(f)
    s = R.p[0]
    w = loc(f)
    ck.holds('one layer up: never aborts', neg(panics(R)), w)
    ck.holds('one layer up: half as many nodes, rounded up', Eq(R.v.len(), Div(Add(s.len(), 1), 2)), w)
    d = newd()
    hi = R.v.len()
    if not is_leaf(hi):
        raise Missing('length of a layer')
    i = leaf(mk('idx', d, num(0), leafval(hi)))
    l, r = Mul(2, i), Add(Mul(2, i), 1)
    zh = default_val(P, s.el())
    ck.same('one layer up: node i hashes children 2i and 2i+1, a missing right child being zero', R.v.at(leafval(i)),
            node(s.at(leafval(l)), If(Lt(r, s.len()), s.at(leafval(r)), zh)), w)


def levels_loop(P, ck, label, levels, w):
    """The level list grows by one layer until the top layer has at most one node."""
    L = only(loops(levels.n), label)
    if len(L.inits) != 1:
        raise Missing('the only carried value of ' + label)
    cur = L.var(0, levels.t, levels.C)
    top = cur.at(sub(length(L.vars[0]), num(1)))
    ck.iff('%s: layers are added exactly while the top has more than one node' % label, L.back, Gt(top.len(), 1), w)
    ck.same('%s: every round adds the layer above the top one' % label, care(appended(L.next[0], L.vars[0]), L.back), App(LUP, top), w)
    ck.same('%s: the tree is what the last round left' % label, levels, L.at_end(0), w)
    return V(leaf(L.inits[0]), levels.t, levels.C)
