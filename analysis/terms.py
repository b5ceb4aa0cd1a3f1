"""Hash-consed terms, linear integer forms and (multi-terminal) binary decision diagrams over atoms.

Terms name program values; a decision-diagram variable ("atom") is a primitive condition on terms.
Everything here is a purely syntactic, canonical value domain for the dataflow analysis in interp.py.
"""
import sys


class Term:
    __slots__ = ('op', 'args', 'id', 'bv', '_h')

    def __repr__(self):
        return show(self)


_tab = {}
_all = []
LEN = {}       # term -> known length
DYN = set()    # terms whose length is tested somewhere: a type they are converted to does not say it
RNG = {}       # term -> (lo, hi) integer range
KIND = {}      # term -> type record (debugging / expansion)


QUANT = ('all', 'sum', 'coll', 'fold', 'first', 'loopx', 'whl', 'sorted')
_qh = {}


def qheight(x):
    """Nesting height of the binders in a term (binders are numbered by height once built)."""
    if not isinstance(x, (Term, Node, tuple)):
        return 0
    r = _qh.get(x)
    if r is None:
        if isinstance(x, Node):
            r = qheight(x.hi[1]) if x.var is None else max(qheight(VARS[x.var]), qheight(x.hi), qheight(x.lo))
        elif isinstance(x, tuple):
            r = max([qheight(y) for y in x] or [0])
        elif x.op in QUANT:
            r = max(x.args[0] if x.args[0] < 1000 else 0, max(qheight(y) for y in x.args[1:]))
        else:
            r = max([qheight(y) for y in x.args] or [0])
        _qh[x] = r
    return r


def mkq(op, d, lo, hi, *rest):
    """Builds a binder; the bound index is renumbered by nesting height so that equal binders are equal terms."""
    h = 1 + max([qheight(x) for x in rest] or [0])
    bv = frozenset()
    for x in rest:
        bv |= node_bv(x) if isinstance(x, Node) else x.bv if isinstance(x, Term) else _tup_bv(x) if isinstance(x, tuple) else frozenset()
    own = [x for x in bv if x.args[0] == d]
    taken = {x.args[0] for x in bv if x.args[0] != d}
    while h in taken:
        h += 1
    if h != d and own:
        m = {x: mk(x.op, h, *x.args[1:]) for x in own}
        for x, y in m.items():
            if x in RNG and y not in RNG:
                RNG[y] = RNG[x]
        rest = tuple(_sub_any(x, m, {}) for x in rest)
    return mk(op, h, lo, hi, *rest)


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = len(_all)
        bv = frozenset()
        for a in args:
            if isinstance(a, Term):
                bv |= a.bv
            elif isinstance(a, tuple):
                bv |= _tup_bv(a)
            elif isinstance(a, Node):
                bv |= node_bv(a)
        if op == 'idx' or op == 'lv':
            bv |= frozenset([t])
        elif op in QUANT:
            d = args[0]
            bv = frozenset(x for x in bv if x.args[0] != d)
        t.bv = bv
        _tab[k] = t
        _all.append(t)
    return t


def _tup_bv(a):
    bv = frozenset()
    for x in a:
        if isinstance(x, Term):
            bv |= x.bv
        elif isinstance(x, tuple):
            bv |= _tup_bv(x)
        elif isinstance(x, Node):
            bv |= node_bv(x)
    return bv


# ---------------------------------------------------------------- decision diagrams
class Node:
    """Canonical MTBDD node: leaf (var None, hi = payload) or (var, hi, lo)."""
    __slots__ = ('var', 'hi', 'lo', 'id', '_bv')

    def __repr__(self):
        return 'N%d' % self.id


_ntab = {}
_nall = []
VARS = []        # index -> atom term
_vidx = {}


def _node(var, hi, lo):
    k = (var, hi, lo)
    n = _ntab.get(k)
    if n is None:
        n = Node()
        n.var, n.hi, n.lo = var, hi, lo
        n.id = len(_nall)
        n._bv = None
        _ntab[k] = n
        _nall.append(n)
    return n


def leaf(x):
    return _node(None, ('leaf', x), None)


def is_leaf(n):
    return n.var is None


def leafval(n):
    return n.hi[1]


T = leaf(True)
F = leaf(False)


def node_bv(n):
    if n._bv is None:
        if n.var is None:
            v = n.hi[1]
            if isinstance(v, Term):
                n._bv = v.bv
            elif isinstance(v, tuple):
                n._bv = _tup_bv(v)
            else:
                n._bv = frozenset()
        else:
            n._bv = VARS[n.var].bv | node_bv(n.hi) | node_bv(n.lo)
    return n._bv


def var_of(atom):
    i = _vidx.get(atom)
    if i is None:
        i = len(VARS)
        VARS.append(atom)
        _vidx[atom] = i
    return i


def lit(atom):
    return _node(var_of(atom), T, F)


_ite_memo = {}


def ite(c, a, b):
    """c boolean diagram; a, b any diagrams."""
    if c is T:
        return a
    if c is F:
        return b
    if a is b:
        return a
    if a is T and b is F:
        return c
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    v = c.var
    if a.var is not None and a.var < v:
        v = a.var
    if b.var is not None and b.var < v:
        v = b.var
    ch, cl = (c.hi, c.lo) if c.var == v else (c, c)
    ah, al = (a.hi, a.lo) if a.var == v else (a, a)
    bh, bl = (b.hi, b.lo) if b.var == v else (b, b)
    h = ite(ch, ah, bh)
    l = ite(cl, al, bl)
    r = h if h is l else _node(v, h, l)
    _ite_memo[k] = r
    return r


def neg(a):
    return ite(a, F, T)


def conj(*xs):
    r = T
    for x in xs:
        r = ite(r, x, F)
    return r


def disj(*xs):
    r = F
    for x in xs:
        r = ite(r, T, x)
    return r


def implies(a, b):
    return ite(a, b, T)


def iff(a, b):
    return ite(a, b, neg(b))


def mapleaves(n, f, memo=None):
    """Applies f to every leaf payload; f returns a diagram."""
    memo = {} if memo is None else memo
    r = memo.get(n)
    if r is None:
        if n.var is None:
            r = f(n.hi[1])
        else:
            r = ite(_node(n.var, T, F), mapleaves(n.hi, f, memo), mapleaves(n.lo, f, memo))
        memo[n] = r
    return r


def leaves(n):
    seen, out, st = set(), [], [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.var is None:
            out.append(x.hi[1])
        else:
            st.append(x.lo)
            st.append(x.hi)
    return out


def support(n):
    seen, out, st = set(), set(), [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.var is not None:
            out.add(x.var)
            st.append(x.lo)
            st.append(x.hi)
    return out


def restrict(n, v, val, memo=None):
    memo = {} if memo is None else memo
    if n.var is None:
        return n
    r = memo.get(n)
    if r is None:
        if n.var == v:
            r = restrict(n.hi if val else n.lo, v, val, memo)
        else:
            h = restrict(n.hi, v, val, memo)
            l = restrict(n.lo, v, val, memo)
            r = ite(_node(n.var, T, F), h, l)
        memo[n] = r
    return r


def exists(n, vs):
    for v in sorted(vs, reverse=True):
        n = disj(restrict(n, v, True), restrict(n, v, False))
    return n


def pick(n):
    """One satisfying cube of a boolean diagram, as [(atom, bool)]."""
    out = []
    while n.var is not None:
        if n.hi is not F:
            out.append((VARS[n.var], True))
            n = n.hi
        else:
            out.append((VARS[n.var], False))
            n = n.lo
    return out if n is T else None


def cond_of(n, pred):
    """Boolean diagram of the condition under which the leaf payload satisfies pred."""
    return mapleaves(n, lambda x: T if pred(x) else F)


# ---------------------------------------------------------------- constants and integers
def K(kind, v=None):
    return mk('k', kind, v)


TRUE = K('bool', True)
FALSE = K('bool', False)
UNIT = K('zst')


def num(c):
    return mk('lin', c, ())


def is_num(t):
    return t.op == 'lin' and not t.args[1]


def numval(t):
    return t.args[0]


def lin_of(t):
    if t.op == 'lin':
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def from_lin(c, d):
    items = tuple(sorted(((x, k) for x, k in d.items() if k != 0), key=lambda y: y[0].id))
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk('lin', c, items)


def add(a, b):
    c1, d1 = lin_of(a)
    c2, d2 = lin_of(b)
    for x, k in d2.items():
        d1[x] = d1.get(x, 0) + k
    return from_lin(c1 + c2, d1)


def scale(a, k):
    c, d = lin_of(a)
    return from_lin(c * k, {x: y * k for x, y in d.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    if is_num(a):
        return scale(b, numval(a))
    if is_num(b):
        return scale(a, numval(b))
    # distribute over linear forms, then sort the monomials
    c1, d1 = lin_of(a)
    c2, d2 = lin_of(b)
    r = num(c1 * c2)
    for x, k in d1.items():
        r = add(r, from_lin(0, {x: k * c2}))
    for x, k in d2.items():
        r = add(r, from_lin(0, {x: k * c1}))
    for x, k in d1.items():
        for y, l in d2.items():
            for q, z in ((x, y), (y, x)):
                if q.op == 'app' and q.args[0] == 'div' and q.args[1][1] is z and (rng(q)[0] or 0) >= 0 and rng(q)[0] is not None:
                    # the quotient times the divisor is what the remainder leaves
                    r = add(r, scale(sub(q.args[1][0], irem(*q.args[1])), k * l))
                    break
            else:
                q = None
            if q is not None:
                continue
            fs = (x.args[0] if x.op == 'mul' else (x,)) + (y.args[0] if y.op == 'mul' else (y,))
            m = mk('mul', tuple(sorted(fs, key=lambda z: z.id)))
            lo1, hi1 = rng(x)
            lo2, hi2 = rng(y)
            if lo1 is not None and lo1 >= 0 and lo2 is not None and lo2 >= 0:
                RNG.setdefault(m, (0, hi1 * hi2 if hi1 is not None and hi2 is not None else None))
            r = add(r, from_lin(0, {m: k * l}))
    return r


def rng(t):
    if t.op == 'lin':
        lo = hi = t.args[0]
        for x, k in t.args[1]:
            l, h = rng(x)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return lo, hi
    if t.op == 'idx':
        lo, _ = rng(t.args[1])
        _, hi = rng(t.args[2])
        return lo, (None if hi is None else hi - 1)
    return RNG.get(t, (None, None))


def undiv(L, side):
    """A bound of L (from above: side 1, from below: -1) in which quotients by constants are replaced by what they divide."""
    for _ in range(8):
        for x, c in lin_of(L)[1].items():
            if x.op == 'app' and x.args[0] == 'div' and is_num(x.args[1][1]):
                k = numval(x.args[1][1])
                y = x.args[1][0]
                if k >= 2 and c % k == 0 and rng(y)[0] is not None and rng(y)[0] >= 0:
                    L = add(sub(L, scale(x, c)), scale(y if c * side > 0 else add(y, num(1 - k)), c // k))
                    break
        else:
            return L
    return L


def le0(L):
    """Diagram of L <= 0 for an integer linear form L."""
    c, d = lin_of(L)
    if L.op == 'lin' and not L.args[1]:
        return T if c <= 0 else F
    lo, hi = rng(L)
    if hi is not None and hi <= 0:
        return T
    if lo is not None and lo > 0:
        return F
    for x, k in d.items():
        if x.op == 'idx':
            up = add(L, scale(sub(add(x.args[2], num(-1)) if k > 0 else x.args[1], x), k))
            dn = add(L, scale(sub(x.args[1] if k > 0 else add(x.args[2], num(-1)), x), k))
            h = rng(undiv(up, 1))[1]
            l = rng(undiv(dn, -1))[0]
            if h is not None and h <= 0:
                return T
            if l is not None and l > 0:
                return F
    from math import gcd
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    # g*B + c <= 0  <=>  B <= floor(-c/g)
    items = sorted(((x, k // g) for x, k in d.items()), key=lambda y: y[0].id)
    q = items[0][0]
    if len(items) == 1 and q.op == 'app' and q.args[0] == 'div' and is_num(q.args[1][1]):
        x, m = q.args[1][0], numval(q.args[1][1])
        if m >= 1 and (rng(x)[0] or 0) >= 0 and rng(x)[0] is not None:     # x div m <= k  <=>  x <= m*k + m-1
            if items[0][1] > 0:
                return le0(sub(x, num(m * ((-c) // g) + m - 1)))
            return neg(le0(sub(x, num(m * (-((-c) // g) - 1) + m - 1))))
    if items[0][1] > 0:
        k = (-c) // g
        return lit(mk('le', from_lin(0, dict(items)), k))
    # -B' * g + c <= 0  <=> B' >= ceil(c/g) <=> not (B' <= ceil(c/g)-1)
    k = -((-c) // g) - 1
    return neg(lit(mk('le', from_lin(0, {x: -y for x, y in items}), k)))


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), num(1)))


def eq_int(a, b):
    return conj(le(a, b), le(b, a))


# ---------------------------------------------------------------- booleans as terms
def as_bdd(t):
    if t is TRUE:
        return T
    if t is FALSE:
        return F
    if t.op == 'bdd':
        return t.args[0]
    if t.op == 'gate':
        return mapleaves(t.args[0], as_bdd)
    return lit(mk('b', t))


def b2v(n):
    """Boolean diagram as a value diagram with TRUE / FALSE leaves."""
    return mapleaves(n, lambda x: leaf(TRUE) if x else leaf(FALSE))


def v2b(n):
    return mapleaves(n, as_bdd)


def gate(n):
    """A gated value as one term."""
    if n.var is None:
        return leafval(n)
    ls = leaves(n)
    if all(x is TRUE or x is FALSE for x in ls):
        return from_bdd(mapleaves(n, lambda x: T if x is TRUE else F))
    return mk('gate', n)


def ungate1(t):
    if not isinstance(t, Term):
        return leaf(t)
    if t.op == 'gate':
        return t.args[0]
    if t.op == 'bdd':
        return b2v(t.args[0])
    return leaf(t)


def ungate(n):
    if n.var is None:
        return ungate1(n.hi[1])
    return mapleaves(n, ungate1)


_care_memo = {}


def care(n, c):
    """Simplifies n under the assumption c (Coudert-Madre restriction)."""
    if c is T or n.var is None or c is F:
        return n
    k = (n, c)
    r = _care_memo.get(k)
    if r is not None:
        return r
    if c.var < n.var:
        r = care(n, disj(c.hi, c.lo))
    elif c.var == n.var:
        if c.hi is F:
            r = care(n.lo, c.lo)
        elif c.lo is F:
            r = care(n.hi, c.hi)
        else:
            h, l = care(n.hi, c.hi), care(n.lo, c.lo)
            r = h if h is l else _node(n.var, h, l)
    else:
        h, l = care(n.hi, c), care(n.lo, c)
        r = h if h is l else _node(n.var, h, l)
    _care_memo[k] = r
    return r


def from_bdd(n):
    if n is T:
        return TRUE
    if n is F:
        return FALSE
    if n.hi is T and n.lo is F and VARS[n.var].op == 'b':
        return VARS[n.var].args[0]
    return mk('bdd', n)


# ---------------------------------------------------------------- aggregates
def adt(path, vname, keys, vals):
    """Struct / enum variant / tuple / closure aggregate, collapsed to its base if it is a plain copy."""
    if keys and all(v.op in ('fld', 'vfld') for v in vals):
        b = vals[0].args[0]
        op = vals[0].op
        if op == 'fld' and not vname:
            if all(v.op == 'fld' and v.args[0] is b and v.args[1] == k for v, k in zip(vals, keys)) and NFIELDS.get(b) == (path, len(keys)):
                return b
    return mk('adt', path, vname, tuple(keys), tuple(vals))


NFIELDS = {}
FIELDINFO = {}     # (struct path, variant, field) -> what the field's type guarantees: ('r', lo, hi) or ('l', n)


def finfo(r, path, vname, key):
    i = FIELDINFO.get((path, vname, key))
    if i is not None and r.op not in ('lin', 'gate', 'ptr', 'uninit', 'panic', 'arr', 'k', 'rep', 'adt'):
        if i[0] == 'r':
            RNG.setdefault(r, i[1:])
        elif r.op not in ('concat', 'slice', 'coll', 'store') and r not in LEN and r not in DYN:
            LEN[r] = num(i[1])
    return r


def tup(*vals):
    return adt('tuple', '', tuple(str(i) for i in range(len(vals))), vals)


def fld(base, key, tpath=None, nf=None):
    if base.op == 'gate':
        return gate(ungate(mapleaves(base.args[0], lambda x: leaf(fld(x, key, tpath, nf)))))
    if base.op == 'adt':
        ks = base.args[2]
        if key in ks:
            return base.args[3][ks.index(key)]
    if base.op == 'arr' and key.isdigit():
        return base.args[0][int(key)]
    if base.op == 'index' and key in ('0', '1') and base.args[0].op == 'app' and base.args[0].args[0] == 'entries':
        m = base.args[0].args[1][0]
        kv = app('keys' if key == '0' else 'values', m)
        LEN.setdefault(kv, length(m))
        return index(kv, base.args[1])
    if tpath is not None:
        NFIELDS.setdefault(base, (tpath, nf))
    r = carried(base, (key,))
    return mk('fld', base, key) if r is None else r


def carried(base, step):
    """A component of a loop-carried structure which no iteration changes: the component of the initial value."""
    path = [step]
    while base.op in ('fld', 'vfld'):
        path.append(base.args[1:])
        base = base.args[0]
    if base.op != 'fold':
        return None
    path.reverse()

    def at(x):
        for p in path:
            x = fld(x, p[0]) if len(p) == 1 else vfld(x, *p)
        return x
    d, _, _, init, st = base.args
    lv = mk('lv', d, 'acc')
    if lv not in (node_bv(st) if isinstance(st, Node) else st.bv):
        return None
    want = at(lv)
    for x in leaves(st) if isinstance(st, Node) else (st,):
        y = at(x)
        if y is not want and y.op != 'dead':
            return None
    return at(init)


def vfld(base, vname, key):
    if base.op == 'gate':
        return gate(ungate(mapleaves(base.args[0], lambda x: leaf(vfld(x, vname, key)))))
    if base.op == 'adt':
        if base.args[1] == vname and key in base.args[2]:
            return base.args[3][base.args[2].index(key)]
        return mk('dead', vname, key)
    r = carried(base, (vname, key))
    return mk('vfld', base, vname, key) if r is None else r


def app(name, *args):
    return mk('app', name, tuple(args))


def some(x):
    return mk('adt', 'Option', 'Some', ('0',), (x,))


NONE = mk('adt', 'Option', 'None', (), ())


def ok(x):
    return mk('adt', 'Result', 'Ok', ('0',), (x,))


def err(x):
    return mk('adt', 'Result', 'Err', ('0',), (x,))


def length(t):
    o = t.op
    if o == 'k' and t.args[0] in ('str', 'bytes'):
        v = t.args[1]
        return num(len(v.encode()) if isinstance(v, str) else len(v))
    if o == 'arr':
        return num(len(t.args[0]))
    if o == 'rep':
        return t.args[1]
    if o == 'concat':
        r = num(0)
        for x in t.args[0]:
            r = add(r, length(x))
        return r
    if o == 'slice':
        return sub(t.args[2], t.args[1])
    if o == 'gate':
        n = mapleaves(t.args[0], lambda x: leaf(length(x)))
        return leafval(n) if is_leaf(n) else mk('len', t)
    if o == 'store':
        return length(t.args[0])
    if o == 'sorted':
        return length(t.args[3])
    if o == 'coll' and is_leaf(t.args[3]):
        xs = leafval(t.args[3])
        if not any(x.op == 'splice' for x in xs):
            return scale(sub(t.args[2], t.args[1]), len(xs))
    if o == 'coll' and t not in LEN:
        def cnt(xs):
            r = num(0)
            for x in xs:
                r = add(r, length(x.args[0]) if x.op == 'splice' else num(1))
            return leaf(r)
        hs = _maxidx(t.args[3])
        d = max(t.args[0], hs + 1)
        i0, i1 = mk('idx', t.args[0], t.args[1], t.args[2]), mk('idx', d, t.args[1], t.args[2])
        LEN[t] = summ(d, t.args[1], t.args[2], mapleaves(subst(t.args[3], {i0: i1}), cnt))
    if o == 'app' and t.args[0] in ('keys', 'values'):
        return length(t.args[1][0])
    if t in LEN:
        return LEN[t]
    l = mk('len', t)
    RNG.setdefault(l, (0, 2**63 - 1))
    return l


def index(c, i):
    if c.op == 'arr' and is_num(i) and 0 <= numval(i) < len(c.args[0]):
        return c.args[0][numval(i)]
    if c.op == 'rep':
        return c.args[0]
    if c.op == 'k' and c.args[0] == 'bytes' and is_num(i) and 0 <= numval(i) < len(c.args[1]):
        return num(c.args[1][numval(i)])
    if FIXED and c.op == 'app' and c.args[0] in ('keys', 'values') and c.args[1][0] in FIXED and is_num(i):
        return FIXED[c.args[1][0]][c.args[0] == 'values'][numval(i)]
    if c.op == 'slice':
        return index(c.args[0], add(c.args[1], i))
    if c.op == 'store':
        if c.args[1] is i:
            return c.args[2]
        d = sub(c.args[1], i)
        if is_num(d) and numval(d) != 0:
            return index(c.args[0], i)
    if c.op == 'concat':
        off = num(0)
        for p in c.args[0]:
            l = length(p)
            d = sub(i, off)
            if is_num(d) and is_num(l) and 0 <= numval(d) < numval(l):
                return index(p, d)
            if p is c.args[0][-1] and off is not num(0):
                lo = rng(d)[0]
                if lo is not None and lo >= 0 and d is not i:
                    return index(p, d)
            off = add(off, l)
    if c.op == 'gate':
        return gate(ungate(mapleaves(c.args[0], lambda x: leaf(index(x, i)))))
    if c.op == 'coll' and all(isinstance(x, tuple) and len(x) == 1 and x[0].op != 'splice' for x in leaves(c.args[3])):
        d, lo, hi, body = c.args
        if is_leaf(body):
            return subst(leafval(body)[0], {mk('idx', d, lo, hi): add(lo, i)})
        return gate(ungate(subst(mapleaves(body, lambda x: leaf(x[0])), {mk('idx', d, lo, hi): add(lo, i)})))
    return mk('index', c, i)


# ---------------------------------------------------------------- sums of products
# Elements of an (external) ring, or of a module over it, as polynomials over opaque elements: a term
# app('poly', ((coefficient, factor, factor...), ...)).  Scalars and points of a group share the representation.
def poly_of(t):
    if t.op == 'app' and t.args[0] == 'poly':
        return {m[1:]: numval(m[0]) for m in t.args[1]}
    return {(t,): 1}


def from_poly(d):
    items = sorted(((m, c) for m, c in d.items() if c), key=lambda y: tuple(x.id for x in y[0]))
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1:
        return items[0][0][0]
    return mk('app', 'poly', tuple((num(c),) + m for m, c in items))


def padd(a, b, k=1):
    d = dict(poly_of(a))
    for m, c in poly_of(b).items():
        d[m] = d.get(m, 0) + k * c
    return from_poly(d)


def pmul(a, b):
    d = {}
    for m, c in poly_of(a).items():
        for n, e in poly_of(b).items():
            k = tuple(sorted(m + n, key=lambda x: x.id))
            d[k] = d.get(k, 0) + c * e
    return from_poly(d)


def pconst(c):
    return mk('app', 'poly', ((num(c),),) if c else ())


def poly_rebuild(ms):
    r = pconst(0)
    for m in ms:
        p = pconst(numval(m[0]))
        for x in m[1:]:
            p = pmul(p, x)
        r = padd(r, p)
    return r


# ---------------------------------------------------------------- containers, division
def store(c, i, v):
    if v.op == 'index' and v.args[0] is c and v.args[1] is i:
        return c
    if c.op == 'rep' and is_num(c.args[1]) and numval(c.args[1]) <= 256 and is_num(i):
        c = mk('arr', (c.args[0],) * numval(c.args[1]))
    if c.op == 'k' and c.args[0] == 'bytes' and is_num(i):
        c = mk('arr', tuple(num(x) for x in c.args[1]))
    if c.op in ('concat', 'slice') and is_num(i):
        n = length(c)
        if is_num(n) and 0 <= numval(i) < numval(n) <= 256 and v.op != 'gate':
            xs = [index(c, num(j)) for j in range(numval(n))]
            xs[numval(i)] = v
            return norm_const(mk('arr', tuple(xs)))
    if c.op == 'arr' and is_num(i) and 0 <= numval(i) < len(c.args[0]):
        l = list(c.args[0])
        l[numval(i)] = v
        return norm_const(mk('arr', tuple(l)))
    return mk('store', c, i, v)


def mapget(m, k):
    if m.op == 'mapins':
        if m.args[1] is k:
            return m.args[2]
    g = app('get', m, k)
    variants_of(g, ('None', 'Some'))
    return vfld(g, 'Some', '0')


def mapins(m, k, v):
    if m.op == 'mapins' and m.args[1] is k:
        return mapins(m.args[0], k, v)
    return mk('mapins', m, k, v)


def idiv(x, y):
    if is_num(x) and is_num(y) and numval(y) > 0 and numval(x) >= 0:
        return num(numval(x) // numval(y))
    if is_num(y) and numval(y) == 1:
        return x
    if x.op == 'app' and x.args[0] == 'div' and is_num(y) and is_num(x.args[1][1]):
        return idiv(x.args[1][0], num(numval(y) * numval(x.args[1][1])))
    if is_num(x) and numval(x) == 0:
        return x
    r = app('div', x, y)
    lo, hi = rng(x)
    l2, h2 = rng(y)
    if lo is not None and lo >= 0 and l2 is not None and l2 >= 0:
        RNG.setdefault(r, (0, None if hi is None else hi // max(l2, 1)))
    else:
        RNG.setdefault(r, (None, None))
    return r


def irem(x, y):
    if is_num(x) and is_num(y) and numval(y) > 0:
        return num(numval(x) % numval(y))
    if is_num(y):
        lo, hi = rng(x)
        if lo is not None and lo >= 0 and hi is not None and hi < numval(y):
            return x
        if x.op == 'app' and x.args[0] == 'rem' and is_num(x.args[1][1]) and numval(x.args[1][1]) % numval(y) == 0:
            return irem(x.args[1][0], y)
    r = app('rem', x, y)
    RNG.setdefault(r, (0, None if rng(y)[1] is None else rng(y)[1] - 1))
    return r


# ---------------------------------------------------------------- substitution
def subst(t, m, memo=None):
    """Substitutes terms in a term (capture is avoided by the depth discipline of bound indices)."""
    memo = {} if memo is None else memo
    return _sub(t, m, memo)


def _sub(t, m, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif isinstance(t, Node):
        if t.var is None:
            r = leaf(_sub_any(t.hi[1], m, memo))
        else:
            a = VARS[t.var]
            r = ite(_sub_atom(a, m, memo), _sub(t.hi, m, memo), _sub(t.lo, m, memo))
    else:
        m1, memo1 = _shadow(t, m, memo) if t.op in QUANT else (m, memo)
        args = tuple(_sub_any(x, m1, memo1) for x in t.args)
        if args == t.args:
            r = t
        else:
            r = rebuild(t.op, args)
            if t in RNG and r.op not in ('lin',) and r not in RNG:
                RNG[r] = RNG[t]
            if t in LEN and r not in LEN and r.op in ('sym', 'app', 'fld', 'vfld', 'index', 'mapget', 'unk'):
                LEN[r] = _sub(LEN[t], m, memo)
            if t in NFIELDS and r not in NFIELDS:
                NFIELDS[r] = NFIELDS[t]
    memo[t] = r
    return r


def _sub_any(x, m, memo):
    if isinstance(x, (Term, Node)):
        return _sub(x, m, memo)
    if isinstance(x, tuple):
        return tuple(_sub_any(y, m, memo) for y in x)
    return x


def _shadow(t, m, memo):
    """A binder hides the variables it binds from a substitution."""
    d = t.args[0]
    hid = [k for k in m if isinstance(k, Term) and k.op in ('idx', 'lv') and k.args[0] == d and k not in t.bv]
    if not hid:
        return m, memo
    return {k: v for k, v in m.items() if k not in hid}, {}


def _sub_atom(a, m, memo):
    if a.op in QUANT:
        m, memo = _shadow(a, m, memo)
    args = tuple(_sub_any(x, m, memo) for x in a.args)
    return atom(a.op, args)


def atom(op, args):
    if op == 'le':
        return le0(sub(args[0], num(args[1])))
    if op == 'eq':
        return eq(args[0], args[1])
    if op == 'var':
        return is_variant(args[0], args[1])
    if op == 'b':
        return as_bdd(args[0])
    if op == 'all':
        return forall(*args)
    return lit(mk(op, *args))


FIXED = {}     # map symbol of known contents -> (keys, values) in the order of iteration


def sorted_(d, lo, hi, x, less):
    """The sequence x in the (stable) order given by less; explicit when it is short and all comparisons are settled."""
    n = length(x)
    if x.op in ('arr', 'coll') and is_num(n) and numval(n) <= 6:
        xs = [index(x, num(i)) for i in range(numval(n))]
        a, b = mk('lv', d, 'a'), mk('lv', d, 'b')
        rank = []
        for i, y in enumerate(xs):
            r = 0
            for j, z in enumerate(xs):
                if i == j:
                    continue
                lt, gt = subst(less, {a: z, b: y}), subst(less, {a: y, b: z})
                if lt not in (T, F) or gt not in (T, F):
                    return mkq('sorted', d, lo, hi, x, less)
                if lt is T or (gt is F and j < i):
                    r += 1
            rank.append(r)
        if sorted(rank) == list(range(len(xs))):
            return norm_const(mk('arr', tuple(y for _, y in sorted(zip(rank, xs), key=lambda p: p[0]))))
    return mkq('sorted', d, lo, hi, x, less)


APPS = {}      # library function name -> canonical form of an application


def rebuild(op, args):
    if op == 'lin':
        r = num(args[0])
        for x, k in args[1]:
            r = add(r, scale(x, k))
        return r
    if op == 'sorted':
        return sorted_(*args)
    if op in ('fold', 'first', 'loopx', 'whl'):
        return mkq(op, *args)
    if op == 'fld':
        return fld(*args)
    if op == 'vfld':
        return vfld(*args)
    if op == 'index':
        return index(*args)
    if op == 'len':
        return length(*args)
    if op == 'mul':
        r = num(1)
        for x in args[0]:
            r = mul(r, x)
        return r
    if op == 'bdd':
        return from_bdd(args[0])
    if op == 'gate':
        return gate(ungate(args[0]))
    if op == 'adt':
        return adt(*args)
    if op == 'coll':
        return coll(*args)
    if op == 'sum':
        return summ(*args)
    if op == 'concat':
        return concat(args[0])
    if op == 'slice':
        return slice_(*args)
    if op == 'store':
        return store(*args)
    if op == 'mapins':
        return mapins(*args)
    if op == 'app':
        if args[0] == 'div':
            return idiv(*args[1])
        if args[0] == 'rem':
            return irem(*args[1])
        if args[0] == 'poly':
            return poly_rebuild(args[1])
        h = APPS.get(args[0])
        return h(args[0], *args[1]) if h is not None else mk('app', args[0], args[1])
    if op == 'arr':
        return norm_const(mk('arr', args[0]))
    if op == 'first':
        d, lo, hi, P = args
        if P is T:
            return lo
    return mk(op, *args)


_BINDERS = ('all', 'sum', 'coll', 'fold', 'first', 'loopx', 'whl', 'sorted')


def _find_gate(x, seen):
    """An innermost gate nested in a term, outside every binder."""
    if isinstance(x, tuple):
        for y in x:
            g = _find_gate(y, seen)
            if g is not None:
                return g
        return None
    if isinstance(x, Node):
        for v in support(x):
            g = _find_gate(VARS[v], seen)
            if g is not None:
                return g
        for l in leaves(x):
            g = _find_gate(l, seen)
            if g is not None:
                return g
        return None
    if not isinstance(x, Term) or x in seen:
        return None
    seen.add(x)
    if x.op in _BINDERS:
        return None
    for y in x.args:
        if isinstance(y, (Term, Node, tuple)):
            g = _find_gate(y, seen)
            if g is not None:
                return g
    return x if x.op == 'gate' else None


def lift_gates(n, budget=40):
    """Splits a diagram on the conditions of the gated values nested in its atoms."""
    while budget > 0:
        budget -= 1
        g = _find_gate(n, set())
        if g is None:
            return n
        n = mapleaves(g.args[0], lambda x: _sub(n, {g: x}, {}))
    return n


# ---------------------------------------------------------------- equality / variants
VARIANTS = {}     # term -> tuple of variant names of its (enum) type


def variants_of(t, names):
    VARIANTS.setdefault(t, names)


ENUMS = {'Option': ('None', 'Some'), 'Result': ('Ok', 'Err')}     # enum path -> variant names


def is_variant(t, vname, path=None):
    if t.op == 'adt':
        return T if t.args[1] == vname else F
    if t.op == 'gate':
        return mapleaves(t.args[0], lambda x: is_variant(x, vname, path))
    names = VARIANTS.get(t)
    if names is None:
        if path is not None:
            names = ENUMS.get(path)
        elif vname in ('None', 'Some'):
            names = ENUMS['Option']
        elif vname in ('Ok', 'Err'):
            names = ENUMS['Result']
        if names is not None:
            VARIANTS[t] = names
    if names and vname == names[-1] and len(names) > 1:
        return conj(*[neg(lit(mk('var', t, n))) for n in names[:-1]])
    if names and len(names) == 1:
        return T
    return lit(mk('var', t, vname))


EMPTY = mk('arr', ())
ZERO_OPS = ('default',)


def norm_const(t):
    """Empty strings / vectors and all-zero arrays have one representative."""
    if t.op == 'k' and t.args[0] in ('str', 'bytes') and len(t.args[1]) == 0:
        return EMPTY
    if t.op == 'rep' and is_num(t.args[1]):
        n = numval(t.args[1])
        if n == 0:
            return EMPTY
        if is_num(t.args[0]) and n <= 4096:
            return K('bytes', (numval(t.args[0]),) * n) if 0 <= numval(t.args[0]) < 256 else t
    if t.op == 'arr' and t.args[0] and all(is_num(x) and 0 <= numval(x) < 256 for x in t.args[0]):
        return K('bytes', tuple(numval(x) for x in t.args[0]))
    if t.op == 'arr':
        # neighbouring elements of one sequence are a slice of it
        xs, run, out = t.args[0], None, []
        if not any(_succ(xs[k], xs[k + 1]) for k in range(len(xs) - 1)):
            return t
        k = 0
        while k < len(xs):
            j = k
            while j + 1 < len(xs) and _succ(xs[j], xs[j + 1]):
                j += 1
            if j > k:
                out.append(slice_(xs[k].args[0], xs[k].args[1], add(xs[j].args[1], num(1))))
            else:
                out.append(mk('arr', (xs[k],)))
            k = j + 1
        return concat(out)
    return t


def _succ(a, b):
    return a.op == 'index' and b.op == 'index' and a.args[0] is b.args[0] and is_num(a.args[1]) and is_num(b.args[1]) and numval(b.args[1]) == numval(a.args[1]) + 1


def is_const(t):
    if t.op == 'k':
        return True
    if t.op == 'lin':
        return not t.args[1]
    if t.op == 'arr':
        return all(is_const(x) for x in t.args[0])
    if t.op == 'adt':
        return all(is_const(x) for x in t.args[3])
    return False


def eq(a, b):
    a, b = norm_const(a), norm_const(b)
    if a is b:
        return T
    if a.op == 'gate':
        return mapleaves(a.args[0], lambda x: eq(x, b))
    if b.op == 'gate':
        return mapleaves(b.args[0], lambda x: eq(a, x))
    if a.op == 'adt' and b.op == 'adt':
        if a.args[1] != b.args[1]:
            return F
        return conj(*[eq(x, y) for x, y in zip(a.args[3], b.args[3])])
    for x, y in ((a, b), (b, a)):
        if x.op == 'adt' and y.op != 'adt':
            if x.args[1]:
                return conj(is_variant(y, x.args[1], x.args[0]), *[eq(finfo(vfld(y, x.args[1], k), x.args[0], x.args[1], k), v) for k, v in zip(x.args[2], x.args[3])])
            if x.args[2]:
                return conj(*[eq(finfo(fld(y, k, x.args[0], len(x.args[2])), x.args[0], '', k), v) for k, v in zip(x.args[2], x.args[3])])
    if a.op == 'lin' or b.op == 'lin' or a in RNG or b in RNG:
        return eq_int(a, b)
    if a in (TRUE, FALSE) or b in (TRUE, FALSE) or a.op == 'bdd' or b.op == 'bdd':
        return iff(as_bdd(a), as_bdd(b))
    if a is EMPTY or b is EMPTY:
        return le0(length(b if a is EMPTY else a))
    if a.op == 'k' and a.args[0] == 'str':
        a = K('bytes', tuple(a.args[1].encode()))
    if b.op == 'k' and b.args[0] == 'str':
        b = K('bytes', tuple(b.args[1].encode()))
    if a is b:
        return T
    if is_const(a) and is_const(b):
        return F
    if a.op == 'concat' or b.op == 'concat':
        r = eq_concat(a, b)
        if r is not None:
            return r
    if a.op == 'arr' and b.op == 'arr':
        if len(a.args[0]) != len(b.args[0]):
            return F
        return conj(*[eq(x, y) for x, y in zip(a.args[0], b.args[0])])
    if a.id > b.id:
        a, b = b, a
    return lit(mk('eq', a, b))


def known_end(c):
    if c.op == 'concat':
        c = c.args[0][-1]
    return c.args[1] if c.op == 'k' and c.args[0] == 'bytes' else ()


def eq_concat(a, b):
    """Equality of byte strings with parts in common at either end (None: nothing to simplify)."""
    d = sub(length(a), length(b))
    if is_num(d) and numval(d) != 0:
        return F
    for x, y in ((a, b), (b, a)):
        if x.op == 'slice' and x.args[2] is length(x.args[0]) and y.op in ('concat', 'k'):
            # the end of a longer sequence against a sequence with a known end
            u, v = known_end(x.args[0]), known_end(y)
            n = min(len(u), len(v))
            if n and u[-n:] != v[-n:]:
                return F
    xs = list(a.args[0]) if a.op == 'concat' else [a]
    ys = list(b.args[0]) if b.op == 'concat' else [b]
    n0 = (len(xs), len(ys))
    moved = False
    for end in (0, -1):
        while xs and ys:
            x, y = xs[end], ys[end]
            if x is y:
                xs.pop(end)
                ys.pop(end)
                moved = True
                continue
            if x.op == 'k' and y.op == 'k' and x.args[0] == y.args[0] == 'bytes':
                u, v = x.args[1], y.args[1]
                n = min(len(u), len(v))
                if (u[:n] != v[:n]) if end == 0 else (u[-n:] != v[-n:]):
                    return F
                if n == len(u) == len(v):
                    xs.pop(end)
                    ys.pop(end)
                elif len(u) > n:
                    xs[end] = K('bytes', u[n:] if end == 0 else u[:-n])
                    ys.pop(end)
                else:
                    ys[end] = K('bytes', v[n:] if end == 0 else v[:-n])
                    xs.pop(end)
                moved = True
                continue
            break
    if not moved:
        return None
    from intrinsics import concat
    return eq(concat(xs) if xs else EMPTY, concat(ys) if ys else EMPTY)


# ---------------------------------------------------------------- quantifiers and aggregation
def _indep(P, i):
    """Splits off atoms of P that do not mention the bound index i."""
    for v in sorted(support(P)):
        if i not in VARS[v].bv:
            return v
    return None


def forall(d, lo, hi, P):
    i = mk('idx', d, lo, hi)
    if P is T:
        return T
    if lo is not num(0):
        n = sub(hi, lo)
        return forall(d, num(0), n, subst(P, {i: add(lo, mk('idx', d, num(0), n))}))
    empty = le(hi, lo)
    if P is F:
        return empty
    if empty is T:
        return T
    v = _indep(P, i)
    if v is not None:
        a = _node(v, T, F)
        return ite(a, forall(d, lo, hi, restrict(P, v, True)), forall(d, lo, hi, restrict(P, v, False)))
    n = sub(hi, lo)
    if is_num(n) and numval(n) <= 64:
        return conj(*[subst(P, {i: add(lo, num(j))}) for j in range(numval(n))])
    r = _over_filtered(i, hi, P)
    if r is not None:
        return r
    # conjunctive factors are quantified separately
    r = T
    for Q in factors(P):
        q = None
        if Q.hi in (T, F) and Q.lo in (T, F) and VARS[Q.var].op == 'le':
            body, k = VARS[Q.var].args
            c, dd = lin_of(body)
            co = dd.get(i)
            rest = from_lin(c, {x: y for x, y in dd.items() if x is not i})
            if co in (1, -1) and i not in rest.bv:
                pos = Q.hi is T
                # the extreme index decides a monotone literal
                ext = add(hi, num(-1)) if (co > 0) == pos else lo
                b2 = add(rest, scale(ext, co))
                q = le0(sub(b2, num(k)))
                if not pos:
                    q = neg(q)
                q = disj(empty, q)
        r = conj(r, lit(mkq('all', d, lo, hi, Q)) if q is None else q)
    return r


def _maxidx(n):
    return max([x.args[0] for x in node_bv(n) if x.op == 'idx'] or [0])


def _filtered(x):
    return x.op == 'coll' and all(isinstance(l, tuple) and len(l) <= 1 and not any(y.op == 'splice' for y in l) for l in leaves(x.args[3])) \
        and not is_leaf(x.args[3])


def _over_filtered(i, hi, P):
    """A statement about every element of collections filtered by one condition is one about every index that passes it."""
    found = set()
    memo = set()

    def walk(x):
        if x in memo:
            return
        memo.add(x)
        if isinstance(x, Node):
            for v in support(x):
                walk(VARS[v])
            return
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, (Term, Node, tuple)):
                    walk(y)
            return
        if not isinstance(x, Term) or i not in x.bv:
            return
        if x.op == 'index' and x.args[1] is i and _filtered(x.args[0]) and i not in x.args[0].bv:
            found.add(x)
            return
        for y in x.args:
            if isinstance(y, (Term, Node, tuple)):
                walk(y)
    walk(P)
    if not found:
        return None
    sig = None
    m = {}
    d2 = max(i.args[0], _maxidx(P)) + 2
    for x in found:
        d, lo, hi2, body = x.args[0].args
        if length(x.args[0]) is not hi:
            return None
        j0, j = mk('idx', d, lo, hi2), mk('idx', d2, lo, hi2)
        b = subst(body, {j0: j})
        c = cond_of(b, lambda l: len(l) == 1)
        if sig is not None and (sig[0] is not c or sig[1] is not lo or sig[2] is not hi2):
            return None
        sig = (c, lo, hi2)
        el = mapleaves(care(b, c), lambda l: leaf(l[0] if l else num(0)))
        m[x] = gate(care(el, c))
    Q = subst(P, m)
    if i in node_bv(Q):
        return None
    return forall(d2, sig[1], sig[2], implies(sig[0], Q))


_fac_memo = {}


def factors(P):
    """Conjunctive decomposition by variable-disjoint supports plus single-literal factors."""
    r = _fac_memo.get(P)
    if r is not None:
        return r
    out = []
    Q = P
    changed = True
    while changed and Q is not T:
        changed = False
        for v in sorted(support(Q)):
            h, l = restrict(Q, v, True), restrict(Q, v, False)
            if l is F:
                out.append(_node(v, T, F))
                Q = h
                changed = True
                break
            if h is F:
                out.append(_node(v, F, T))
                Q = l
                changed = True
                break
    if Q is not T:
        # try splitting into a conjunction with disjoint supports
        vs = sorted(support(Q))
        v0 = vs[0]
        best = None
        A = exists(Q, [v for v in vs[1:]]) if False else None
        out.extend(_split(Q))
    r = tuple(out)
    _fac_memo[P] = r
    return r


def _split(Q):
    vs = sorted(support(Q))
    if len(vs) <= 1 or len(vs) > 12:
        return [Q]
    # grow the smallest block containing vs[0] that splits off
    from itertools import combinations
    rest = vs[1:]
    for k in range(0, min(len(rest), 4)):
        for extra in combinations(rest, k):
            blk = set((vs[0],) + extra)
            A = exists(Q, [v for v in vs if v not in blk])
            B = exists(Q, list(blk))
            if conj(A, B) is Q:
                return [A] + _split(B)
    return [Q]


def summ(d, lo, hi, body):
    """Sum over index range of a diagram with integer leaves."""
    i = mk('idx', d, lo, hi)
    if lo is not num(0):
        n = sub(hi, lo)
        return summ(d, num(0), n, subst(body, {i: add(lo, mk('idx', d, num(0), n))}))
    if is_leaf(body):
        v = leafval(body)
        if i not in v.bv:
            return mul(v, sub(hi, lo))
        c, dd = lin_of(v)
        r = scale(sub(hi, lo), c)
        for x, k in dd.items():
            if i not in x.bv:
                r = add(r, scale(mul(x, sub(hi, lo)), k))
            else:
                s = mkq('sum', d, lo, hi, leaf(x))
                RNG.setdefault(s, (0 if (rng(x)[0] or 0) >= 0 and rng(x)[0] is not None else None, None))
                r = add(r, scale(s, k))
        return r
    if EAGER and is_num(hi) and numval(hi) <= 300:
        tot = leaf(num(0))
        for j in range(numval(hi)):
            nxt = subst(body, {i: num(j)})
            tot = mapleaves(tot, lambda a: mapleaves(nxt, lambda b: leaf(add(a, b))))
        return gate(tot)
    s = mkq('sum', d, lo, hi, body)
    if all(isinstance(v, Term) and rng(v)[0] is not None and rng(v)[0] >= 0 for v in leaves(body)):
        h, n = [rng(v)[1] for v in leaves(body)], rng(hi)[1]
        RNG.setdefault(s, (0, None if None in h or n is None else max(h) * max(n, 0)))
    return s


def normal_sums(n):
    """Sums of one of two constants, written as multiples of the number of times one condition holds."""
    m, seen = {}, set()

    def go(x):
        if isinstance(x, Node):
            if x in seen:
                return
            seen.add(x)
            if x.var is not None:
                go(VARS[x.var])
                go(x.hi)
                go(x.lo)
            else:
                go(x.hi[1])
        elif isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, Term) and x not in seen:
            seen.add(x)
            if x.op == 'sum':
                d, lo, hi, body = x.args
                ls = list(leaves(body))
                if len(ls) == 2 and all(isinstance(v, Term) and is_num(v) for v in ls):
                    b = body
                    while b.var is not None:
                        b = b.lo
                    v0 = leafval(b)
                    v1 = [v for v in ls if v is not v0][0]
                    one = mkq('sum', d, lo, hi, mapleaves(body, lambda v: leaf(num(0) if v is v0 else num(1))))
                    y = add(mul(v0, sub(hi, lo)), mul(num(numval(v1) - numval(v0)), one))
                    if y is not x:
                        m[x] = y
            for y in x.args:
                go(y)
    go(n)
    return subst(n, m, {}) if m else n


def coll(d, lo, hi, body):
    """Collection built by concatenating, for each index, the tuple of terms at the leaf."""
    i = mk('idx', d, lo, hi)
    if lo is not num(0):
        n = sub(hi, lo)
        return coll(d, num(0), n, subst(body, {i: add(lo, mk('idx', d, num(0), n))}))
    if is_leaf(body):
        xs = leafval(body)
        if len(xs) == 0:
            return EMPTY
        if len(xs) == 1 and xs[0].op == 'index' and i not in xs[0].args[0].bv:
            c = xs[0].args[0]
            off = sub(xs[0].args[1], i)
            if i not in off.bv:
                return slice_(c, add(off, lo), add(off, hi))
    n = sub(hi, lo)
    if is_num(n) and numval(n) <= 64 and is_leaf(body):
        out = []
        for j in range(numval(n)):
            out.extend(subst(x, {i: add(lo, num(j))}) for x in leafval(body))
        if any(x.op == 'splice' for x in out):
            return concat([x.args[0] if x.op == 'splice' else mk('arr', (x,)) for x in out])
        return mk('arr', tuple(out))
    if EAGER and is_num(n) and numval(n) <= 300:
        out = _spread(i, numval(n), body)
        if out is not None:
            return concat(out) if out else EMPTY
    return mkq('coll', d, lo, hi, body)


EAGER = []     # non-empty while an instance of known size is analysed


def _spread(i, n, body):
    """The parts of a collection over a known range, one by one; None if one of them cannot be told."""
    out, memo = [], {}
    for j in range(n):
        b = subst(body, {i: num(j)})
        if not is_leaf(b):
            if any(len(xs) != 1 or xs[0].op == 'splice' for xs in leaves(b)):
                return None
            out.append(mk('arr', (gate(mapleaves(b, lambda xs: leaf(xs[0]))),)))
            continue
        for x in leafval(b):
            if x.op != 'splice':
                out.append(mk('arr', (x,)))
                continue
            y = x.args[0]
            if y.op == 'adt' and y.args[1] in ('Some', 'None') and y.args[0].endswith('Option'):
                out += [mk('arr', (y.args[3][0],))] if y.args[1] == 'Some' else []
            elif y.op in ('arr', 'concat', 'slice') or y.op == 'k':
                out.append(y)
            else:
                return None
    return out


def slice_(c, lo, hi):
    if lo is num(0) and hi is length(c):
        return c
    if lo is hi:
        return EMPTY
    if c.op == 'slice':
        return slice_(c.args[0], add(c.args[1], lo), add(c.args[1], hi))
    if c.op == 'k' and c.args[0] == 'bytes' and is_num(lo) and is_num(hi) and 0 <= numval(lo) <= numval(hi) <= len(c.args[1]):
        return K('bytes', c.args[1][numval(lo):numval(hi)])
    if c.op == 'arr' and is_num(lo) and is_num(hi) and 0 <= numval(lo) <= numval(hi) <= len(c.args[0]):
        return mk('arr', c.args[0][numval(lo):numval(hi)])
    if c.op == 'concat' and is_num(lo):
        # drop whole leading / trailing parts
        parts = list(c.args[0])
        off = 0
        while parts:
            l = length(parts[0])
            if is_num(l) and off + numval(l) <= numval(lo):
                off += numval(l)
                parts.pop(0)
            else:
                break
        if off:
            return slice_(concat(parts), sub(lo, num(off)), sub(hi, num(off)))
        if parts and lo is num(0) and length(parts[0]) is hi:
            return parts[0]
        if parts and is_num(length(parts[0])):
            # within, or from within, a first part of known length
            m = numval(length(parts[0]))
            if is_num(hi) and numval(lo) <= numval(hi) <= m:
                return slice_(parts[0], lo, hi)
            if numval(lo) > 0 and len(parts) > 1 and (hi is length(c) or is_num(hi) and numval(hi) > m):
                return concat([slice_(parts[0], lo, num(m)), slice_(concat(parts[1:]), num(0), sub(hi, num(m)))])
    if c.op == 'concat':
        # whole parts, also of symbolic length
        parts, ends, s = c.args[0], [num(0)], num(0)
        for x in parts:
            s = add(s, length(x))
            ends.append(s)
        a = next((k for k in range(len(ends) - 1, -1, -1) if ends[k] is lo), None)
        b = next((k for k in range(len(ends)) if ends[k] is hi), None)
        if a is not None and b is not None and a <= b:
            return concat(list(parts[a:b]))
        if a:
            return slice_(concat(list(parts[a:])), num(0), sub(hi, lo))
        if b is not None and b < len(parts):
            return slice_(concat(list(parts[:b])), lo, hi)
        d, m = sub(hi, lo), length(parts[-1])
        if b == len(parts) and is_num(d) and is_num(m) and numval(d) >= 0:
            # the end of a sequence whose last part has a known length
            if numval(d) <= numval(m):
                return slice_(parts[-1], sub(m, d), m)
            return concat([slice_(concat(list(parts[:-1])), lo, sub(hi, m)), parts[-1]])
    return mk('slice', c, lo, hi)


def concat(parts):
    out = []

    def put(q):
        q = norm_const(q)
        if q is EMPTY:
            return
        if q.op == 'concat':
            for x in q.args[0]:
                put(x)
            return
        if q.op == 'k' and q.args[0] == 'str':
            q = K('bytes', tuple(q.args[1].encode()))
        if q.op == 'arr' and any(x.op == 'splice' for x in q.args[0]):
            for x in q.args[0]:
                put(x.args[0] if x.op == 'splice' else mk('arr', (x,)))
            return
        if q.op == 'arr':
            run = []
            for x in q.args[0]:
                cst = is_num(x) and 0 <= numval(x) < 256
                if run and run[-1][0] == cst:
                    run[-1][1].append(x)
                else:
                    run.append((cst, [x]))
            if len(run) > 1:
                for cst, xs in run:
                    put(mk('arr', tuple(xs)))
                return
        if out and out[-1].op == 'k' and q.op == 'k' and out[-1].args[0] == 'bytes' and q.args[0] == 'bytes':
            out[-1] = K('bytes', out[-1].args[1] + q.args[1])
        elif out and out[-1].op == 'arr' and q.op == 'arr':
            out[-1] = mk('arr', out[-1].args[0] + q.args[0])
        elif out and out[-1].op == 'slice' and q.op == 'slice' and out[-1].args[0] is q.args[0] and out[-1].args[2] is q.args[1]:
            out[-1] = slice_(q.args[0], out[-1].args[1], q.args[2])
        else:
            out.append(q)
    for p in parts:
        put(p)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk('concat', tuple(out))


def push(c, x):
    return concat([c, mk('arr', (x,))])


# ---------------------------------------------------------------- theory axioms
def axioms(*diagrams, rounds=3):
    """Facts about the atoms occurring in the diagrams: threshold chains, sums of thresholds, variant
    exclusivity, monotonicity of quantifiers.  Returned as one boolean diagram."""
    vs = set()
    for dg in diagrams:
        vs |= support(dg)
    A = T
    quot = {t for v in vs if VARS[v].op == 'le' for t in lin_of(VARS[v].args[0])[1] if t.op == 'app' and t.args[0] in ('div', 'rem')}
    for q in quot:
        x, y = q.args[1]
        if q.args[0] == 'rem' and not is_num(y):
            A = conj(A, implies(le(num(1), y), le(q, sub(y, num(1)))))
        if q.args[0] == 'div':
            for p in quot:
                if p is not q and p.args[0] == 'div' and p.args[1][1] is y:
                    A = conj(A, implies(le(p.args[1][0], x), le(p, q)))
    # equal options carry equal values
    for v in list(vs):
        a = VARS[v]
        if a.op == 'eq' and all(x.op == 'vfld' and x.args[1] == 'Some' for x in a.args[:2]):
            x, y = a.args[0].args[0], a.args[1].args[0]
            p, q = is_variant(x, 'Some'), is_variant(y, 'Some')
            e = eq(x, y)
            A = conj(A, implies(conj(p, q), iff(e, lit(a))), implies(e, iff(p, q)))
    # k*(x div k) lies in [x-k+1, x]: bounds on sums with quotients bound the dividends
    todo, done = set(vs) | support(A), set()
    for _ in range(3):
        new = T
        for v in todo - done:
            done.add(v)
            a = VARS[v]
            if a.op != 'le':
                continue
            b, m = a.args
            cc, bd = lin_of(b)
            if len(bd) < 2:
                continue
            for q, c in bd.items():
                if q.op == 'idx':                  # an index lies in its range
                    last = add(q.args[2], num(-1))
                    dn = add(sub(b, scale(q, c)), scale(q.args[1] if c > 0 else last, c))
                    up = add(sub(b, scale(q, c)), scale(last if c > 0 else q.args[1], c))
                    p = lit(a)
                    new = conj(new, implies(p, le(dn, num(m))), implies(neg(p), le(num(m + 1), up)))
                    continue
                if q.op != 'app' or q.args[0] != 'div' or not is_num(q.args[1][1]) or numval(q.args[1][1]) < 2:
                    continue
                x, k = q.args[1][0], numval(q.args[1][1])
                if rng(x)[0] is None or rng(x)[0] < 0:
                    continue
                r = add(scale(sub(b, scale(q, c)), k), scale(x, c))
                lo = c * (k - 1) if c > 0 else 0           # k*b >= r - lo
                hi = -c * (k - 1) if c < 0 else 0          # k*b <= r + hi
                p = lit(a)
                new = conj(new, implies(p, le(r, num(k * m + lo))), implies(neg(p), le(num(k * (m + 1) - hi), r)))
        if new is T:
            break
        A = conj(A, new)
        todo = support(A)
    vs |= support(A)
    bybody = {}
    byvar = {}
    alls = {}
    eqs = {}
    for v in vs:
        a = VARS[v]
        if a.op == 'le':
            bybody.setdefault(a.args[0], set()).add(a.args[1])
        elif a.op == 'var':
            byvar.setdefault(a.args[0], []).append(v)
        elif a.op == 'all':
            alls.setdefault((a.args[0], a.args[1], a.args[2]), []).append(v)
        elif a.op == 'eq':
            for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                if is_const(y):
                    eqs.setdefault(x, []).append(v)
    for b, ks in bybody.items():
        ks = sorted(ks)
        for k1, k2 in zip(ks, ks[1:]):
            A = conj(A, implies(le0(sub(b, num(k1))), le0(sub(b, num(k2)))))
    # B1 <= k1 and B2 <= k2  =>  B1 + B2 <= k1 + k2   (and the mixed-sign versions)
    bodies = list(bybody)
    bset = {}
    if len(bodies) <= 60:
        lits = []
        for b in bodies:
            for k in bybody[b]:
                lits.append((b, k, 1))            # b <= k
                lits.append((b, -(k + 1), -1))    # -b <= -(k+1)
        bset = {}
        for b in bodies:
            bset[b] = 1
        n = 0
        for x in range(len(lits)):
            for y in range(x + 1, len(lits)):
                b1, k1, s1 = lits[x]
                b2, k2, s2 = lits[y]
                if b1 is b2:
                    continue
                s = add(scale(b1, s1), scale(b2, s2))
                if s.op == 'lin' and s.args[0] == 0 and len(s.args[1]) > 0 or s.op != 'lin':
                    m = scale(s, -1)
                    if (s in bset) or (m in bset):
                        p = le0(sub(scale(b1, s1), num(k1)))
                        q = le0(sub(scale(b2, s2), num(k2)))
                        r = _known_le(s, k1 + k2, bybody)
                        if r is not T:
                            A = conj(A, implies(conj(p, q), r))
                            n += 1
                if n > 400:
                    break
        # b <= k and (range of s - b)  =>  s <= k + max(s - b)
        for s in bodies:
            if s.op != 'lin' or len(s.args[1]) < 2:
                continue
            for b, k, sg in lits:
                if b is s:
                    continue
                for s2, m in ((s, 1), (scale(s, -1), -1)):
                    rest = sub(s2, scale(b, sg))
                    if rest.op == 'lin' and len(rest.args[1]) >= len(s.args[1]):
                        continue
                    hi = rng(rest)[1]
                    if hi is None:
                        continue
                    r = _known_le(s2, k + hi, bybody)
                    if r is not T:
                        A = conj(A, implies(le0(sub(scale(b, sg), num(k))), r))
    for q in {t for b in bodies for t in lin_of(b)[1] if t.op == 'app' and t.args[0] == 'div'}:
        x = q.args[1][0]
        if any(w in bset for w in (x, scale(x, -1), from_lin(0, lin_of(x)[1]), scale(from_lin(0, lin_of(x)[1]), -1))):
            A = conj(A, implies(eq_int(x, num(0)), eq_int(q, num(0))))
    for t, l in byvar.items():
        for x in range(len(l)):
            for y in range(x + 1, len(l)):
                A = conj(A, neg(conj(_node(l[x], T, F), _node(l[y], T, F))))
    for t, l in eqs.items():
        for x in range(len(l)):
            for y in range(x + 1, len(l)):
                A = conj(A, neg(conj(_node(l[x], T, F), _node(l[y], T, F))))
    for (d, lo, hi), l in alls.items():
        if len(l) > 12:
            continue
        emp = le(hi, lo)
        for x in l:
            A = conj(A, implies(emp, _node(x, T, F)))
            P = VARS[x].args[3]
            for y in l:
                if x == y:
                    continue
                Q = VARS[y].args[3]
                if valid(implies(P, Q)):
                    A = conj(A, implies(_node(x, T, F), _node(y, T, F)))
                elif valid(neg(conj(P, Q))):
                    A = conj(A, implies(conj(_node(x, T, F), _node(y, T, F)), emp))
        for x in range(len(l)):
            for y in range(x + 1, len(l)):
                PQ = conj(VARS[l[x]].args[3], VARS[l[y]].args[3])
                for z in l:
                    if z in (l[x], l[y]):
                        continue
                    if valid(implies(PQ, VARS[z].args[3])):
                        A = conj(A, implies(conj(_node(l[x], T, F), _node(l[y], T, F)), _node(z, T, F)))
    return A


def _known_le(s, k, bybody):
    """Strongest already-present consequence of s <= k."""
    if s in bybody:
        ks = [x for x in bybody[s] if x >= k]
        return le0(sub(s, num(min(ks)))) if ks else T
    m = scale(s, -1)
    if m in bybody:                                  # s <= k  <=>  m >= -k  => not (m <= j) for j < -k
        js = [x for x in bybody[m] if x < -k]
        return neg(le0(sub(m, num(max(js))))) if js else T
    return T


_valid_memo = {}


def valid(P):
    r = _valid_memo.get(P)
    if r is None:
        r = P is T or implies(axioms(P), P) is T
        _valid_memo[P] = r
    return r


def minimise(cube, A, nP):
    """Drops literals of a falsifying cube that are not needed (A: axioms, nP: negation of the claim)."""
    lits = [(lit(a) if b else neg(lit(a)), a, b) for a, b in cube]
    i = 0
    while i < len(lits) and len(lits) > 1:
        c = T
        for j, l in enumerate(lits):
            if j != i:
                c = conj(c, l[0])
        if implies(conj(A, c), nP) is T:
            lits.pop(i)
        else:
            i += 1
    return [(a, b) for _, a, b in lits]


def counter(P, extra=T):
    """A cube (modulo axioms) falsifying P, or None if P is valid."""
    A = conj(axioms(P, extra), extra)
    n = conj(A, neg(P))
    if n is F:
        return None
    return pick(n)


# ---------------------------------------------------------------- printing
_showbudget = [None]


def show(t, depth=0):
    b = _showbudget
    if b[0] is None:
        b[0] = 3000
        try:
            return show(t, depth)
        finally:
            b[0] = None
    b[0] -= 1
    if b[0] < 0:
        return '…'
    if isinstance(t, Node):
        return showb(t)
    if not isinstance(t, Term):
        return '(' + ', '.join(show(x) for x in t) + ')' if isinstance(t, tuple) else str(t)
    if depth > 12:
        return '…'
    if t.op == 'k' and t.args[0] == 'bytes' and len(t.args[1]) > 64:
        return 'bytes:(%s.. %d bytes)' % (', '.join(map(str, t.args[1][:8])), len(t.args[1]))
    o, a = t.op, t.args
    s = lambda x: show(x, depth + 1)
    if o == 'sym':
        return a[0]
    if o == 'fld':
        return '%s.%s' % (s(a[0]), a[1])
    if o == 'vfld':
        return '%s!%s.%s' % (s(a[0]), a[1], a[2])
    if o == 'lin':
        p = ['%s%s' % ('' if k == 1 else '-' if k == -1 else '%d*' % k, s(x)) for x, k in a[1]]
        if a[0] or not p:
            p.append(str(a[0]))
        return '(' + ' + '.join(p) + ')' if len(p) > 1 else p[0]
    if o == 'k':
        return repr(a[1]) if a[0] in ('str', 'bool') else 'zero%d' % len(a[1]) if a[0] == 'bytes' and len(a[1]) > 4 and not any(a[1]) else '%s:%s' % (a[0], a[1])
    if o == 'adt':
        return '%s{%s}' % (a[1] or a[0].split('::')[-1], ', '.join('%s:%s' % (k, s(v)) for k, v in zip(a[2], a[3])))
    if o == 'app':
        return '%s(%s)' % (a[0].split('::')[-1] if '<' not in a[0] else a[0], ', '.join(s(x) for x in a[1]))
    if o == 'len':
        return 'len(%s)' % s(a[0])
    if o == 'index':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'idx':
        return 'i%d' % a[0]
    if o == 'mul':
        return '*'.join(s(x) for x in a[0])
    if o == 'le':
        return '%s <= %d' % (s(a[0]), a[1])
    if o == 'eq':
        return '%s == %s' % (s(a[0]), s(a[1]))
    if o == 'var':
        return '%s is %s' % (s(a[0]), a[1])
    if o == 'b':
        return s(a[0])
    if o == 'bdd':
        return '<%s>' % showb(a[0])
    if o == 'gate':
        return '<%s>' % showb(a[0])
    if o == 'iter':
        return 'iter(%s)' % ', '.join(str(x) if isinstance(x, str) else s(x) for x in a)
    if o in ('all', 'sum', 'coll', 'first'):
        return '%s[i%d:%s..%s](%s)' % (o, a[0], s(a[1]), s(a[2]), showb(a[3]))
    return '%s(%s)' % (o, ', '.join(show(x, depth + 1) if isinstance(x, (Term, Node)) else '(' + ', '.join(show(y, depth + 1) for y in x) + ')' if isinstance(x, tuple) else str(x) for x in a))


def showb(n, lim=12):
    if n is T:
        return 'true'
    if n is F:
        return 'false'
    if n.var is None:
        return show(n.hi[1])
    cubes = []

    def go(x, acc):
        if len(cubes) >= lim:
            return
        if x is F:
            return
        if x.var is None:
            s = ' & '.join(('' if v else '!') + '(%s)' % show(VARS[a]) for a, v in acc)
            cubes.append(s if x is T else '%s -> %s' % (s or 'true', show(x.hi[1])))
            return
        go(x.hi, acc + [(x.var, True)])
        go(x.lo, acc + [(x.var, False)])
    go(n, [])
    return ' | '.join(cubes) + (' | ...' if len(cubes) >= lim else '')


def showcube(c):
    return ' & '.join(('' if v else 'not ') + '(%s)' % show(a) for a, v in c) or 'always'


sys.setrecursionlimit(200000)
