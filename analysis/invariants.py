"""Inductive facts about uncounted loops (candidate invariants, kept when the start values satisfy them and one round keeps them)."""
from spec import *
import terms as TM


def prove(A, goal):
    bad = conj(A, neg(goal))
    if bad is F:
        return True
    return conj(axioms(bad), bad) is F


def reduced(t):
    """The same carried value seen through the smallest set of carried values it depends on."""
    d, lo, hi, inits, back, nx, j = t.args
    n = len(inits)
    lv = [mk('lv', d, 'w%d' % i) for i in range(n)]
    deps = [{i for i in range(n) if lv[i] in nx[k].bv} for k in range(n)]
    bb = node_bv(back) if isinstance(back, TM.Node) else back.bv
    s = {j} | {i for i in range(n) if lv[i] in bb}
    todo = list(s)
    while todo:
        for y in deps[todo.pop()]:
            if y not in s:
                s.add(y)
                todo.append(y)
    if len(s) == n:
        return t
    rel = sorted(s)
    tmp = {lv[i]: mk('lv', d, 'w%d' % k) for k, i in enumerate(rel)}
    for i in rel:
        for tab in (TM.RNG, TM.NFIELDS, TM.VARIANTS):
            if lv[i] in tab:
                tab.setdefault(tmp[lv[i]], tab[lv[i]])
    sb = lambda x: TM._sub_any(x, tmp, {})
    r = mkq_('whl', d, lo, hi, tuple(inits[i] for i in rel), sb(back), tuple(sb(nx[i]) for i in rel), rel.index(j))
    return r


mkq_ = TM.mkq


def keys_of(n):
    r = []
    for x in subterms(n):
        if x.op == 'whl' and x.args[:6] not in r:
            r.append(x.args[:6])
    return r


def is_seq(x):
    return x.op in ('arr', 'coll', 'concat', 'slice', 'rep', 'store', 'sorted') or x in TM.LEN or (x.op == 'k' and x.args[0] in ('str', 'bytes'))


def is_int(x):
    return TM._intish(x) if hasattr(TM, '_intish') else TM.RNG.get(x) is not None


def about(A, ban):
    """What a condition says without the given terms (weakening)."""
    vs = [v for v in support(A) if any(y in ban for y in subterms(leaf(VARS[v])))]
    return exists(A, vs) if vs else A


def seqs_of(L):
    out = []
    for i, x in enumerate(L.inits):
        w = L.vars[i]
        xs = [x] if x.op != 'gate' else leaves(x.args[0])
        if all(is_seq(y) for y in xs):
            out.append(i)
    return out


def length_of(x):
    return TM.length(x)


class Inv:
    """Facts which hold of the carried values of a loop every time its head is reached."""
    def __init__(self, key, A, depth):
        self.key = key
        L = Loop(key)
        self.L = L
        self.facts = []            # functions: values -> condition
        self.first = []            # sequences whose first element never changes
        n = len(L.inits)
        seqs = seqs_of(L)
        ints = [i for i in range(n) if i not in seqs and L.inits[i].op in ('k', 'lin', 'len') or L.inits[i].op == 'k' and L.inits[i].args[0] == 'int']
        back = nod(L.back)
        nxt = [gate(nod(x)) for x in L.next]
        cand = []
        one = lambda j: (lambda vs: Ge(leaf(TM.length(vs[j])), 1))
        last = lambda j: (lambda vs: conj(Ge(leaf(TM.length(vs[j])), 1), Ge(leaf(TM.length(TM.index(vs[j], TM.add(TM.length(vs[j]), num(-1))))), 1)))
        either = lambda i, j: (lambda vs: disj(Eq(leaf(vs[i]), leaf(L.inits[i])), Ge(leaf(TM.length(vs[j])), 1)))
        for j in seqs:
            cand += [('one', j, one(j)), ('last', j, last(j))]
            for i in range(n):
                if i not in seqs:
                    cand.append(('either', j, either(i, j)))
        # the start values
        cand = [c for c in cand if self.ok(A, c[2](L.inits), depth)]
        # one round, until nothing more is dropped
        while cand:
            H = conj(A, back, *[c[2](L.vars) for c in cand])
            kept = [c for c in cand if self.ok(H, c[2](nxt), depth)]
            if len(kept) == len(cand):
                break
            cand = kept
        self.cand = cand

    def ok(self, A, goal, depth):
        if goal is T or prove(A, goal):
            return True
        if depth <= 0:
            return False
        A2 = strengthen(conj(A), neg(goal), depth - 1)
        return prove(A2, goal)

    def at(self, ts):
        return [c[2](ts) for c in self.cand]


_cache = {}


def head_kept(key, j):
    """Does every round leave the first element of a (non-empty) sequence alone?"""
    L = Loop(key)
    x0, v = L.inits[j], L.vars[j]
    if not is_seq(x0) or not prove(T, Ge(leaf(TM.length(x0)), 1)):
        return False

    def keeps(x):
        while x.op == 'concat':
            x = x.args[0][0]
        return x is v
    return all(keeps(x) for x in leaves(ungate(nod(L.next[j]))))


def heads(A):
    """Replaces the first element of a sequence which only grows by the first element it started with."""
    m = {}
    for x in subterms(A):
        if x.op == 'index' and x.args[0].op == 'whl' and x.args[1] is num(0):
            w = x.args[0]
            if head_kept(w.args[:6], w.args[6]):
                m[x] = TM.index(w.args[3][w.args[6]], num(0))
    return TM.subst(A, m, {}) if m else A


def strengthen(A, other, depth=2):
    """A together with the invariants of the loops whose results it (or the other condition) mentions."""
    A, other = heads(A), heads(other)
    B = conj(A, other)
    for key in keys_of(B):
        ws = {x for x in subterms(B) if x.op == 'whl' and x.args[:6] == key}
        k = (key, A, depth)
        inv = _cache.get(k)
        if inv is None:
            ban = {x for x in subterms(B) if x.op == 'whl' and (x.args[:6] == key)}
            inv = _cache[k] = Inv(key, about(A, ban), depth)
        full = [reduced(mk('whl', *key, i)) for i in range(len(inv.L.inits))]
        for c in inv.at(full):
            A = conj(A, c)
    return A


def loop_id(key):
    """Identifies the loop itself: the carried values which decide whether it goes round again."""
    L = Loop(key)
    bb = {y for y in subterms(leaf(gate(nod(L.back)))) if y.op == 'lv'}
    for i, x in enumerate(L.vars):
        if x in bb:
            return reduced(mk('whl', *key, i)).args[:6]
    return key


def rounds(bad, limit=3):
    """The condition with every loop replaced by its first rounds: conditions under which it certainly arises."""
    out = []
    todo = [(bad, 0)]
    while todo and len(out) < 60:
        b, lev = todo.pop()
        if b is F:
            continue
        ks = keys_of(b)
        if not ks:
            out.append(b)
            continue
        if lev >= 4:
            continue
        # loops whose start values mention no other loop's result come first
        free = [k for k in ks if not any(x.op == 'whl' for y in k[3] for x in subterms(leaf(y)))]
        if not free:
            continue
        gid = loop_id(free[0])
        group = [k for k in free if loop_id(k) == gid]
        Ls = {k: Loop(k) for k in group}
        vals = {k: list(k[3]) for k in group}
        guard = T
        whls = [x for x in subterms(b) if x.op == 'whl' and x.args[:6] in Ls]
        for r in range(limit):
            m = {x: vals[x.args[:6]][x.args[6]] for x in whls}
            b2 = conj(guard, TM.subst(b, m, {}))
            if b2 is not F:
                todo.append((b2, lev + 1))
            for k in group:
                L = Ls[k]
                sub = {L.vars[i]: vals[k][i] for i in range(len(L.vars))}
                guard = conj(guard, TM.subst(nod(L.back), sub, {}))
                vals[k] = [gate(TM.subst(nod(x), sub, {})) for x in L.next]
            if guard is F:
                break
    return out
