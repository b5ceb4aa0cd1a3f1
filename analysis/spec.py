"""Vocabulary in which the reference definitions of properties are written, and the comparison of those
definitions with what the analysed code computes."""
import json
import os
import time

import terms as TM
from terms import *
from interp import *
import interp as IN


class Missing(Exception):
    pass


_d = [100000]


def newd():
    _d[0] += 1
    return _d[0]


# ------------------------------------------------------------------ typed symbolic values
class V:
    """A value diagram together with its type."""
    __slots__ = ('n', 't', 'C')

    def __init__(self, n, t, C):
        self.n, self.t, self.C = n, t, C

    def _fields(self, variant=None):
        t = self.t
        if t['k'] == 'tuple':
            return [(str(i), a) for i, a in enumerate(t['args'])], False
        for v in t.get('variants') or []:
            if variant is None or v['name'] == variant:
                return [(f[0], f[1]) for f in v['fields']], transparent(t)
        raise Missing('variant %s of %s' % (variant, t['s']))

    def f(self, key, variant=''):
        t = self.t
        if t['k'] == 'ref':
            return V(self.n, self.C.T[t['of']], self.C).f(key, variant)
        fs, tr_ = self._fields(variant or None)
        for k, ft in fs:
            if k == key:
                T_ = self.C.T
                nt = T_[ft]
                if tr_:
                    return V(self.n, nt, self.C)
                I = Interp([self.C])
                e = ('f', key, variant if t['k'] == 'enum' else '', I.apath(t), len(fs), I.rngof(nt, T_))
                n = I.proj(self.n, e)
                return V(n, nt, self.C)
        raise Missing('field %s of %s' % (key, t['s']))

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return self.f(k.lstrip('_') if k[1:].isdigit() else k)

    def is_(self, variant):
        t = self.t
        names = tuple(v['name'] for v in t['variants'])
        if variant not in names:
            raise Missing('variant %s of %s' % (variant, t['s']))

        def one(x):
            if x.op != 'adt':
                variants_of(x, names)
            return is_variant(x, variant)
        return mapleaves(self.n, one)

    def some(self):
        return self.is_('Some')

    def none(self):
        return neg(self.is_('Some'))

    def get(self):
        return self.f('0', 'Some')

    def len(self):
        return mapleaves(self.n, lambda x: leaf(length(x)))

    def el(self):
        """Element type."""
        t = self.t
        T_ = self.C.T
        while t['k'] == 'ref' or transparent(t):
            t = T_[t['of']] if t['k'] == 'ref' else T_[t['variants'][0]['fields'][0][1]]
        if t.get('of') is not None:
            return T_[t['of']]
        return T_[t['args'][0]]

    def at(self, i):
        I = Interp([self.C])
        et = self.el()
        return V(ungate(mapleaves(self.n, lambda x: leaf(I.ranged(index(x, i), et, self.C.T)))), et, self.C)

    def eq(self, o):
        return veq(self.n, o.n if isinstance(o, V) else nod(o))

    def ne(self, o):
        return neg(self.eq(o))

    def all(self, P):
        """For every element: P(element)."""
        d = newd()
        return mapleaves(self.len(), lambda h: forall(d, num(0), h, P(self.at(mk('idx', d, num(0), h)))))

    def sum(self, f):
        d = newd()
        return mapleaves(self.len(), lambda h: leaf(summ(d, num(0), h, nod(f(self.at(mk('idx', d, num(0), h)))))))

    def each(self, f):
        """The byte strings f(element) of every element, concatenated in order."""
        d = newd()

        def one(h):
            r = nod(f(self.at(mk('idx', d, num(0), h))))
            return leaf(coll(d, num(0), h, mapleaves(r, lambda x: leaf((mk('splice', x),)))))
        return mapleaves(self.len(), one)

    def map(self, f):
        """The sequence of f(element)."""
        d = newd()
        return mapleaves(self.len(), lambda h: leaf(coll(d, num(0), h, mapleaves(nod(f(self.at(mk('idx', d, num(0), h)))), lambda x: leaf((x,))))))


def nod(x):
    if isinstance(x, V):
        return x.n
    if isinstance(x, Node):
        return x
    if isinstance(x, bool):
        return leaf(TRUE if x else FALSE)
    if isinstance(x, int):
        return leaf(num(x))
    if isinstance(x, str):
        return leaf(IN.TM.norm_const(K('str', x)))
    if isinstance(x, (bytes, bytearray)):
        return leaf(TM.norm_const(K('bytes', tuple(x))))
    return leaf(x)


def lift2(f, a, b):
    return mapleaves(nod(a), lambda x: mapleaves(nod(b), lambda y: f(x, y)))


def veq(a, b):
    a, b = nod(a), nod(b)
    if a is b:
        return T
    I = Interp([None]) if False else None

    def one(x, y):
        if x is PANIC or y is PANIC:
            return T if x is y else F
        if _bv(x) or _bv(y):
            return eq(x, y)
        return eq(x, y)
    return lift2(one, a, b)


def _bv(x):
    return x in RNG or x.op == 'lin'


def Le(a, b):
    return lift2(le, a, b)


def Lt(a, b):
    return lift2(lt, a, b)


def Ge(a, b):
    return lift2(le, b, a)


def Gt(a, b):
    return lift2(lt, b, a)


def Eq(a, b):
    return veq(a, b)


def Ne(a, b):
    return neg(veq(a, b))


def Add(*xs):
    r = nod(xs[0])
    for x in xs[1:]:
        r = lift2(lambda p, q: leaf(add(p, q)), r, x)
    return r


def Sub(a, b):
    return lift2(lambda p, q: leaf(sub(p, q)), a, b)


def Mul(a, b):
    return lift2(lambda p, q: leaf(mul(p, q)), a, b)


def Div(a, b):
    return lift2(lambda p, q: leaf(idiv(p, q)), a, b)


def Rem(a, b):
    return lift2(lambda p, q: leaf(irem(p, q)), a, b)


U64 = 2 ** 64 - 1


def Min(a, b):
    return ite(Le(a, b), nod(a), nod(b))


def Max(a, b):
    return ite(Le(a, b), nod(b), nod(a))


def maxof(v):
    """Largest value of an integer's type."""
    return nod(num(Interp([v.C]).rngof(v.t, v.C.T)[2]))


def sat(x, hi=U64):
    """min(max(x, 0), hi)"""
    return mapleaves(nod(x), lambda v: ite(le(v, num(hi)), ite(le(num(0), v), leaf(v), leaf(num(0))), leaf(num(hi))))


def Wrap(x, m=2 ** 64):
    """x modulo m, written as wrapping arithmetic writes it."""
    def f(v):
        lo, hi = rng(v)
        if lo is not None and hi is not None and lo >= 0 and hi < m:
            return leaf(v)
        y = app('wrap', v, num(m))
        RNG.setdefault(y, (0, m - 1))
        return leaf(y)
    return mapleaves(nod(x), f)


def If(c, a, b):
    return ite(c, nod(a), nod(b))


def Cat(*xs):
    r = leaf(EMPTY)
    for x in xs:
        r = lift2(lambda p, q: leaf(concat([p, q])), r, x)
    return r


def App(name, *xs):
    xs = [nod(x) for x in xs]

    def go(i, acc):
        if i == len(xs):
            return leaf(mk('app', name, tuple(acc)))
        return mapleaves(xs[i], lambda v: go(i + 1, acc + [v]))
    return go(0, [])


def Ok_(x=None):
    return mapleaves(nod(x) if x is not None else leaf(UNIT), lambda v: leaf(ok(v)))


def Some_(x):
    return mapleaves(nod(x), lambda v: leaf(some(v)))


def is_ok(n):
    def one(x):
        if x is PANIC or x.op == 'uninit':
            return F
        return is_variant(x, 'Ok')
    return mapleaves(n, one)


def is_some(n):
    def one(x):
        if x is PANIC or x.op == 'uninit':
            return F
        return is_variant(x, 'Some')
    return mapleaves(n, one)


def is_true(n):
    def one(x):
        if x is PANIC or x.op == 'uninit':
            return F
        return as_bdd(x)
    return mapleaves(n, one)


def panics(R):
    """Condition under which the summary aborts."""
    return mapleaves(R.ret if isinstance(R, Result) else R, lambda x: T if x is PANIC else F)


def payload(n, v='Ok'):
    return ungate(mapleaves(n, lambda x: leaf(vfld(x, v, '0')) if not (x.op in ('panic', 'uninit') or (x.op == 'adt' and x.args[1] != v)) else leaf(UNINIT)))


# ------------------------------------------------------------------ the analysed program
class Prog:
    def __init__(self, facts):
        self._symty = {}
        self.lib = Crate(facts['lib'])
        self.bin = Crate(facts['bin'])
        self.notes = []
        self.inlined = set()
        self.ext = set()
        self.sites = {}
        self.steps = 0

    def fns(self, suffix=None, self_ty=None, item=None, trait=None, crate=None):
        C = crate or self.lib
        r = []
        for f in C.fns:
            if not f.get('blocks') or not f['local'] or f['kind'] != 'item':
                continue
            if suffix is not None and not (f['path'] == suffix or f['path'].endswith('::' + suffix) or f['path'].endswith(suffix) and suffix[0] in '<:'):
                continue
            if item is not None and f.get('item', f['name']) != item and f['name'] != item:
                continue
            if self_ty is not None:
                s = C.T[f['self']]['s'] if f.get('self') is not None else ''
                if not (s == self_ty or s.endswith('::' + self_ty) or s.split('<')[0].endswith('::' + self_ty)):
                    continue
            if trait is not None and not (f.get('trait') or '').endswith(trait):
                continue
            r.append(f)
        return r

    def fn(self, suffix, crate=None):
        """The function named, or, failing that, the only function of that name on that type."""
        l = [f for f in self.fns(suffix, crate=crate) if f.get('dk') != 'Closure']
        if not l:
            q = suffix.split('::')
            if len(q) >= 2:
                l = [f for f in self.fns(item=q[-1], crate=crate) if ('::' + q[-2]) in ('::' + f['path'].replace('>', '')) and f.get('dk') != 'Closure']
        if not l:
            raise Missing('function %s' % suffix)
        ids = {(f['file'], f['line']) for f in l}
        if len(ids) > 1:
            raise Missing('function %s is ambiguous: %s' % (suffix, sorted(ids)))
        return l[0]

    def insts(self, suffix, crate=None):
        """All monomorphic instances of a (generic) function."""
        l = [f for f in self.fns(suffix, crate=crate) if f.get('dk') != 'Closure']
        if not l:
            raise Missing('function %s' % suffix)
        return l

    def type(self, name, crate=None):
        C = crate or self.lib
        l = [t for t in C.T if t['k'] in ('struct', 'enum') and (t['path'] == name or t['path'].endswith('::' + name))]
        if not l:
            raise Missing('type ' + name)
        return l[0]

    def sym(self, name, t, crate=None):
        C = crate or self.lib
        if isinstance(t, str):
            t = self.type(t, C)
        # one symbol per name and type: what is known of a value goes with its type
        u = t
        while u['k'] == 'ref':
            u = C.T[u['of']]
        while self._symty.setdefault(name, u['s']) != u['s']:
            name += "'"
        x = mk('sym', name)
        I = Interp([C])
        I.ranged(x, t, C.T)
        return V(leaf(x), t, C)

    def params(self, f, names=None):
        """Symbolic parameters of f: (diagrams for the call, V views of the initial values, cells)."""
        C = f['_c']
        args, vs, cells = [], [], {}
        for i in range(f['argc']):
            t = C.T[f['locals'][i + 1]]
            nm = names[i] if names and i < len(names) else f['names'].get(str(i + 1), 'arg%d' % i)
            v = self.sym(nm, t, C)
            u = t
            mut = False
            while u['k'] == 'ref':
                mut = mut or bool(u.get('mut'))
                u = C.T[u['of']]
            if mut:
                cells[nm] = v.n
                args.append(cell(nm))
            else:
                args.append(v.n)
            vs.append(V(v.n, u, C))
        return args, vs, cells

    def interp(self, C=None, **kw):
        Cs = [C or self.lib]
        if self.lib not in Cs:
            Cs.append(self.lib)
        return Interp(Cs, **kw)

    def run(self, f, args=None, cond=T, cells=None, opaque=(), max_steps=400000, names=None, db=None, models=None, fallible=None, eager=None):
        """Summary of f (eager: inputs of known size, loops are unrolled): Result(ret, out cells, ok condition, parameter views)."""
        C = f['_c']
        I = self.interp(C, opaque=opaque, max_steps=max_steps)
        I.db = db
        I.models = dict(models or {})
        I.fallible = fallible
        I.eager = eager
        vs = None
        if args is None:
            args, vs, cells = self.params(f, names)
        if eager is not None:
            TM.EAGER.append(1)
        try:
            r, s, k = I.analyse(f, [nod(a) for a in args], cond=cond, cells=cells)
        finally:
            del TM.EAGER[:]
        self.notes += I.notes
        self.inlined |= I.inlined
        self.ext |= I.ext
        self.sites.update(I.atomsite)
        self.steps += I.steps
        R = Result()
        R.ret, R.state, R.okc, R.I, R.f, R.p = r, s, k, I, f, vs
        R.out = {kk[1]: v for kk, v in s.items() if kk[0] == -1 and kk[1] not in ('#rng', '#fx', '#err')}
        R.err = cond_of(s.get((-1, '#err'), leaf(num(0))), lambda x: x is num(1))
        R.events = I.events
        R.rt = C.T[f['locals'][0]]
        R.v = V(r, R.rt, C)
        return R

    def call(self, name, *args, **kw):
        f = self.fn(name) if isinstance(name, str) else name
        return self.run(f, args=[nod(a) for a in args], **kw)


class Result:
    pass


# ------------------------------------------------------------------ obligations
def has_unk(t, memo={}):
    r = memo.get(t)
    if r is None:
        if isinstance(t, Term):
            r = t.op in ('unk', 'whl') or any(has_unk(a) for a in t.args if isinstance(a, (Term, Node, tuple)))
        elif isinstance(t, Node):
            r = any(has_unk(VARS[v]) for v in support(t)) or any(has_unk(x) for x in leaves(t) if isinstance(x, (Term, tuple)))
        else:
            r = any(has_unk(x) for x in t if isinstance(x, (Term, Node, tuple)))
        memo[t] = r
    return r


class Check:
    def __init__(self, pid, P):
        self.pid, self.P = pid, P
        self.obs = []            # (name, status, where, detail)
        self.rules = []

    def rule(self, s):
        self.rules.append(s)

    def ob(self, name, status, where='', detail=''):
        self.obs.append((name, status, where, detail))

    def holds(self, name, P, where='', sites=(), assume=T, free=None):
        """The boolean diagram P must be valid (free: conditions that may go either way whatever their arguments are)."""
        P = implies(assume, P)
        A = axioms(P)
        bad = conj(A, neg(P))
        if bad is not F:
            Q = TM.lift_gates(P)
            if Q is not P:
                P = Q
                A = axioms(P)
                bad = conj(A, neg(P))
        if bad is F:
            self.ob(name, 'ok', where)
            return True
        uv = [v for v in support(bad) if has_unk(VARS[v]) and not (free and free(VARS[v]))]
        if uv:
            sure = neg(exists(neg(bad), uv))
            if sure is F:
                self.ob(name, 'undecided', where, 'depends on constructs the analysis does not interpret: ' + '; '.join(show(VARS[v])[:200] for v in uv[:4]))
                return None
            bad = sure
        c = minimise(pick(bad), A, neg(P)) if not uv else pick(bad)
        at = []
        for v, b in c:
            s = self.P.sites.get(v)
            if s:
                at.append('%s:%s (%s)' % (s[0], s[1], s[2]))
        self.ob(name, 'violation', where, 'differs when ' + showcube(c)[:6000] + ('; decided at ' + ', '.join(dict.fromkeys(at)) if at else ''))
        return False

    def iff(self, name, got, want, where='', assume=T):
        return self.holds(name, iff(got, want), where, assume=assume)

    def implies(self, name, a, b, where=''):
        return self.holds(name, implies(a, b), where)

    def same(self, name, got, want, where='', assume=T):
        got, want = care(nod(got), assume) if assume is not T else nod(got), nod(want)
        c = veq(got, want)
        if c is not T:
            a, b = TM.normal_sums(got), TM.normal_sums(want)
            if a is not got or b is not want:
                c = disj(c, veq(a, b))
        return self.holds(name, c, where, assume=assume)

    def fail(self, name, where, detail):
        self.ob(name, 'violation', where, detail)

    def und(self, name, where, detail):
        self.ob(name, 'undecided', where, detail)

    def ok(self, name, where='', detail=''):
        self.ob(name, 'ok', where, detail)


def loc(f):
    return '%s:%s %s' % (f['file'], f['line'], f['path'])


def inst(P, suffix, tname, crate=None):
    """The instance of a generic function at a type."""
    for f in P.insts(suffix, crate):
        C = f['_c']
        for t in f['targs'] or []:
            s = C.T[t]['s'] if isinstance(t, int) else str(t)
            if s == tname or s.endswith('::' + tname):
                return f
    raise Missing('instance %s<%s>' % (suffix, tname))


def hash_of(P, v):
    """Digest of a value, as the tree's own hash_obj computes it (its shape is the subject of C01-C03)."""
    f = inst(P, 'hash_obj', v.t['path'].split('::')[-1])
    R = P.run(f, args=[v.n])
    return R.ret


def params_of(P, proto):
    """(supported?, parameters) of a protocol version, as the tree looks them up."""
    R = P.call('config::consensus::consensus_params', proto) if P.fns('config::consensus::consensus_params') else P.call('consensus_params', proto)
    t = R.v.t
    pt = P.lib.T[t['args'][0]]
    while pt['k'] == 'ref':
        pt = P.lib.T[pt['of']]
    good = is_ok(R.ret)
    return good, V(payload(R.ret), pt, P.lib)


DALEK_VERIFY = 'ed25519_dalek::Verifier::verify<ed25519_dalek::PublicKey, ed25519_dalek::Signature>'
DIGEST = 'ed25519_dalek::Digest::digest<sha2::Sha512Trunc256>'


def sig_ok(pk, msg, sig):
    return is_ok(App(DALEK_VERIFY, pk, msg, sig))


def digest(b):
    return App(DIGEST, b)


def run_mut(P, f, state, *args, **kw):
    """Runs a method on &mut self: (result, new state)."""
    R = P.run(f, args=[cell('#self')] + [nod(a) for a in args], cells={'#self': nod(state)}, **kw)
    return R, R.out['#self']


def zero(n):
    return nod(num(n)) if isinstance(n, int) else n


def default_val(P, t):
    """Default value of a type according to the tree's Default implementation."""
    from intrinsics import default_of
    C = P.lib
    x = default_of(None, t, C.T)
    if x is not None:
        return leaf(x)
    for f in C.fns:
        if f.get('blocks') and (f.get('item') or f['name']) == 'default' and f['argc'] == 0 and C.T[f['locals'][0]]['s'] == t['s'] and f['kind'] == 'item':
            return P.run(f, args=[]).ret
    for f in C.fns:     # arrays / newtypes
        pass
    if transparent(t):
        return default_val(P, C.T[t['variants'][0]['fields'][0][1]])
    if not t.get('local'):
        return leaf(app('std::default::Default::default<%s>' % t['s']))
    raise Missing('Default of ' + t['s'])

def any_rec(P, name, **kv):
    """A struct of the tree with the given fields, and anything in the others."""
    t = P.type(name)
    for k, ty, *_ in t['variants'][0]['fields']:
        if k not in kv:
            kv[k] = P.sym('any_' + k, P.lib.T[ty], P.lib).n
    return rec(P, name, **kv)


def rec(P, name, **kv):
    """A struct of the tree with the given fields."""
    t = P.type(name)
    fs = [f[0] for f in t['variants'][0]['fields']]
    if set(fs) != set(kv):
        raise Missing('fields of ' + name)
    xs = [nod(kv[k]) for k in fs]
    I = Interp([P.lib])

    def go(i, acc):
        if i == len(xs):
            return leaf(TM.adt(I.apath(t), '', tuple(fs), tuple(acc)))
        return mapleaves(xs[i], lambda v: go(i + 1, acc + [v]))
    return go(0, [])


# ------------------------------------------------------------------ uncounted loops
def subterms(n):
    """Every term occurring in a diagram."""
    seen, out = set(), []

    def go(x):
        if id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, TM.Node):
            for v in support(x):
                go(VARS[v])
            for y in leaves(x):
                go(y)
        elif isinstance(x, TM.Term):
            out.append(x)
            for a in x.args:
                go(a)
        elif isinstance(x, tuple):
            for a in x:
                go(a)
    go(n)
    return out


class Loop:
    """An uncounted loop: start values, condition of going round again, values after one round."""
    def __init__(self, key):
        self.key = key
        self.d, _, _, self.inits, self.back, nx = key
        self.next = [ungate1(x) for x in nx]
        self.vars = [mk('lv', self.d, 'w%d' % i) for i in range(len(self.inits))]

    def role(self, pred):
        """The only carried value whose start value satisfies the predicate."""
        l = [i for i, x in enumerate(self.inits) if pred(x)]
        if len(l) != 1:
            raise Missing('role in a loop')
        return l[0]

    def at_end(self, i):
        return leaf(mk('whl', *self.key, i))

    def var(self, i, t, C):
        I = Interp([C])
        I.ranged(self.vars[i], t, C.T)
        return V(leaf(self.vars[i]), t, C)


    also = ()

    def recorded(self, I, n):
        """Something recorded in a round of the loop, as a function of the carried values."""
        pos = {mk('whl', *self.key, i): v for i, v in enumerate(self.vars)}
        for key, inj in self.also:
            pos.update({mk('whl', *key, i): self.vars[j] for i, j in enumerate(inj)})
        m = {z: pos[w] for z, w in I.round_of.items() if w in pos}
        return TM.subst(n, m)

    def stopped(self, n):
        """A value after the loop, as a function of the carried values in its last state."""
        m = {mk('whl', *self.key, i): v for i, v in enumerate(self.vars)}
        for key, inj in self.also:
            m.update({mk('whl', *key, i): self.vars[j] for i, j in enumerate(inj)})
        return TM.subst(n, m)


def main_loop(n):
    """The only uncounted loop in a value: the terms for its carried values may mention only those which matter for them."""
    import itertools
    ls = sorted(loops(n), key=lambda L: -len(L.inits))
    if not ls:
        raise Missing('a loop')
    L, also = ls[0], []
    for M in ls[1:]:
        for inj in itertools.combinations(range(len(L.inits)), len(M.inits)):
            ren = {M.vars[i]: L.vars[j] for i, j in enumerate(inj)}
            if all(L.inits[j] is M.inits[i] for i, j in enumerate(inj)) and M.d == L.d and TM.subst(M.back, ren) is L.back \
                    and all(TM.subst(nod(M.next[i]), ren) is nod(L.next[j]) for i, j in enumerate(inj)):
                also.append((M.key, inj))
                break
        else:
            raise Missing('one loop (found %d)' % len(ls))
    L.also = tuple(also)
    return L


def loops(n):
    r = {}
    for x in subterms(n):
        if x.op == 'whl':
            r.setdefault(x.args[:6], Loop(x.args[:6]))
    return list(r.values())


def appended(n, cur):
    """The element which a sequence has been extended by, as a diagram."""
    def one(x):
        if x.op == 'concat' and len(x.args[0]) >= 2:
            a, b = x.args[0][:-1], x.args[0][-1]
            head = a[0] if len(a) == 1 else mk('concat', a)
            if head is cur and b.op == 'arr' and len(b.args[0]) == 1:
                return ungate(leaf(b.args[0][0]))
        raise Missing('extension of a sequence by one element')
    return ungate(mapleaves(ungate(n), one))


def One(x):
    """The one-element sequence."""
    return mapleaves(nod(x), lambda y: leaf(mk('arr', (y,))))
