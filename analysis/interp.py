import re
"""Gated value-flow analysis over the extracted MIR.

For a function the analysis computes, without executing anything, a *gated value graph*: every local
holds a decision diagram whose inner nodes are primitive conditions (atoms over canonical terms) and
whose leaves are terms.  Control-flow joins merge the incoming values under the edge conditions
(gated single assignment), calls are inlined bottom-up at the value level, and natural loops are
summarised (counted loops become quantifiers, sums, collections or folds over a bound index).
"""
from terms import *
import terms as TM

INTR = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1),
        'u128': (0, 2**128 - 1), 'i8': (-128, 127), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1),
        'i64': (-2**63, 2**63 - 1), 'isize': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1), 'char': (0, 0x10ffff)}
PANIC = mk('panic')
UNINIT = mk('uninit')
SKIP = mk('adt', 'skip', '#skip', (), ())


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


class Crate:
    def __init__(self, D):
        self.D = D
        self.T = D['types']
        self.name = D.get('crate')
        self.fns = D['fns']
        self.byid = {f['id']: f for f in D['fns']}
        for f in D['fns']:
            f['_c'] = self
        for t in self.T:
            if t['k'] == 'enum' and t.get('variants') and t['path'] not in ('std::option::Option', 'std::result::Result'):
                TM.ENUMS[t['path']] = tuple(v['name'] for v in t['variants'])
        self.consts = {c['path']: c for c in D['consts']}
        I = Interp([self])
        for t in self.T:
            if t['k'] in ('struct', 'enum') and t.get('variants') and not transparent(t):
                for v in t['variants']:
                    for f in v['fields']:
                        k = (I.apath(t), v['name'] if t['k'] == 'enum' else '', f[0])
                        i = I.rngof(self.T[f[1]], self.T)
                        if k in TM.FIELDINFO and TM.FIELDINFO[k] != i:
                            i = None
                        TM.FIELDINFO[k] = i
        self.bypath = {}
        for f in D['fns']:
            self.bypath.setdefault(f['path'], []).append(f)


class Loop:
    __slots__ = ('header', 'blocks', 'parent', 'back', 'recorded')


def succs(b):
    t = b['t']
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [x[1] for x in t[3]] + ([t[4]] if t[4] is not None else [])
    if k == 'drop':
        return [t[3]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[5]]
    return []


def cfg(f):
    """Reverse postorder and natural loops of a body (cached on the record)."""
    if '_cfg' in f:
        return f['_cfg']
    B = f['blocks']
    order, seen = [], set()
    st = [(0, iter(succs(B[0])))]
    seen.add(0)
    while st:
        n, it = st[-1]
        for s in it:
            if s is not None and s not in seen and s < len(B):
                seen.add(s)
                st.append((s, iter(succs(B[s]))))
                break
        else:
            order.append(n)
            st.pop()
    order.reverse()
    pos = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for s in succs(B[b]):
            if s in pos:
                preds[s].append(b)
    # dominators
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in preds[b] if p in idom]
            n = ps[0]
            for p in ps[1:]:
                x, y = n, p
                while x != y:
                    while pos[x] > pos[y]:
                        x = idom[x]
                    while pos[y] > pos[x]:
                        y = idom[y]
                n = x
            if idom.get(b) != n:
                idom[b] = n
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == order[0]:
                return False
            b = idom[b]
    loops = {}
    irreducible = False
    for b in order:
        for s in succs(B[b]):
            if s in pos and pos[s] <= pos[b]:
                if not dom(s, b):
                    irreducible = True
                    continue
                L = loops.get(s)
                if L is None:
                    L = loops[s] = Loop()
                    L.header, L.blocks = s, {s}
                work = [b]
                while work:
                    x = work.pop()
                    if x in L.blocks:
                        continue
                    L.blocks.add(x)
                    work.extend(preds[x])
    f['_cfg'] = (order, pos, loops, irreducible)
    return f['_cfg']


def transparent(t):
    if t['k'] != 'struct' or not t.get('local'):
        return False
    vs = t.get('variants')
    return bool(vs) and len(vs[0]['fields']) == 1 and vs[0]['fields'][0][0] == '0'


def typed(x, info):
    """Records on a symbolic term what its type guarantees."""
    if info is not None and x.op not in ('lin', 'gate', 'ptr', 'uninit', 'panic', 'arr', 'k', 'rep', 'adt'):
        if info[0] == 'r':
            RNG.setdefault(x, info[1:])
        elif x.op not in ('concat', 'slice', 'coll', 'store') and x not in LEN and x not in DYN:
            LEN[x] = num(info[1])
    return x


class Frame:
    __slots__ = ('f', 'id', 'T', 'C', 'depth', 'line')


def _block(n):
    """(position, length) of the block of ones a mask consists of."""
    if n <= 0:
        return None
    k = (n & -n).bit_length() - 1
    m = n >> k
    return (k, m.bit_length()) if (m + 1) & m == 0 else None


class Interp:
    def __init__(self, crates, opaque=(), known=None, max_steps=400000, max_depth=40):
        self.crates = crates
        self.main = crates[0]
        self.opaque = list(opaque)         # predicates / path strings kept uninterpreted
        self.models = {}                   # contracts of functions proved elsewhere: path suffix -> handler(ctx, *values)
        self.fallible = None               # predicate on callee names: a failure is remembered in the cell '#err'
        self.eager = None                  # instances of known size: loops are unrolled, with this many uncertain exits
        self.frames = {}
        self.nextf = 0
        self.loopd = 1000
        self.steps = 0
        self.max_steps = max_steps
        self.max_depth = max_depth
        self.stack = []
        self.notes = []                    # imprecision notes
        self.inlined = set()
        self.ext = set()                   # uninterpreted external callees
        self.atomsite = {}
        self.panics = []
        self.recs = []                     # what is recorded along the way (loops: in the final pass over the body only)
        self.recmark = 0
        self.nloops = 0
        self.round_of = {}                 # value carried into a recorded round -> the value after the loop
        self.writing = False
        self.obl = None                    # proof obligations of panicking / wrapping operations, when collected
        self.frs = []
        self.fxlog = []
        self.events = []
        self.loops = 0
        self.trace = False
        import intrinsics
        self.intr = intrinsics

    # ------------------------------------------------------------ types
    def ty(self, fr, t):
        return fr.T[t]

    # ------------------------------------------------------------ state primitives
    def load(self, st, ptr):
        """Value diagram behind a pointer term."""
        _, fid, loc, path = ptr.op, ptr.args[0], ptr.args[1], ptr.args[2]
        v = st.get((fid, loc))
        if v is None:
            return leaf(UNINIT)
        for e in path:
            v = self.proj(v, e)
        return v

    def proj(self, v, e):
        k = e[0]
        if k == 'f':
            return ungate(mapleaves(v, lambda x: leaf(self.pfld(x, e))))
        if k == 'i':
            return ungate(mapleaves(v, lambda x: leaf(index(x, e[1]))))
        if k == 's':
            return mapleaves(v, lambda x: leaf(slice_(x, e[1], e[2])))
        if k == 'w':       # a value seen as a sequence of one element (slice::from_mut)
            return mapleaves(v, lambda x: leaf(mk('arr', (x,))))
        if k == 'mv':      # value of a map at a key (get_mut / entry / IndexMut)
            return ungate(mapleaves(v, lambda x: leaf(mapget(x, e[1]))))
        if k == 'id':
            return v
        raise Unsupported('proj ' + k)

    def pfld(self, x, e):
        # e = ('f', key, variant or '', struct path, nfields, rng)
        if x.op in ('uninit', 'panic'):
            return UNINIT
        if e[2]:
            r = vfld(x, e[2], e[1])
        else:
            r = fld(x, e[1], e[3], e[4])
        # a part of a value built here is whatever was put there: its type says nothing about other paths
        return typed(r, e[5]) if r.op in ('fld', 'vfld') and r.args[0] is x else r

    def upd(self, v, path, new, cond=T):
        """Functional update of the diagram v at path with diagram new."""
        if not path:
            return new
        e = path[0]
        k = e[0]
        old = self.proj(v, e) if len(path) > 1 else None
        sub_ = self.upd(old, path[1:], new) if len(path) > 1 else new
        if k == 'id':
            return sub_

        def one(x):
            g = sub_
            if k == 'f':
                gt = gate(g)
                if x.op == 'adt' and e[1] in x.args[2] and (not e[2] or x.args[1] == e[2]):
                    vals = list(x.args[3])
                    vals[x.args[2].index(e[1])] = gt
                    return leaf(adt(x.args[0], x.args[1], x.args[2], vals))
                keys = e[6]
                if keys is None:
                    raise Unsupported('update of unknown struct')
                vals = [gt if kk == e[1] else self.pfld(x, ('f', kk, e[2], e[3], e[4], None)) for kk in keys]
                return leaf(adt(e[3], e[2], keys, vals))
            if k == 'i':
                return leaf(store(x, e[1], gate(g)))
            if k == 'w':
                return ungate(mapleaves(g, lambda y: leaf(index(y, num(0)))))
            if k == 's':
                return leaf(concat([slice_(x, num(0), e[1]), gate(g), slice_(x, e[2], length(x))]))
            if k == 'mv':
                return leaf(mapins(x, e[1], gate(g)))
            raise Unsupported('upd ' + k)
        return mapleaves(v, one)

    def keysof(self, t, variant=None):
        vs = t.get('variants')
        if t['k'] == 'tuple':
            return tuple(str(i) for i in range(len(t['args'])))
        if not vs:
            return None
        for v in vs:
            if variant is None or v['name'] == variant:
                return tuple(f[0] for f in v['fields'])
        return None

    def inner(self, t, T):
        """Looks through references and single-field tuple structs (which are represented by their content)."""
        n = 0
        while n < 20:
            n += 1
            if t['k'] == 'ref' and t.get('of') is not None:
                t = T[t['of']]
            elif transparent(t):
                t = T[t['variants'][0]['fields'][0][1]]
            else:
                break
        return t

    def rngof(self, t, T=None):
        """What the type alone says about a value: ('r', lo, hi) for integers, ('l', n) for arrays."""
        i = t.get('_info', 0)
        if i != 0:
            return i
        u = self.inner(t, T or self.main.T)
        r = None
        if u['k'] == 'int' or u['k'] == 'char':
            r = ('r',) + INTR[u['s']] if u['s'] in INTR else None
        elif u['k'] == 'array' and isinstance(u.get('len'), int):
            r = ('l', u['len'])
        elif u['k'] == 'struct' and (u.get('path') or '').endswith('GenericArray'):
            m = re.search(r'GenericArray<u8, (.*)>$', u['s'])
            if m:
                bits = re.findall(r'\bB([01])\b', m.group(1))
                if bits:
                    r = ('l', int(''.join(bits), 2))
        t['_info'] = r
        return r

    def apath(self, t):
        if t['k'] == 'tuple':
            return 'tuple'
        p = t.get('path') or t['s']
        if p == 'std::option::Option':
            return 'Option'
        if p == 'std::result::Result':
            return 'Result'
        return p

    # resolves a place to (base key or leaf-wise pointers, path, type)
    def place(self, fr, st, p, cond):
        """Returns (list of (cond, key, path) roots or None, value diagram or None, type)."""
        loc = p[0]
        t = fr.T[fr.f['locals'][loc]]
        # roots: diagram whose leaves are ptr terms (lvalue) or ('val', diagram)
        cur = leaf(mk('ptr', fr.id, loc, ()))
        isval = False
        variant = None
        for e in p[1:]:
            if e == '*':
                of = t.get('of')
                if t['k'] in ('ref', 'ptr') or t['k'] == 'struct':
                    mutref = (t['k'] == 'ref' and t.get('mut')) or t['k'] != 'ref'
                    val = cur if isval else self.loadn(st, cur, cond)
                    if mutref and any(x.op == 'ptr' for x in leaves(val)):
                        if all(x.op == 'ptr' for x in leaves(val)):
                            cur, isval = val, False
                        else:
                            # mixed: fall back to values
                            cur = mapleaves(val, lambda x: self.load(st, x) if x.op == 'ptr' else leaf(x))
                            isval = True
                    else:
                        # shared reference: a snapshot; keep the lvalue identity for boxed values
                        if t['k'] == 'struct' and not isval:
                            pass
                        else:
                            cur, isval = val, True
                    if of is not None:
                        t = fr.T[of]
                    elif t.get('args'):
                        t = fr.T[t['args'][0]]
                else:
                    raise Unsupported('deref of ' + t['s'])
                variant = None
                continue
            k = e[0]
            if k == 'v':
                variant = e[1]
                continue
            if k == 'f':
                nt = fr.T[e[3]]
                key = e[1] if (e[1] is not None and e[1] != '') else str(e[2])
                if t.get('path') in BOXY or (t['k'] == 'struct' and transparent(t)) or t['s'].startswith('std::mem::MaybeUninit<'):
                    t = nt
                    variant = None
                    continue
                if t['k'] == 'enum' and variant is None:
                    variant = t['variants'][0]['name'] if len(t.get('variants') or []) == 1 else None
                vn = variant if t['k'] == 'enum' else ''
                if t['k'] in ('tuple', 'closure'):
                    key = str(e[2])
                keys = self.keysof(t, vn or None)
                nf = len(keys) if keys else None
                el = ('f', key, vn or '', self.apath(t), nf, self.rngof(nt, fr.T), keys)
                t = nt
                variant = None
            elif k == 'i':
                iv = care(self.getl(fr, st, e[1]), cond)
                t2 = fr.T[t['of']] if t.get('of') is not None else None
                if not is_leaf(iv) and self.writing:
                    iv = leaf(gate(iv))
                if not is_leaf(iv):
                    # symbolic gated index: value mode only
                    val = cur if isval else self.loadn(st, cur, cond)
                    cur = ungate(mapleaves(val, lambda x: mapleaves(iv, lambda j: leaf(self.ranged(index(x, j), t2, fr.T)))))
                    isval = True
                    t = t2
                    continue
                el = ('i', leafval(iv), t2)
                t = t2
            elif k == 'ci':
                t2 = fr.T[t['of']] if t.get('of') is not None else None
                if e[3]:
                    val = cur if isval else self.loadn(st, cur, cond)
                    cur = ungate(mapleaves(val, lambda x: leaf(self.ranged(index(x, sub(length(x), num(e[1]))), t2, fr.T))))
                    isval = True
                    t = t2
                    continue
                el = ('i', num(e[1]), t2)
                t = t2
            elif k == 'ss':
                val = cur if isval else self.loadn(st, cur, cond)
                fe = e[3]
                cur = mapleaves(val, lambda x: leaf(slice_(x, num(e[1]), sub(length(x), num(e[2])) if fe else num(e[2]))))
                isval = True
                continue
            else:
                raise Unsupported('place elem %s' % (e,))
            if isval:
                cur = self.proj(cur, el)
                if el[0] == 'i':
                    cur = mapleaves(cur, lambda x: leaf(self.ranged(x, t, fr.T)))
            else:
                pe = el if el[0] != 'i' else ('i', el[1], None)
                cur = mapleaves(cur, lambda x: leaf(mk('ptr', x.args[0], x.args[1], x.args[2] + (pe,))))
        return cur, isval, t

    def ranged(self, x, t, T=None):
        if t is not None:
            typed(x, self.rngof(t, T))
        return x

    def rangedn(self, v, t, T=None):
        if t is not None:
            r = self.rngof(t, T)
            if r is not None:
                for x in leaves(v):
                    typed(x, r)
        return v

    def loadn(self, st, cur, cond=T):
        return ungate(mapleaves(care(cur, cond), lambda x: care(self.load(st, x), cond)))

    def getl(self, fr, st, loc):
        v = st.get((fr.id, loc))
        return leaf(UNINIT) if v is None else v

    def readp(self, fr, st, p, cond):
        if len(p) == 1:
            v = care(self.getl(fr, st, p[0]), cond)
            return v, fr.T[fr.f['locals'][p[0]]]
        cur, isval, t = self.place(fr, st, p, cond)
        v = cur if isval else self.loadn(st, cur, cond)
        v = care(v, cond)
        self.rangedn(v, t, fr.T)
        return v, t

    def writep(self, fr, st, p, v, cond):
        if len(p) == 1:
            self.rangedn(v, fr.T[fr.f['locals'][p[0]]], fr.T)
            st[(fr.id, p[0])] = v
            return
        self.writing = True
        try:
            cur, isval, t = self.place(fr, st, p, cond)
        finally:
            self.writing = False
        if isval:
            raise Unsupported('write through a shared value: %s' % (p,))
        self.writeptr(st, care(cur, cond), v)

    def writeptr(self, st, cur, v):
        if is_leaf(cur):
            x = leafval(cur)
            key = (x.args[0], x.args[1])
            base = st.get(key)
            if base is None:
                base = leaf(UNINIT)
            st[key] = self.upd(base, x.args[2], v)
            return
        for x in leaves(cur):
            c = cond_of(cur, lambda y: y is x)
            key = (x.args[0], x.args[1])
            base = st.get(key, leaf(UNINIT))
            st[key] = self.merge2(c, self.upd(base, x.args[2], v), base)

    def merge2(self, c, a, b):
        r = ite(c, a, b)
        return self.norm_struct(r)

    def norm_struct(self, r):
        """Pushes gating into plain struct / tuple aggregates."""
        if r.var is None:
            return r
        ls = leaves(r)
        a = next((x for x in ls if x.op == 'adt' and not x.args[1]), None)
        if a is None or not a.args[2]:
            return r
        ls = [x for x in ls if x.op not in ('uninit', 'panic')]
        if not all((x.op == 'adt' and x.args[0] == a.args[0] and x.args[2] == a.args[2]) or
                   (x.op != 'adt' and NFIELDS.get(x, (None,))[0] == a.args[0]) for x in ls):
            return r
        if any(x.op == 'ptr' for x in ls):
            return r
        dummy = next(iter(ls))
        r = mapleaves(r, lambda x: leaf(dummy) if x.op in ('uninit', 'panic') else leaf(x))
        vals = []
        for k in a.args[2]:
            n = ungate(mapleaves(r, lambda x: leaf(fld(x, k, a.args[0], len(a.args[2])))))
            vals.append(gate(self.norm_struct(n)))
        return leaf(adt(a.args[0], '', a.args[2], vals))

    # ------------------------------------------------------------ operands and rvalues
    def operand(self, fr, st, o, cond):
        k = o[0]
        if k in ('cp', 'mv'):
            return self.readp(fr, st, o[1], cond)
        if k == 'c':
            t = fr.T[o[1]]
            if len(o) > 3 and o[3]:
                s = self.intr.const_sym(self, o[3])
                if s is not None:
                    return leaf(s), t
            return leaf(self.constv(fr.C, o[2], t, o[3] if len(o) > 3 else None)), t
        if k == 'cfn':
            f = o[1]
            t = {'k': 'fndef', 's': 'fn', 'path': f[1] if isinstance(f, list) else str(f)}
            return leaf(mk('fnval', fr.C.name, tuple(_tt(f)))), t
        if k == 'prom':
            prom = fr.f['promoted'][o[1]] if fr.f.get('promoted') else None
            t = fr.T[o[2]]
            return ungate1(self.promoted(fr, o[1], prom, t)), t
        if k == 'rtc':
            return leaf(FALSE), {'k': 'bool', 's': 'bool'}
        raise Unsupported('operand %s' % o)

    def promoted(self, fr, i, prom, t):
        if prom is None:
            return mk('sym', 'prom%d' % i)
        k = ('prom', fr.f['id'], i)
        c = fr.C.__dict__.setdefault('proms', {})
        if k not in c:
            p = dict(prom)
            for kk in ('path', 'file', 'line', 'local', 'id'):
                p[kk] = fr.f[kk]
            p.update(argc=0, dk='Promoted', names={}, promoted=[], _c=fr.C)
            p['local'] = False
            st = {}
            r = self.enter(p, [], T, st)
            c[k] = gate(r[0][1]) if r else mk('sym', 'prom%d' % i)
        return c[k]

    def constv(self, C, v, t, name):
        k = v[0]
        if k == 'int':
            if t['k'] == 'bool':
                return TRUE if v[1] else FALSE
            if t['k'] == 'enum':
                for x in t['variants']:
                    if x['discr'] == v[1] and not x['fields']:
                        return mk('adt', self.apath(t), x['name'], (), ())
            return num(v[1])
        if k == 'str':
            return norm_const(K('str', v[1]))
        if k == 'bytes':
            return norm_const(K('bytes', tuple(v[1])))
        if k == 'zst':
            if t['k'] == 'array':
                return EMPTY
            if t['k'] == 'fndef':
                return mk('fndef', t.get('path'))
            if t['k'] == 'struct' and not (t['variants'] and t['variants'][0]['fields']):
                return mk('adt', self.apath(t), '', (), ())
            return UNIT
        if k == 'ref':
            of = C.T[t['of']] if t.get('of') is not None else t
            return self.constv(C, v[1], of, name)
        if k == 'static':
            return mk('sym', 'static:' + str(v[1]))
        if k == 'adt':
            vn = v[2]
            vs = t.get('variants') or []
            rec = next((x for x in vs if x['name'] == vn), None)
            vals, keys = [], []
            if transparent(t):
                return self.constv(C, v[3][0][1], C.T[rec['fields'][0][1]] if rec else C.T[vs[0]['fields'][0][1]], None)
            for i, (kk, vv) in enumerate(v[3]):
                ft = C.T[rec['fields'][i][1]] if rec else {'k': 'other', 's': '?'}
                keys.append(kk)
                vals.append(self.constv(C, vv, ft, None))
            return adt(self.apath(t), vn if t['k'] == 'enum' else '', tuple(keys), vals)
        if k == 'tuple':
            return tup(*[self.constv(C, x, C.T[a], None) for x, a in zip(v[1], t['args'])])
        if k == 'arr':
            of = C.T[t['of']] if t.get('of') is not None else {'k': 'other', 's': '?'}
            return norm_const(mk('arr', tuple(self.constv(C, x, of, None) for x in v[1])))
        if k == 'arrn':
            of = C.T[t['of']] if t.get('of') is not None else {'k': 'other', 's': '?'}
            return norm_const(mk('rep', self.constv(C, v[1], of, None), num(v[2]))) if len(v) > 2 else mk('sym', 'const:' + repr(v))
        if k == 'closure':
            return mk('adt', 'closure:%s' % v[1], '', (), ())
        return mk('sym', 'const:%s' % (name or repr(v)))

    def lift(self, f, *ns):
        """Applies f(terms)->Node leaf-wise."""
        if len(ns) == 0:
            return f()
        if len(ns) == 1:
            return mapleaves(ns[0], f)
        return mapleaves(ns[0], lambda x: self.lift(lambda *r: f(x, *r), *ns[1:]))

    def binop(self, op, a, b, t):
        ov = op.endswith('WithOverflow')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')

        def one(x, y):
            if base in ('Eq', 'Ne'):
                r = eq(x, y)
                return b2v(r if base == 'Eq' else neg(r))
            if base == 'Lt':
                return b2v(self.cmp(x, y, lt))
            if base == 'Le':
                return b2v(self.cmp(x, y, le))
            if base == 'Gt':
                return b2v(self.cmp(y, x, lt))
            if base == 'Ge':
                return b2v(self.cmp(y, x, le))
            if t['k'] == 'bool' and base in ('BitAnd', 'BitOr', 'BitXor'):
                p, q = as_bdd(x), as_bdd(y)
                return b2v(conj(p, q) if base == 'BitAnd' else disj(p, q) if base == 'BitOr' else neg(iff(p, q)))
            if t['k'] not in ('int', 'char', 'ptr'):
                return leaf(app('bin:' + base, x, y))
            if base == 'Add':
                r = add(x, y)
            elif base == 'Sub':
                r = sub(x, y)
            elif base == 'Mul':
                r = mul(x, y)
            elif base == 'Div':
                r = idiv(x, y)
            elif base == 'Rem':
                r = irem(x, y)
            elif base == 'Shl' and is_num(y):
                r = scale(x, 2 ** numval(y))
                rg = INTR.get(t['s'])
                if not ov and rg and not (rng(r)[1] is not None and rng(r)[1] <= rg[1]):
                    r = irem(r, num(rg[1] + 1)) if rg[0] == 0 else app('shl', x, y)
            elif base == 'Shr' and is_num(y):
                r = idiv(x, num(2 ** numval(y)))
            elif base == 'BitAnd' and is_num(y) and numval(y) >= 0 and (numval(y) + 1) & numval(y) == 0 and t['s'][0] == 'u':
                r = irem(x, num(numval(y) + 1))
            elif base == 'BitAnd' and is_num(x) and numval(x) >= 0 and (numval(x) + 1) & numval(x) == 0 and t['s'][0] == 'u':
                r = irem(y, num(numval(x) + 1))
            elif base == 'BitAnd' and t['s'][0] == 'u' and (is_num(x) != is_num(y)) and _block(numval(x) if is_num(x) else numval(y)):
                z, (k, m) = (y, _block(numval(x))) if is_num(x) else (x, _block(numval(y)))
                r = scale(irem(idiv(z, num(2 ** k)), num(2 ** m)), 2 ** k)
            elif base == 'BitXor' and t['s'][0] == 'u' and (y is num(1) or x is num(1)):
                z = x if y is num(1) else y
                r = add(z, add(num(1), scale(irem(z, num(2)), -2)))
                if INTR.get(t['s']):
                    RNG.setdefault(r, INTR[t['s']])
            else:
                if base in ('BitAnd', 'BitOr', 'BitXor') and is_num(x) and is_num(y):
                    f = {'BitAnd': int.__and__, 'BitOr': int.__or__, 'BitXor': int.__xor__}[base]
                    r = num(f(numval(x), numval(y)))
                else:
                    if base in ('BitAnd', 'BitOr', 'BitXor') and x.id > y.id:
                        x, y = y, x
                    r = app('bin:' + base, x, y)
                    rg = INTR.get(t['s'])
                    if rg:
                        RNG.setdefault(r, rg)
            if ov:
                return leaf(tup(r, FALSE))
            return leaf(r)
        return self.lift(one, a, b)

    def cmp(self, x, y, f):
        if _intish(x) and _intish(y):
            return f(x, y)
        if x.op == 'adt' and y.op == 'adt' and not x.args[1] and len(x.args[3]) == 1:
            return self.cmp(x.args[3][0], y.args[3][0], f)
        for p, q in ((x, y), (y, x)):
            if p.op == 'adt' and q.op != 'adt' and not p.args[1] and len(p.args[3]) == 1:
                qq = fld(q, p.args[2][0], p.args[0], 1)
                return self.cmp(p.args[3][0] if p is x else qq, qq if p is x else p.args[3][0], f)
        if x is y:
            return T if f is le else F
        return f(x, y)

    def rvalue(self, fr, st, r, cond, dty):
        k = r[0]
        if k == 'use':
            return self.operand(fr, st, r[1], cond)[0]
        if k in ('ref', 'reborrow'):
            mutb = r[1]
            cur, isval, t = self.place(fr, st, r[2], cond)
            if mutb:
                if isval:
                    return cur
                return care(cur, cond)
            return cur if isval else self.loadn(st, cur, cond)
        if k == 'bin':
            a, ta = self.operand(fr, st, r[2], cond)
            b, tb = self.operand(fr, st, r[3], cond)
            t = fr.T[r[4]] if len(r) > 4 and isinstance(r[4], int) else ta
            return self.binop(r[1], a, b, ta)
        if k == 'un':
            a, ta = self.operand(fr, st, r[2], cond)
            if r[1] == 'Not':
                if ta['k'] == 'bool':
                    return b2v(neg(v2b(a)))
                rg = INTR.get(ta['s'])
                return mapleaves(a, lambda x: leaf(sub(num(rg[1]), x) if rg and rg[0] == 0 else app('not', x)))
            if r[1] == 'Neg':
                return mapleaves(a, lambda x: leaf(scale(x, -1) if ta['k'] == 'int' else app('neg', x)))
            if r[1] == 'PtrMetadata':
                return mapleaves(a, lambda x: leaf(length(self.load1(st, x))))
            raise Unsupported('un ' + r[1])
        if k == 'cast' and r[1] == 'BoxDerefTransmute' and r[2][0] in ('cp', 'mv'):
            # address of a box's content: the box itself is represented by its content
            pl = list(r[2][1])
            while len(pl) > 1 and isinstance(pl[-1], list) and pl[-1][0] == 'f' and pl[-1][1] in ('0', 'pointer'):
                pl.pop()
            cur, isval, _t = self.place(fr, st, pl, cond)
            return cur
        if k == 'cast':
            a, ta = self.operand(fr, st, r[2], cond)
            to = fr.T[r[4]]
            kind = r[1]
            if kind == 'IntToInt':
                if ta['k'] == 'enum':
                    a = self.discr(a, ta)
                if ta['k'] == 'bool':
                    return mapleaves(v2b(a), lambda x: leaf(num(1 if x else 0)))
                rg = INTR.get(to['s'])
                sr = INTR.get(ta['s']) if ta['k'] in ('int', 'char') else None

                def one(x):
                    lo, hi = rng(x)
                    if rg is None or (lo is not None and hi is not None and lo >= rg[0] and hi <= rg[1]) or (sr and sr[0] >= rg[0] and sr[1] <= rg[1]):
                        return leaf(x)
                    if self.obl is not None:
                        bad = disj(neg(le(x, num(rg[1]))), lt(x, num(rg[0]))) if x.op != 'unk' else as_bdd(mk('unk', 'cast', (x,)))
                        self.oblig('cast', conj(cond, cond_of(a, lambda w: w is x)), bad, ops=(leaf(x),), ty=to['s'], what='narrowing cast from %s' % ta['s'])
                    y = irem(x, num(rg[1] + 1)) if rg[0] == 0 and (lo is not None and lo >= 0) else app('trunc:' + to['s'], x)
                    RNG.setdefault(y, rg)
                    return leaf(y)
                return mapleaves(a, one)
            if kind in ('FloatToInt', 'IntToFloat', 'FloatToFloat'):
                def one(x):
                    y = app('cast:%s:%s' % (ta['s'], to['s']), x)
                    if kind == 'FloatToInt':
                        g = INTR[to['s']]
                        if x.op == 'app' and str(x.args[0]).endswith('::sqrt') and g[1] > 2**32:
                            g = (g[0] if g[0] == 0 else g[0], 2**32)      # the root of a 64-bit integer
                            y0 = x.args[1][0]
                            if not (isinstance(y0, Term) and y0.op == 'app' and str(y0.args[0]).startswith('cast:u64:')):
                                g = INTR[to['s']]
                        RNG.setdefault(y, g)
                    return leaf(y)
                return mapleaves(a, one)
            return a
        if k == 'discr':
            v, t = self.readp(fr, st, r[1], cond)
            return self.discr(v, t)
        if k == 'agg':
            kind = r[1]
            ops = [self.operand(fr, st, o, cond)[0] for o in r[3]]
            if kind == 'adt':
                t = fr.T[r[2]]
                keys = tuple(r[6]) if len(r) > 6 else tuple(r[5])
                vi, vn = (r[4], r[5]) if len(r) > 6 else (0, r[4])
                vn = vn if t['k'] == 'enum' else ''
                if transparent(t):
                    return ops[0]
                return self.mkagg(self.apath(t), vn, keys, ops)
            if kind == 'closure':
                return self.mkagg('closure:%s' % r[2], '', tuple(str(i) for i in range(len(ops))), ops)
            if kind == 'tuple':
                return self.mkagg('tuple', '', tuple(str(i) for i in range(len(ops))), ops) if ops else leaf(UNIT)
            if kind == 'array':
                return leaf(norm_const(mk('arr', tuple(gate(o) for o in ops)))) if ops else leaf(EMPTY)
            if kind == 'rawptr':
                return ops[0]
            raise Unsupported('agg ' + kind)
        if k == 'repeat':
            a, ta = self.operand(fr, st, r[1], cond)
            n = r[2]
            n = num(n) if isinstance(n, int) else mk('sym', 'N:%s' % n)
            return mapleaves(a, lambda x: leaf(norm_const(mk('rep', x, n))))
        if k == 'tls':
            return leaf(mk('sym', 'tls:%s' % (r[1],)))
        if k == 'len':
            v, t = self.readp(fr, st, r[1], cond)
            return mapleaves(v, lambda x: leaf(length(x)))
        raise Unsupported('rvalue %s' % k)

    def load1(self, st, x):
        if x.op == 'ptr':
            return gate(self.load(st, x))
        return x

    def mkagg(self, path, vn, keys, ops):
        if vn:
            # enum payloads stay leaf-wise as long as that is small
            n = 1
            for o in ops:
                n *= len(leaves(o)) if not is_leaf(o) else 1
            if n <= 32:
                return self.lift(lambda *xs: leaf(adt(path, vn, keys, xs)), *ops)
        return leaf(adt(path, vn, keys, [gate(o) for o in ops]))

    def discr(self, v, t):
        vs = t.get('variants') or []
        names = tuple(x['name'] for x in vs)
        dis = {x['name']: x['discr'] for x in vs}

        def one(x):
            if x.op == 'adt':
                if x is SKIP:
                    return leaf(SKIP)
                return leaf(num(dis[x.args[1]])) if x.args[1] in dis else leaf(num(0))
            if x.op == 'app' and x.args[0] == 'ordcmp':
                a, b = x.args[1]
                return ite(self.cmp(a, b, lt), leaf(num(dis['Less'])), ite(self.cmp(b, a, lt), leaf(num(dis['Greater'])), leaf(num(dis['Equal']))))
            variants_of(x, names)
            r = leaf(num(dis[names[-1]])) if names else leaf(app('discr', x))
            for n in reversed(names[:-1]):
                r = ite(is_variant(x, n), leaf(num(dis[n])), r)
            return r
        if not vs:
            return mapleaves(v, lambda x: leaf(app('discr', x)))
        return mapleaves(v, one)

    # ------------------------------------------------------------ merging
    def merge(self, incoming):
        if len(incoming) == 1:
            return incoming[0]
        cond = F
        st = None
        for c, s in incoming:
            if c is F:
                continue
            if st is None:
                cond, st = c, s
                continue
            if s is not st:
                out = {}
                for k, v in st.items():
                    w = s.get(k)
                    if w is None or w is v:
                        out[k] = v
                    else:
                        lv, lw = v, w
                        if is_leaf(lv) and leafval(lv) is UNINIT:
                            out[k] = w
                        elif is_leaf(lw) and leafval(lw) is UNINIT:
                            out[k] = v
                        else:
                            nc = disj(cond, c)
                            # prefer the cheaper gating condition
                            m = ite(care(c, nc), w, v)
                            out[k] = self.norm_struct(m)
                for k, w in s.items():
                    if k not in out:
                        out[k] = w
                st = out
            cond = disj(cond, c)
        if st is None:
            return F, {}
        return cond, st

    # ------------------------------------------------------------ region execution
    def run_region(self, fr, blocks, entry, cond, st, header=None):
        f = fr.f
        order, pos, loops, irr = cfg(f)
        if irr:
            raise Unsupported('irreducible control flow in ' + f['path'])
        incoming = {entry: [(cond, st)]}
        exits = []
        skip = set()

        def dispatch(outs):
            for (t, c, s) in outs:
                if c is F:
                    continue
                if t in ('ret',):
                    exits.append((t, c, s))
                elif t == header or t not in blocks:
                    exits.append((t, c, s))
                else:
                    incoming.setdefault(t, []).append((c, s))
        for b in order:
            if b not in blocks or b in skip or b not in incoming:
                continue
            c, s = self.merge(incoming.pop(b))
            if c is F:
                continue
            L = loops.get(b)
            if L is not None and b != header:
                skip |= L.blocks
                dispatch(self.run_loop(fr, L, c, s))
                continue
            dispatch(self.run_block(fr, b, c, dict(s)))
        return exits

    def run_block(self, fr, b, cond, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('step budget')
        blk = fr.f['blocks'][b]
        for s in blk['s']:
            k = s[0]
            if k == '=':
                if self.trace:
                    print('   ' * len(self.stack), b, s)
                dt = None
                v = self.rvalue(fr, st, s[2], cond, dt)
                self.writep(fr, st, s[1], v, cond)
            elif k == 'dead':
                st.pop((fr.id, s[1]), None)
            elif k == 'sd':
                # set discriminant
                pass
            elif k == 'intr':
                pass
        t = blk['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], cond, st)]
        if k == 'ret':
            return [('ret', cond, st)]
        if k in ('unreach', 'resume', 'abort', 'terminate'):
            return []
        if k == 'drop':
            return [(t[3], cond, st)]
        if k == 'switch':
            v, ty = self.operand(fr, st, t[1], cond)
            outs = []
            rest = T
            if any(x is SKIP for x in leaves(v)):
                c = cond_of(v, lambda x: x is SKIP)
                hdr = self.skip_to[-1] if self.skip_to else None
                if hdr is None:
                    raise Unsupported('filtered iterator outside a loop')
                outs.append((hdr, conj(cond, c), st))
                cond = conj(cond, neg(c))
                v = mapleaves(v, lambda x: leaf(num(0)) if x is SKIP else leaf(x))
                v = care(v, cond)
            for val, tb in t[3]:
                if ty['k'] == 'bool':
                    c = v2b(v)
                    c = c if val else neg(c)
                else:
                    c = mapleaves(v, lambda x: eq_int(x, num(val)))
                c = conj(rest, c)
                self.site(fr, c, t, blk)
                outs.append((tb, conj(cond, c), st))
                rest = conj(rest, neg(c))
            if t[4] is not None:
                outs.append((t[4], conj(cond, rest), st))
            live = [o for o in outs if o[1] is not F]
            return [(o[0], o[1], dict(o[2]) if len(live) > 1 else o[2]) for o in live]
        if k == 'assert':
            kind = t[3]
            if self.obl is not None and kind != 'other':
                self.assert_obl(fr, st, t, cond, kind)
            if kind[:4] in ('div0', 'rem0') and self.obl is not None:
                v, ty = self.operand(fr, st, t[1], cond)
                c = v2b(v)
                return [(t[5], conj(cond, c if t[2] else neg(c)), st)]
            if kind.startswith('overflow') or kind.startswith('div0') or kind.startswith('rem0') or kind.startswith('bounds') or kind == 'other':
                return [(t[5], cond, st)]
            v, ty = self.operand(fr, st, t[1], cond)
            c = v2b(v)
            c = c if t[2] else neg(c)
            return [(t[5], conj(cond, c), st)]
        if k == 'call':
            return self.call(fr, b, t, cond, st)
        raise Unsupported('terminator ' + k)

    def oblig(self, kind, cond, bad, line=None, ops=(), ty=None, what=''):
        """Records that the operation is reached under cond and goes wrong when bad."""
        if self.obl is None:
            return
        at = None
        chain = []
        for fr in reversed(self.frs):
            if fr.f['local'] and not fr.f.get('shim_of'):
                chain.append((fr.f['file'], fr.line, fr.f['path']))
        at = chain[0] if chain else ('?', line, '?')
        if line is not None and self.frs and self.frs[-1].f['local']:
            at = (at[0], line, at[2])
        self.obl.append({'kind': kind, 'cond': cond, 'bad': bad, 'at': at, 'chain': chain, 'ops': ops, 'ty': ty, 'what': what})

    def assert_obl(self, fr, st, t, cond, kind):
        vs = [self.operand(fr, st, o, cond) for o in t[4]]
        line = t[6]
        if kind.startswith('overflow'):
            (a, ta) = vs[0]
            b, tb = vs[1] if len(vs) > 1 else (leaf(num(0)), ta)
            op = kind.split(':')[1]
            rg = INTR.get(ta['s'])
            if rg is None:
                return
            self.arith_obl(op, a, b, ta['s'], cond, line)
        elif kind.startswith('bounds'):
            n, i = (vs[0][0], vs[1][0]) if len(vs) > 1 else (None, None)
            if n is None:
                return
            bad = self.lift(lambda x, y: lt(y, num(0)) if False else le(x, y), n, i)
            self.oblig('bounds', cond, bad, line)
        elif kind[:4] in ('div0', 'rem0'):
            v, ty = self.operand(fr, st, t[1], cond)
            c = v2b(v)
            self.oblig(kind[:4], cond, neg(c) if t[2] else c, line)

    def arith_obl(self, op, a, b, ty, cond, line=None, how='unchecked'):
        rg = INTR.get(ty)
        if rg is None:
            return
        if op in ('Shl', 'Shr'):
            bits = (rg[1] + 1).bit_length() - (1 if rg[0] == 0 else 0)
            bad = self.lift(lambda x, y: disj(lt(y, num(0)), le(num(bits), y)), a, b)
        else:
            f = {'Add': add, 'Sub': sub, 'Mul': mul}.get(op)
            if f is None:
                return

            def one(x, y):
                if not (_intish(x) and _intish(y)):
                    return as_bdd(mk('unk', 'arith', (x, y)))
                r = f(x, y)
                c = neg(le(r, num(rg[1]))) if op != 'Sub' or rg[0] < 0 else F
                if op == 'Sub' or rg[0] < 0:
                    c = disj(c, lt(r, num(rg[0])))
                return c

            def sat(x):          # an operand that came out of a saturating operation is at most the type's maximum
                if _intish(x):
                    l, h = rng(x)
                    if h is None or h > rg[1]:
                        return ite(le(x, num(rg[1])), leaf(x), leaf(num(rg[1])))
                return leaf(x)
            bad = self.lift(one, mapleaves(a, sat), mapleaves(b, sat))
        self.oblig('overflow', cond, bad, line, ops=(a, b), ty=ty, what=how + ' ' + op)

    def site(self, fr, c, t, blk):
        if c.var is None:
            return
        for v in support(c):
            if v not in self.atomsite:
                line = None
                for s in reversed(blk['s']):
                    if s[0] == '=':
                        line = s[3]
                        break
                self.atomsite[v] = (fr.f['file'], line or fr.f['line'], fr.f['path'])

    # ------------------------------------------------------------ calls
    skip_to = ()

    def call(self, fr, b, t, cond, st):
        callee, args, dest, target, line = t[1], t[2], t[3], t[4], t[5]
        fr.line = line
        vals = []
        tys = []
        for a in args:
            v, ty = self.operand(fr, st, a, cond)
            vals.append(v)
            tys.append(ty)
        dty = fr.T[fr.f['locals'][dest[0]]] if len(dest) == 1 else None
        self.cur = (fr, line)
        if callee[0] == 'fn':
            path, fid, targs, item, trait = callee[1], callee[2], callee[3], callee[4], callee[5]
            res = self.do_call(fr, path, fid, targs, item, trait, vals, tys, cond, st, dty, target is None)
        else:
            fv, fty = self.operand(fr, st, callee[1], cond)
            if is_leaf(fv) and leafval(fv).op in ('fnval', 'fndef'):
                res = self.call_value(fr, leafval(fv), vals, cond, st)
            else:
                res = self.opaque_call(fr, 'indirect', [fv] + vals, tys, cond, st, dty)
        if res is None or target is None:
            if target is None:
                self.panics.append((cond, callee[1] if callee[0] == 'fn' else 'indirect', fr.f['file'], line))
                self.oblig('abort', cond, T, line, what=callee[1] if callee[0] == 'fn' else 'indirect call')
            return []
        outs = []
        for (c, v, s) in res:
            if c is F:
                continue
            self.writep(fr, s, dest, v, c)
            outs.append((target, c, s))
        return outs

    def is_opaque(self, f, path):
        for o in self.opaque:
            if callable(o):
                if o(f, path):
                    return True
            elif path == o or (path.endswith('::' + o)):
                return True
        return False

    def do_call(self, fr, path, fid, targs, item, trait, vals, tys, cond, st, dty, diverges):
        """Returns list of (cond, value diagram, state) or None."""
        f = fr.C.byid.get(fid)
        if f is not None and not f.get('blocks') and f.get('shim_of') is None:
            # bodies of workspace library functions live in the library crate's facts
            for C in self.crates:
                if C is not fr.C and (path in C.bypath or f['path'] in C.bypath):
                    g = [x for x in C.bypath.get(path) or C.bypath[f['path']] if x.get('blocks')]
                    if len(g) == 1:
                        f = g[0]
        name = self.intr.callee_name(self, fr, path, targs, item, trait, f)
        for suf, m in self.models.items():
            if path == suf or path.endswith('::' + suf) or f is not None and f['path'].endswith('::' + suf):
                ctx = Ctx()
                ctx.I, ctx.fr, ctx.path, ctx.targs, ctx.cond, ctx.st, ctx.dty, ctx.tys = self, fr, path, targs, cond, st, dty, tys
                r = m(ctx, *vals)
                if r is NotImplemented:
                    break
                return [(cond, r, ctx.st)]
        if f is not None and self.is_opaque(f, path):
            return self.opaque_call(fr, path, vals, tys, cond, st, dty, user=True)
        h = self.intr.lookup(self, fr, path, targs, item, trait, f)
        if self.obl is not None:
            ctx = Ctx()
            ctx.I, ctx.fr, ctx.path, ctx.targs, ctx.cond, ctx.st, ctx.dty, ctx.tys = self, fr, path, targs, cond, st, dty, tys
            self.intr.pre(ctx, vals)
        if h is not None:
            ctx = Ctx()
            ctx.I, ctx.fr, ctx.path, ctx.targs, ctx.item, ctx.trait, ctx.cond, ctx.st, ctx.dty, ctx.tys, ctx.name = self, fr, path, targs, item, trait, cond, st, dty, tys, name
            r = h(ctx, *vals)
            if r is not NotImplemented:
                if r is None:
                    return None
                if isinstance(r, list):
                    return r
                return [(cond, r, ctx.st)]
        if f is None:
            return self.opaque_call(fr, name, vals, tys, cond, st, dty)
        if f.get('shim_of') is not None:
            g = fr.C.byid.get(f['shim_of'])
            if g is not None and g.get('blocks'):
                if g.get('dk') != 'Closure' and len(vals) == 2:
                    # a function item called through a closure trait: (item, arguments)
                    vals = [self.proj(vals[1], ('f', str(i), '', 'tuple', g['argc'], None)) for i in range(g['argc'])]
                return self.enter(g, vals, cond, st, tuple_args=True)
        if not f.get('blocks'):
            return self.opaque_call(fr, name, vals, tys, cond, st, dty)
        return self.enter(f, vals, cond, st, dty=dty, tys=tys, name=name, fr0=fr)

    def enter(self, f, vals, cond, st, tuple_args=None, dty=None, tys=None, name=None, fr0=None):
        if f.get('dk') == 'Closure' and len(vals) == 2 and f['argc'] != 2 or f.get('dk') == 'Closure' and f.get('spread') is None and len(vals) == 2 and self._is_tuple(vals[1], f):
            tv = vals[1]
            n = f['argc'] - 1
            vals = [vals[0]] + [self.proj(tv, ('f', str(i), '', 'tuple', n, None)) for i in range(n)]
        if any(x is f for x in self.stack) or len(self.stack) > self.max_depth:
            self.notes.append('recursion at ' + f['path'])
            return self.opaque_call(fr0, name or f['path'], vals, tys or [None] * len(vals), cond, st, dty, unk=True)
        fr = Frame()
        fr.f, fr.C, fr.T = f, f['_c'], f['_c'].T
        self.nextf += 1
        fr.id = self.nextf
        fr.depth = len(self.stack)
        fr.line = f['line']
        if f['local']:
            self.inlined.add((f['file'], f['line'], f['path']))
        st = dict(st)
        for i, v in enumerate(vals):
            t = fr.T[f['locals'][i + 1]]
            st[(fr.id, i + 1)] = self.rangedn(v, t, fr.T)
        self.stack.append(f)
        self.frs.append(fr)
        sk = self.skip_to
        self.skip_to = ()
        cfgorder = cfg(f)[0]
        exits = self.run_region(fr, set(cfgorder), 0, cond, st)
        self.skip_to = sk
        self.stack.pop()
        self.frs.pop()
        rets = [(c, s) for (t, c, s) in exits if t == 'ret']
        if not rets:
            return None
        c, s = self.merge(rets)
        v = s.get((fr.id, 0), leaf(UNIT))
        s = {k: w for k, w in s.items() if k[0] != fr.id}
        return [(c, care(v, c), s)]

    def _is_tuple(self, v, f):
        if f['argc'] != 2:
            return False
        x = leaves(v)[0]
        at = f['_c'].T[f['locals'][2]]
        # rust-call passes the argument tuple; a closure of one argument receives it untupled
        if x.op == 'adt' and x.args[0] == 'tuple' and len(x.args[2]) == 1:
            return not (at['k'] == 'tuple' and len(at['args']) == 1 and False)
        return False

    def call_value(self, fr, fv, vals, cond, st):
        """Calls a function value (closure aggregate, fn item or fn pointer) with untupled args."""
        if fv.op == 'adt' and fv.args[0].startswith('closure:'):
            fid = int(fv.args[0].split(':')[1])
            f = fr.C.byid.get(fid)
            if f is None or not f.get('blocks'):
                return self.opaque_call(fr, 'closure%d' % fid, [leaf(fv)] + vals, [None] * (len(vals) + 1), cond, st, None, unk=True)
            return self.enter(f, [leaf(fv)] + vals, cond, st)
        if fv.op == 'fndef':
            g = [x for x in fr.C.bypath.get(fv.args[0], []) if x.get('blocks')]
            if len(g) == 1:
                return self.do_call(fr, fv.args[0], g[0]['id'], [], g[0].get('item'), g[0].get('trait'), vals, [None] * len(vals), cond, st, None, False)
            # constructors such as Some / tuple structs
            c = self.intr.ctor(self, fr, fv.args[0], vals)
            if c is not None:
                return [(cond, c, st)]
            return self.opaque_call(fr, fv.args[0], vals, [None] * len(vals), cond, st, None)
        return self.opaque_call(fr, 'indirect', [leaf(fv)] + vals, [None] * (len(vals) + 1), cond, st, None, unk=True)

    def opaque_call(self, fr, name, vals, tys, cond, st, dty, user=False, unk=False):
        if not user:
            name = canon_ext(name)
            self.ext.add(name)
            if not unk and foreign(name):
                unk = True
        if name.startswith(('serde::ser::Serialize', 'serde::Serializer::')) and vals:
            # what a serializer holds does not matter, only what it is told
            vals = [leaf(mk('sym', 'serializer'))] + list(vals[1:])
        # pointer arguments are passed by value and havocked deterministically
        ptrs = []
        dv = []
        for i, v in enumerate(vals):
            if any(x.op == 'ptr' for x in leaves(v)):
                ptrs.append((i, v))
                v = care(mapleaves(v, lambda x: self.load(st, x) if x.op == 'ptr' else leaf(x)), cond)
            dv.append(ungate(v))
        if FRESH.search(name):
            # every draw of randomness is a value of its own, numbered in program order
            cur = st.get((-1, '#rng'), leaf(num(0)))
            st = dict(st)
            st[(-1, '#rng')] = mapleaves(cur, lambda x: leaf(add(x, num(1))) if _intish(x) else leaf(mk('unk', 'rng', (x,))))
            dv = [leaf(mk('sym', 'rng'))] if not ptrs or 'generate' in name else dv
            dv.append(cur)
        fx = EFFECT.search(name)
        if fx:
            # every access to the outside world is an event of its own, numbered in program order
            cur = st.get((-1, '#fx'), leaf(num(0)))
            st = dict(st)
            st[(-1, '#fx')] = mapleaves(cur, lambda x: leaf(add(x, num(1))) if _intish(x) else leaf(mk('unk', 'fx', (x,))))
            nargs = len(dv)
            dv.append(cur)
        n = 1
        for v in dv:
            n *= len(leaves(v))
        op = 'unk' if unk else 'app'
        if n > 16:
            dv = [leaf(gate(v)) for v in dv]
        mkr = lambda nm: self.lift(lambda *xs: leaf(mk(op, nm, tuple(self.deref_in(st, x) for x in xs))), *dv)
        st = dict(st)
        for i, p in ptrs:
            new = mkr(name + '!%d' % i)
            if 'fill_bytes' in name and i == 1:
                for x in leaves(new):       # a slice keeps its length
                    if x.op == 'app' and len(x.args[1]) > i:
                        TM.LEN.setdefault(x, TM.length(x.args[1][i]))
            self.writeptr(st, care(p, cond), new)
        r = mkr(name)
        if fx:
            self.events.append(Event(name, cond, [ungate(mapleaves(v, lambda x: leaf(self.deref_in(st, x)))) for v in dv[:nargs]], care(cur, cond), r,
                                     fr.f if fr else None, getattr(self, 'cur', (None, None))[1]))
        self.fxlog.append((name, cond, dv, fr.f['path'] if fr else None, getattr(self, 'cur', (None, None))[1]))
        if self.fallible is not None and self.fallible(name):
            bad = mapleaves(r, lambda x: neg(is_variant(x, 'Ok')))
            st[(-1, '#err')] = ite(bad, leaf(num(1)), st.get((-1, '#err'), leaf(num(0))))
        if dty is not None:
            self.rangedn(r, dty, fr.T if fr else None)
            if dty['k'] == 'tuple' and not dty['args']:
                r = leaf(UNIT)
        return [(cond, r, st)]

    def deref_in(self, st, x):
        """Replaces pointers nested in an aggregate argument by the values they point to."""
        if x.op == 'ptr':
            return gate(self.load(st, x))
        if x.op == 'adt' and any(_hasptr(v) for v in x.args[3]):
            return adt(x.args[0], x.args[1], x.args[2], [self.deref_in(st, v) for v in x.args[3]])
        return x

    def call_closure1(self, fr, fv, vals, cond, st):
        """Calls a closure term and insists on one outcome; returns (value, state, cond)."""
        if fv.op == 'ptr':
            fv = gate(self.load(st, fv))
        r = self.call_value(fr, fv, vals, cond, st)
        if r is None:
            return leaf(PANIC), st, F
        if len(r) != 1:
            c, s = self.merge([(c, s) for c, v, s in r])
            v = r[-1][1]
            for c2, v2, s2 in r[:-1]:
                v = ite(c2, v2, v)
            return v, s, c
        return r[0][1], r[0][2], r[0][0]

    # ------------------------------------------------------------ loops
    def run_loop(self, fr, L, cond, st):
        self.loops += 1
        # case split on gated iterators held in locals
        for k, v in st.items():
            if k[0] == fr.id and not is_leaf(v):
                ls = leaves(care(v, cond))
                if len(ls) > 1 and any(x.op == 'iter' for x in ls):
                    outs = []
                    for x in ls:
                        c = conj(cond, cond_of(v, lambda y: y is x))
                        if c is F:
                            continue
                        s2 = {kk: care(vv, c) for kk, vv in st.items()}
                        outs.extend(self.run_loop(fr, L, c, s2))
                    return outs
        sk = self.skip_to
        self.skip_to = tuple(sk) + (L.header,)
        self.loopd += 2
        mark = getattr(self, 'oblmark', 0)
        self.oblmark = len(self.obl) if self.obl is not None else 0
        rmark, self.recmark = self.recmark, len(self.recs)
        try:
            return self._run_loop(fr, L, cond, st)
        finally:
            self.skip_to = sk
            self.loopd -= 2
            self.oblmark = mark
            self.recmark = rmark

    def rewind(self):
        if self.obl is not None:
            del self.obl[self.oblmark:]
        del self.recs[self.recmark:]

    @property
    def loop_stops(self):
        return [x[1:] for x in self.recs if x[0] == 'stop']

    def body(self, fr, L, cond, st, keep=False):
        if not keep:
            self.rewind()
        ex = self.run_region(fr, L.blocks, L.header, cond, dict(st), header=L.header)
        back = [(c, s) for (t, c, s) in ex if t == L.header]
        exits = [(t, c, s) for (t, c, s) in ex if t != L.header]
        if back:
            bc, bs = self.merge(back)
        else:
            bc, bs = F, None
        stop = conj(cond, neg(disj(bc, *[c for _, c, _ in exits])))
        if stop is not F:
            self.recs.append(('stop', stop, fr.f, L))
        return bc, bs, exits

    def _run_loop(self, fr, L, cond, st):
        if self.eager is not None:
            r = self.unroll(fr, L, cond, st, 300, self.eager)
            if r is not None:
                return r
        d = self.loopd
        # ---- generalise carried variables to a fixpoint
        st = {k: care(v, cond) for k, v in st.items()}
        gen = dict(st)
        inits = {}
        for it in range(12):
            bc, bs, exits = self.body(fr, L, cond, gen)
            if bc is F:
                return exits
            new = {}
            changed = False
            for k, v in gen.items():
                w = bs.get(k)
                if w is None:
                    new[k] = v
                    continue
                w = care(w, bc)
                g = self.generalise(v, w, (k,), d, inits)
                if g is not v:
                    changed = True
                new[k] = g
            gen = new
            if not changed:
                break
        else:
            return self.opaque_loop(fr, L, cond, st, gen, inits, 'no fixpoint')
        L.recorded = len(self.recs) > self.recmark
        lvs = {}
        for k, v in gen.items():
            for x in self.find_lvs(v, d):
                lvs[x] = None
        lvs = list(lvs)
        nxt = {}
        for k, v in gen.items():
            w = bs.get(k)
            if w is not None:
                self.match_lv(v, care(w, bc), d, nxt, bc)
        # ---- induction variables
        ind = {}
        for x in lvs:
            n = nxt.get(x)
            if n is None:
                continue
            steps = set()
            for y in leaves(n):
                df = sub(y, x) if _intish(y) else None
                steps.add(numval(df) if df is not None and is_num(df) else None)
            if len(steps) == 1 and None not in steps and 0 not in steps:
                ind[x] = steps.pop()
        # ---- guard
        guard = None
        supp = sorted(support(bc))
        for x in sorted(ind, key=lambda y: y.id):
            if ind[x] != 1:
                continue
            for v in supp:
                a = TM.VARS[v]
                if a.op != 'le':
                    continue
                c0, dd = lin_of(a.args[0])
                co = dd.get(x)
                if co not in (1, -1):
                    continue
                r = from_lin(c0, {y: z for y, z in dd.items() if y is not x})
                if any(y in r.bv for y in lvs):
                    continue
                p = TM._node(v, T, F)
                if co == 1 and implies(bc, p) is T:
                    hi = sub(num(a.args[1] + 1), r)
                elif co == -1 and implies(bc, neg(p)) is T:
                    hi = sub(r, num(a.args[1]))
                else:
                    continue
                guard = (x, hi)
                break
            if guard:
                break
        if guard is None:
            # concrete unrolling as a last resort (loops over constant-size data)
            r = self.unroll(fr, L, cond, st, 66, 2)
            if r is not None:
                return r
            return self.while_loop(fr, L, cond, st, gen, inits, lvs, bc, nxt, 'no counted guard')
        x, hi = guard
        lo = inits[x]
        if not is_leaf(lo):
            return self.while_loop(fr, L, cond, st, gen, inits, lvs, bc, nxt, 'gated start')
        lo = leafval(lo)
        n = sub(hi, lo)
        if is_num(n) and numval(n) <= 40:
            r = self.unroll(fr, L, cond, st, max(numval(n), 0) + 2)
            if r is not None:
                return r
        i = mk('idx', d, num(0), n)
        m = {}
        for y, s in ind.items():
            if is_leaf(inits[y]):
                m[y] = add(leafval(inits[y]), scale(i, s))
        gi = {k: self.subn(v, m) for k, v in gen.items()}
        bc, bs, exits = self.body(fr, L, cond, gi)
        if bc is F:
            return exits
        rest = [y for y in lvs if y not in m]
        nxt = {}
        for k, v in gen.items():
            w = bs.get(k)
            if w is not None:
                self.match_lv(v, care(w, bc), d, nxt, bc)
        # early exits, relative to the entry condition
        early = [(t, care(c, cond), s) for (t, c, s) in exits]
        early = [(t, c, s) for (t, c, s) in early if c is not F]
        partial, final = {}, {}
        iprime = mk('idx', d + 1, num(0), i)
        goodcond = neg(disj(*[c for t, c, s in early])) if early else T
        pend = list(rest)
        # accumulators that do not depend on other carried values first
        for rnd in range(3):
            again = []
            for y in pend:
                nx = nxt.get(y)
                if nx is None:
                    continue
                nx = care(self.subn(nx, partial), conj(goodcond, cond)) if False else care(self.subn(nx, {k: v for k, v in partial.items() if k is not y}), cond)
                others = [z for z in rest if z is not y and z not in partial]
                if any(z in node_bv(nx) for z in others):
                    again.append(y)
                    continue
                r = self.accumulate(y, inits[y], nx, d, n, i, iprime, goodcond)
                if r is None:
                    again.append(y)
                    continue
                partial[y], final[y] = r
            pend = again
            if not pend:
                break
        if pend:
            bc0, bs0, _ = self.body(fr, L, cond, gen)
            nx0 = {}
            for k, v in gen.items():
                w = bs0.get(k)
                if w is not None:
                    self.match_lv(v, care(w, bc0), d, nx0, bc0)
            return self.while_loop(fr, L, cond, st, gen, inits, lvs, bc0, nx0, 'mutually dependent values')
        for y in pend:
            self.notes.append('loop-carried value without a closed form in %s' % fr.f['path'])
            u = mk('unk', 'loop', (mk('sym', '%s:%s' % (fr.f['path'], y)), gate(inits[y])))
            partial[y] = mk('unk', 'loopp', (u, i))
            final[y] = u
        # ---- exits
        if self.obl is not None or L.recorded:
            # the obligations of the body, with carried values in closed form and in iterations that are reached
            gp = {k: self.subn(v, partial) for k, v in gi.items()}
            self.body(fr, L, cond, gp)
        outs = []
        ec = [self.subn(c, partial) for t, c, s in early]
        anyex = disj(*ec) if ec else F
        # partial sums against a bound: monotone, so the total decides
        noexit = self.noexit(d, n, i, anyex, partial, final, cond)
        # normal exit: header evaluated at the end of the range with the final values
        gf = {}
        mf = {y: add(leafval(inits[y]), scale(n, s)) for y, s in ind.items() if is_leaf(inits[y])}
        # if the range may be empty-or-inverted the end position is the start
        posn = n
        if rng(n)[0] is None or rng(n)[0] < 0:
            if not (le(num(0), n) is T):
                pass
        mf.update(final)
        for k, v in gen.items():
            gf[k] = self.subn(v, mf)
        cn = conj(cond, noexit)
        if cn is not F:
            seen = len(self.recs)
            ex = self.run_region(fr, L.blocks, L.header, cn, gf, header=L.header)
            del self.recs[seen:]
            for (t, c, s) in ex:
                if t == L.header:
                    if c is not F:
                        # residual back edge: position beyond an inverted range
                        self.notes.append('residual back edge in %s' % fr.f['path'])
                    continue
                outs.append((t, c, s))
        if early:
            first = mkq('first', d, num(0), n, anyex)
            RNG.setdefault(first, (0, rng(n)[1]))
            fm = {i: first}
            notall = conj(cond, neg(noexit))
            # exits are exhaustive at the first failing index
            rem = notall
            for j, ((t, c, s), e) in enumerate(zip(early, ec)):
                if j == len(early) - 1:
                    cj = rem
                else:
                    cj = conj(rem, self.subn(e, fm))
                    rem = conj(rem, neg(cj))
                pm = {y: subst(v, fm) if isinstance(v, Term) else v for y, v in partial.items()}
                s2 = {k: self.subn(self.subn(v, partial), fm) for k, v in s.items()}
                outs.append((t, cj, s2))
        return outs

    def noexit(self, d, n, i, anyex, partial, final, cond):
        good = neg(anyex)
        if good is T:
            return T
        # atoms mentioning partial sums over idx(d+1, 0, i): replace "prefix <= k" by "total <= k" when terms are >= 0
        ip = mk('idx', d + 1, num(0), i)
        sup = support(good)
        rep = {}
        for v in sup:
            a = TM.VARS[v]
            if a.op == 'le' and any(_mentions_prefix(x, i) for x in lin_of(a.args[0])[1]):
                rep[v] = a
        if rep:
            v = min(rep)
            a = rep[v]
            fs = factors(good)
            outc = T
            for Q in fs:
                if Q.hi in (T, F) and Q.lo in (T, F) and Q.var in rep:
                    a = TM.VARS[Q.var]
                    c0, dd = lin_of(a.args[0])
                    # prefix(i) + e(i) + const <= k  with prefix+e = prefix(i+1): total decides when terms >= 0
                    tot = from_lin(c0, dd)
                    tot2 = self.prefix_total(tot, d, i, n)
                    if tot2 is not None and Q.hi is T:
                        outc = conj(outc, disj(le(n, num(0)), le0(sub(tot2, num(a.args[1])))))
                        continue
                outc = conj(outc, forall(d, num(0), n, Q))
            return outc
        return forall(d, num(0), n, good)

    def prefix_total(self, L, d, i, n):
        """If L = const + sum over j<i of e(j) + e(i), returns const + the sum over the whole range."""
        c, dd = lin_of(L)
        prefs = [(x, k) for x, k in dd.items() if x.op == 'sum' and x.args[2] is i]
        if len(prefs) < 1 or any(k != 1 for x, k in prefs):
            return None
        total = num(c)
        rest = {x: k for x, k in dd.items() if not any(x is p for p, _ in prefs)}
        for p, k in prefs:
            if rng(p)[0] is None or rng(p)[0] < 0:
                return None
            body = p.args[3]
            b2 = subst(body, {mk('idx', p.args[0], p.args[1], p.args[2]): i})
            if not is_leaf(b2):
                return None
            cc, bd = lin_of(leafval(b2))
            for x, kk in bd.items():
                if rest.get(x, 0) != kk:
                    return None
                del rest[x]
            total = add(total, summ(d, num(0), n, b2))
        if rest and any(i in x.bv for x in rest):
            return None
        return add(total, from_lin(0, rest))

    def accumulate(self, y, init, nx, d, n, i, ip, good):
        """Closed form (prefix up to i, total) of a loop-carried value, or None."""
        ls = leaves(nx)
        if all(x is y for x in ls):
            return gate(init), gate(init)
        init_t = gate(init)
        hasy = lambda t: y in t.bv
        # sums
        if all(_intish(x) for x in ls) and all(y not in sub(x, y).bv for x in ls) and y not in _cond_bv(nx):
            e = mapleaves(nx, lambda x: leaf(sub(x, y)))
            e = care(e, good)
            tot = add(init_t, summ(d, num(0), n, e)) if init_t.op != 'gate' else None
            if tot is None:
                return None
            pre = add(init_t, summ(d + 1, num(0), i, subst(e, {i: ip})))
            return pre, tot
        # collections
        items = []
        okc = y not in _cond_bv(nx)
        if okc:
            def unpush(x):
                out = []
                while x is not y:
                    if x.op == 'concat' and x.args[0][0] is y:
                        for z in reversed(x.args[0][1:]):
                            if z.op == 'arr':
                                out.extend(reversed(z.args[0]))
                            elif z.op == 'k' and z.args[0] == 'bytes':
                                out.extend(num(b) for b in reversed(z.args[1]))
                            else:
                                out.append(mk('splice', z))
                        x = y
                    else:
                        return None
                out.reverse()
                return None if any(hasy(z) for z in out) else tuple(out)
            ups = {x: unpush(x) for x in ls}
            if all(v is not None for v in ups.values()):
                e = care(mapleaves(nx, lambda x: leaf(ups[x])), good)
                tot = concat([init_t, coll(d, num(0), n, e)])
                pre = concat([init_t, coll(d + 1, num(0), i, subst(e, {i: ip}))])
                return pre, tot
            # element-wise update  c[i] := f(c[i])
            def upd_at(x):
                if x is y:
                    return index(y, i)
                if x.op == 'store' and x.args[0] is y and x.args[1] is i:
                    return x.args[2]
                return None
            ups = {x: upd_at(x) for x in ls}
            if all(v is not None for v in ups.values()) and length(init_t) is n:
                el = mapleaves(nx, lambda x: leaf(ups[x]))
                el = subst(el, {index(y, i): index(init_t, i)})
                if y not in node_bv(el):
                    e = mapleaves(el, lambda x: leaf((x,)))
                    tot = coll(d, num(0), n, e)
                    pre = concat([coll(d + 1, num(0), i, subst(e, {i: ip})), slice_(init_t, i, n)])
                    return pre, tot
            # map insertion
            def ins(x):
                if x is y:
                    return ()
                if x.op == 'mapins' and x.args[0] is y and not hasy(x.args[1]) and not hasy(x.args[2]):
                    return (tup(x.args[1], x.args[2]),)
                return None
            ups = {x: ins(x) for x in ls}
            if all(v is not None for v in ups.values()):
                e = mapleaves(nx, lambda x: leaf(ups[x]))
                return app('mapall', init_t, coll(d + 1, num(0), i, subst(e, {i: ip}))), app('mapall', init_t, coll(d, num(0), n, e))
        # flags: constant on some condition, else kept
        kept = cond_of(nx, lambda x: x is y)
        others = [x for x in ls if x is not y]
        if y not in _cond_bv(nx) and len(others) == 1 and not hasy(others[0]) and i not in others[0].bv:
            c = care(kept, good)
            tot = ite(forall(d, num(0), n, c), init, leaf(others[0]))
            pre = ite(forall(d + 1, num(0), i, subst(c, {i: ip})), init, leaf(others[0]))
            return gate(pre), gate(tot)
        # some values on a condition, else kept: the value of the last index where the condition holds
        if others and y not in _cond_bv(nx) and not any(hasy(x) for x in others):
            c = care(kept, good)
            new = care(nx, neg(kept))

            def last_write(k, hi):
                j = mk('idx', k, num(0), hi)
                if forall(k, num(0), hi, subst(c, {i: j})) is T:
                    return init
                first = mkq('first', k, num(0), hi, subst(neg(c), {i: sub(sub(hi, num(1)), j)}))
                RNG.setdefault(first, (0, rng(hi)[1]))
                back = {i: sub(sub(hi, num(1)), j)}
                none = min((forall(k, num(0), hi, subst(c, x)) for x in ({i: j}, back)), key=lambda x: len(show(x)))
                return ite(none, init, ungate(subst(new, {i: sub(sub(hi, num(1)), first)})))
            if others and kept is not F:
                return gate(last_write(d + 1, i)), gate(last_write(d, n))
        # value recomputed each iteration from the index only
        if all(not hasy(x) for x in ls) and y not in _cond_bv(nx):
            last = subst(nx, {i: add(n, num(-1))})
            prev = subst(nx, {i: add(i, num(-1))})
            tot = ite(le(n, num(0)), init, last)
            pre = ite(le(i, num(0)), init, prev)
            return gate(pre), gate(tot)
        # general fold
        v = mk('lv', d, 'acc')
        b = subst(nx, {y: v})
        v2 = mk('lv', d + 1, 'acc')
        b2 = subst(subst(nx, {i: ip}), {y: v2})
        tot = mkq('fold', d, num(0), n, init_t, b)
        pre = mkq('fold', d + 1, num(0), i, init_t, b2)
        if y in RNG:
            RNG.setdefault(tot, RNG[y])
            RNG.setdefault(pre, RNG[y])
        return pre, tot

    def subn(self, v, m):
        if not m or v is None:
            return v
        if isinstance(v, Node):
            bv = node_bv(v)
            hit = False
            for k in m:
                if k in bv:
                    hit = True
                    break
            if not hit and not any(k.op not in ('lv', 'idx') for k in m):
                return v
        # pointer paths may mention bound indices
        return ungate(subst(v, m))

    def generalise(self, v, w, key, d, inits):
        if v is w:
            return v
        if is_leaf(v) and is_leaf(w):
            a, b = leafval(v), leafval(w)
            g = self.gen1(a, b, key, d, inits)
            return v if g is a else leaf(g)
        if is_leaf(v) and leafval(v).op == 'lv' and leafval(v).args[0] == d:
            return v
        if is_leaf(v) and leafval(v).op == 'adt' and not leafval(v).args[1]:
            # struct against gated struct
            a = leafval(v)
            vals, ch = [], False
            for j, k in enumerate(a.args[2]):
                wj = ungate(mapleaves(w, lambda x: leaf(fld(x, k, a.args[0], len(a.args[2])))))
                g = self.generalise(ungate1(a.args[3][j]), wj, key + (k,), d, inits)
                gt = gate(g)
                vals.append(gt)
                ch = ch or gt is not a.args[3][j]
            return leaf(adt(a.args[0], '', a.args[2], vals)) if ch else v
        if is_leaf(v) and leafval(v).op not in ('adt', 'lv', 'iter', 'ptr', 'uninit'):
            # a struct known only by name against one whose fields were set
            b = next((x for x in leaves(w) if x.op == 'adt' and not x.args[1] and x.args[2]), None)
            if b is not None and all(x is leafval(v) or (x.op == 'adt' and x.args[0] == b.args[0] and x.args[2] == b.args[2]) for x in leaves(w)):
                a = leafval(v)
                vals = []
                for k in b.args[2]:
                    vk = ungate1(fld(a, k, b.args[0], len(b.args[2])))
                    wk = ungate(mapleaves(w, lambda x: leaf(fld(x, k, b.args[0], len(b.args[2])))))
                    vals.append(gate(self.generalise(vk, wk, key + (k,), d, inits)))
                g = adt(b.args[0], '', b.args[2], vals)
                return v if g is a else leaf(g)
        if is_leaf(v) and leafval(v).op == 'iter':
            # an iterator that advances by a gated amount
            a = leafval(v)
            ls = [x for x in leaves(w) if x.op != 'uninit']
            if ls and all(x.op == 'iter' and x.args[0] == a.args[0] and len(x.args) == len(a.args) for x in ls):
                vals = [a.args[0]]
                for j in range(1, len(a.args)):
                    if isinstance(a.args[j], Term):
                        wj = ungate(mapleaves(w, lambda x: leaf(x.args[j]) if x.op == 'iter' else leaf(UNINIT)))
                        vals.append(gate(self.generalise(leaf(a.args[j]), wj, key + (j,), d, inits)))
                    else:
                        if any(x.args[j] is not a.args[j] for x in ls):
                            raise Unsupported('gated iterator')
                        vals.append(a.args[j])
                if all(x is y for x, y in zip(vals, a.args)):
                    return v
                return leaf(mk('iter', *vals))
        return leaf(self.newlv(v, key, d, inits, w))

    def newlv(self, v, key, d, inits, w=None):
        x = mk('lv', d, str(key))
        if x not in inits:
            inits[x] = v
            ls = leaves(v)
            if w is not None:
                ls = ls + leaves(w)
            if all(_intish(t) for t in ls if t.op not in ('uninit',)):
                los = [rng(t)[0] for t in leaves(v)]
                nonneg = all(l is not None and l >= 0 for l in los)
                # carried counters only grow from their start in counted loops with positive steps
                lo0 = min(los) if nonneg and los else (0 if nonneg else -2**127)
                RNG.setdefault(x, (0 if nonneg else -2**127, 2**127))
            for t in ls:
                if t in NFIELDS:
                    NFIELDS.setdefault(x, NFIELDS[t])
                    break
                if t.op == 'adt' and not t.args[1] and t.args[2]:
                    NFIELDS.setdefault(x, (t.args[0], len(t.args[2])))
                    break
            for t in ls:
                if t in TM.VARIANTS:
                    TM.VARIANTS.setdefault(x, TM.VARIANTS[t])
        return x

    def gen1(self, a, b, key, d, inits):
        if a is b:
            return a
        if a.op == 'lv' and a.args[0] == d:
            return a
        if a.op == 'adt' and b.op == 'adt' and a.args[0] == b.args[0] and a.args[1] == b.args[1] and a.args[2] == b.args[2] and a.args[2] and not a.args[1]:
            vals = []
            for j, k in enumerate(a.args[2]):
                g = self.generalise(ungate1(a.args[3][j]), ungate1(b.args[3][j]), key + (k,), d, inits)
                vals.append(gate(g))
            if all(x is y for x, y in zip(vals, a.args[3])):
                return a
            return adt(a.args[0], a.args[1], a.args[2], vals)
        if a.op == 'iter' and b.op == 'iter' and a.args[0] == b.args[0] and len(a.args) == len(b.args):
            vals = [a.args[0]]
            for j in range(1, len(a.args)):
                x, y = a.args[j], b.args[j]
                if x is y or not isinstance(x, Term):
                    vals.append(x)
                else:
                    vals.append(self.gen1(x, y, key + (j,), d, inits))
            return mk('iter', *vals)
        if a.op == 'ptr' or b.op == 'ptr':
            raise Unsupported('loop-carried pointer')
        return self.newlv(leaf(a), key, d, inits, leaf(b))

    def find_lvs(self, v, d):
        return [x for x in sorted(node_bv(v), key=lambda t: t.id) if x.op == 'lv' and x.args[0] == d]

    def match_lv(self, v, w, d, nxt, bc):
        """Collects, for every loop variable placed in v, its value in w."""
        if is_leaf(v):
            a = leafval(v)
            if a.op == 'lv' and a.args[0] == d:
                nxt[a] = w
                return
            if a.op == 'adt' and a.bv:
                for j, k in enumerate(a.args[2]):
                    self.match_lv(ungate1(a.args[3][j]), ungate(mapleaves(w, lambda x: leaf(fld(x, k) if not a.args[1] else vfld(x, a.args[1], k)))), d, nxt, bc)
                return
            if a.op == 'iter' and a.bv:
                for j in range(1, len(a.args)):
                    if isinstance(a.args[j], Term) and a.args[j].bv:
                        self.match_lv(leaf(a.args[j]), ungate(mapleaves(w, lambda x: leaf(x.args[j]) if x.op == 'iter' else leaf(UNINIT))), d, nxt, bc)
                return

    def unroll(self, fr, L, cond, st, n, open_=None):
        outs = []
        c, s = cond, st
        notes = len(self.notes)
        self.rewind()
        for it in range(n):
            bc, bs, ex = self.body(fr, L, c, s, keep=True)
            outs.extend(ex)
            if bc is F:
                return outs
            if open_ is not None and any(care(x[1], c) is not F for x in ex):
                open_ -= 1          # whether to go round again is not known
                if open_ < 0:
                    break
            c, s = bc, {k: care(v, bc) for k, v in bs.items()}
        del self.notes[notes:]
        self.rewind()
        return None

    def while_loop(self, fr, L, cond, st, gen, inits, lvs, bc, nxt, why):
        """Uncounted loop: the carried values at its end are terms built from the start values, the condition under which
        the body goes round again and the values after one round (all as functions of the carried values)."""
        d = self.loopd
        if any(x not in inits or _hasptr(gate(inits[x])) for x in lvs) or any(_hasptr(y) for n in nxt.values() for y in leaves(n)):
            return self.opaque_loop(fr, L, cond, st, gen, inits, why)
        back = care(bc, cond)
        live = [x for x in lvs if nxt.get(x) is not None and nxt[x] is not leaf(x)]
        keep = {x: leaf(inits[x]) if False else inits[x] for x in lvs if x not in live}
        order = sorted(live, key=lambda x: (gate(inits[x]).id, str(x.args[1])))
        deps = {x: {y for y in order if y in node_bv(nxt[x])} for x in order}

        def closure(s):
            s, todo = set(s), list(s)
            while todo:
                for y in deps[todo.pop()]:
                    if y not in s:
                        s.add(y)
                        todo.append(y)
            return s
        base = closure({y for y in order if y in node_bv(back)})
        kept = {x: gate(v) for x, v in keep.items()}
        m = dict(kept)
        self.notes.append('loop at %s:%s kept as an uncounted loop' % (fr.f['file'], fr.f['line']))
        for x in order:
            rel = [y for y in order if y in closure(base | {x})]
            ren = {y: mk('lv', d, 'w%d' % j) for j, y in enumerate(rel)}
            for y, z in ren.items():
                if y in RNG:
                    RNG.setdefault(z, RNG[y])
                if y in NFIELDS:
                    NFIELDS.setdefault(z, NFIELDS[y])
                if y in TM.VARIANTS:
                    TM.VARIANTS.setdefault(z, TM.VARIANTS[y])
            ren.update(kept)
            t = mkq('whl', d, num(0), num(0), tuple(gate(inits[y]) for y in rel), self.subn(back, ren),
                    tuple(gate(self.subn(care(nxt[y], bc), ren)) for y in rel), rel.index(x))
            for tab in (RNG, NFIELDS, TM.VARIANTS):
                if x in tab:
                    tab.setdefault(t, tab[x])
            m[x] = t
        if L.recorded:
            # one round, as a function of the carried values
            self.nloops += 1
            ren = {y: mk('lv', d, 'r%d.%d' % (self.nloops, j)) for j, y in enumerate(order)}
            self.round_of.update({z: m[y] for y, z in ren.items()})
            for y, z in ren.items():
                for tab in (RNG, NFIELDS, TM.VARIANTS):
                    if y in tab:
                        tab.setdefault(z, tab[y])
            ren.update(kept)
            self.body(fr, L, cond, {k: self.subn(v, ren) for k, v in gen.items()})
        recs = self.recs[self.recmark:]
        g = {k: self.subn(v, m) for k, v in gen.items()}
        self.rewind()
        ex = self.run_region(fr, L.blocks, L.header, cond, g, header=L.header)
        self.recs[self.recmark:] = recs
        exits = [(t, care(c, cond), s) for (t, c, s) in ex if t != L.header]
        if not exits:
            return []
        # the loop is assumed to end: the exits partition the entry condition
        out, left = conj(cond, neg(disj(*[c for t, c, s in exits]))), []
        over = [(t, c, s) for t, c, s in exits]
        rem = cond
        for j, (t, c, s) in enumerate(over):
            cj = conj(rem, c) if j < len(over) - 1 or self.obl is not None else rem
            rem = conj(rem, neg(cj))
            if cj is not F:
                left.append((t, cj, {k: care(v, conj(cj, c)) if conj(cj, c) is not F else v for k, v in s.items()}))
        return left

    def opaque_loop(self, fr, L, cond, st, gen, inits, why):
        """No closed form: carried values become opaque terms determined by the loop and its inputs."""
        self.notes.append('loop at %s:%s not summarised (%s)' % (fr.f['file'], fr.f['line'], why))
        m = {}
        ins = tuple(gate(v) for k, v in sorted(inits.items(), key=lambda x: x[0].id))
        for x in inits:
            y = mk('unk', 'loop:%s:%d:%s' % (fr.f['path'], L.header, x.args[1]), tuple(t for t in ins if not _hasptr(t)))
            m[x] = y
            if x in RNG:
                RNG.setdefault(y, RNG[x])
            if x in NFIELDS:
                NFIELDS.setdefault(y, NFIELDS[x])
            if x in TM.VARIANTS:
                TM.VARIANTS.setdefault(y, TM.VARIANTS[x])
        g = {k: self.subn(v, m) for k, v in gen.items()}
        self.rewind()
        ex = self.run_region(fr, L.blocks, L.header, cond, g, header=L.header)
        outs = []
        exits = [(t, c, s) for (t, c, s) in ex if t != L.header]
        # assume the loop terminates: the exits partition the entry condition
        tot = disj(*[care(c, cond) for t, c, s in exits]) if exits else F
        for (t, c, s) in exits:
            outs.append((t, conj(cond, care(c, cond), lit(mk('b', mk('unk', 'exit:%s:%d:%s' % (fr.f['path'], L.header, t), ins)))) if len(exits) > 1 else cond, s))
        return outs

    # ------------------------------------------------------------ entry point
    def analyse(self, f, args, cond=T, cells=None):
        """Value diagram returned by f on the given argument diagrams.  Returns (ret, state, okcond)."""
        st = {(-1, '#rng'): leaf(num(0)), (-1, '#fx'): leaf(num(0)), (-1, '#err'): leaf(num(0))}
        if cells:
            for k, v in cells.items():
                st[(-1, k)] = v
        r = self.enter(f, args, cond, st)
        if r is None:
            return leaf(PANIC), st, F
        c, v, s = r[0]
        v = ite(care(c, cond), v, leaf(PANIC))
        return v, s, c


_UNMODELLED = re.compile(r'^<*(&|mut |\[|dyn |impl )*(std|core|alloc)::')
_TRAITCALL = re.compile(r'^std::(default::Default::default|cmp::\w+::\w+|convert::\w+::\w+|hash::Hash::hash)<')
_STD_OK = ('std::fs::', 'std::io::', 'std::path::', 'std::env::', 'std::process::', 'std::sync::', 'std::time::', 'std::thread::', 'f64::<impl f64>::')


def foreign(name):
    """Standard-library functions without a model: nothing may be concluded from their results."""
    m = re.match(r'^[\w:]+<(.*)>$', name)          # a trait method on a type of another crate
    if m and _TRAITCALL.match(name) and not _UNMODELLED.match(m.group(1)):
        return False
    if any(p in name for p in _STD_OK):
        return False
    return bool(_UNMODELLED.match(name))


FRESH = re.compile(r'(Keypair|SecretKey)::generate$|fill_bytes')
# accesses to the outside world (files, stores): recorded as events, in program order
EFFECT = re.compile(r'^(sled::Tree::(insert|remove|flush\w*|clear|apply_batch|transaction|fetch_and_update|compare_and_swap|pop_\w+|update_and_fetch)$'
                    r'|std::fs::(File::(create|create_new|set_permissions|set_len|sync_\w+)|OpenOptions::open|write|rename|remove_\w+|create_dir\w*|copy|set_permissions)\b'
                    r'|std::io::(Write|Read)::|rmp_serde::encode::write\w*$|serde_json::to_writer\w*$|serde_json::ser::to_writer\w*$|std::process::exit$)')


class Event:
    __slots__ = ('name', 'cond', 'args', 'no', 'res', 'fn', 'line')

    def __init__(self, *a):
        self.name, self.cond, self.args, self.no, self.res, self.fn, self.line = a


_BYTES = re.compile(r'^((?:ed25519|curve25519)_dalek::[\w:]+)::(?:as_bytes|to_bytes)$')
_ASREF = re.compile(r'^std::convert::AsRef::as_ref<((?:ed25519|curve25519)_dalek::[\w:]+), \[u8\]>$')


def canon_ext(name):
    """One name for the equivalent accessors of the bytes of a key, signature or point."""
    m = _BYTES.match(name) or _ASREF.match(name)
    return 'bytes:' + m.group(1).split('::')[-1] if m else name


class Ctx:
    pass


def cell(name):
    return leaf(mk('ptr', -1, name, ()))


BOXY = ('std::boxed::Box', 'std::ptr::Unique', 'std::ptr::NonNull', 'std::mem::MaybeUninit', 'std::mem::ManuallyDrop')


def _tt(f):
    if isinstance(f, list):
        return tuple(_tt(x) if isinstance(x, list) else x for x in f)
    return (f,)


def _intish(t):
    return t.op == 'lin' or t in RNG or t.op in ('len', 'idx', 'mul', 'sum')


def _hasptr(t):
    if t.op == 'ptr':
        return True
    if t.op == 'adt':
        return any(_hasptr(x) for x in t.args[3])
    return False


def _cond_bv(n):
    bv = frozenset()
    for v in support(n):
        bv |= TM.VARS[v].bv
    return bv


def _mentions_prefix(t, d):
    if t.op == "sum" and t.args[2] is d:
        return True
    return False
