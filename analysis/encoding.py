"""What the Serialize implementations of the tree write, read off their value flow.

An implementation (derived or written by hand) is interpreted with an unknown serializer; every call it makes on the
serializer is a write with a condition (which variant, which skipped defaults) and a value."""
import re
from spec import *
import terms as TM
from terms import leaves, lift_gates

SER = 'serializer'


def mentions(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = any(x.op == 'sym' and str(x.args[0]).startswith((SER, '__serializer')) for x in subterms(t if isinstance(t, Node) else leaf(t)))
        memo[t] = r
    return r


def told(n, memo=None):
    """The condition once every call on the serializer has succeeded."""
    memo = {} if memo is None else memo
    if n.var is None:
        return n
    r = memo.get(n)
    if r is None:
        lo, hi = told(n.lo, memo), told(n.hi, memo)
        if mentions(VARS[n.var]):
            r = disj(lo, hi)
        else:
            r = TM.ite(TM._node(n.var, T, F), hi, lo)
        memo[n] = r
    return r


def split(s):
    """Top-level generic arguments of 'name<a, b>'."""
    i = s.find('<')
    if i < 0:
        return s, []
    out, d, cur = [], 0, ''
    for ch in s[i + 1:-1]:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return s[:i], out


def norm(s):
    """A type name without its lifetimes."""
    if s is None or "'" not in s and '<>' not in s:
        return s
    return re.sub(r"'\w+(, ?| )?", '', s).replace('<>', '')


class Write:
    def __init__(self, kind, key, val, cond, ty, line, extra=None):
        self.kind, self.key, self.val, self.cond, self.ty, self.line, self.extra = kind, key, val, cond, ty, line, extra

    def __repr__(self):
        return '%s %s %s' % (self.kind, self.key, self.ty)


def cstr(n):
    n = nod(n)
    if is_leaf(n):
        t = TM.norm_const(leafval(n))
        if t.op == 'k' and t.args[0] == 'str':
            return t.args[1]
        if t.op == 'k' and t.args[0] == 'bytes':
            return bytes(t.args[1]).decode('utf8', 'replace')
    return None


ATOMS = {'serialize_' + x for x in ('bool', 'i8', 'i16', 'i32', 'i64', 'i128', 'u8', 'u16', 'u32', 'u64', 'u128', 'f32', 'f64', 'char', 'str', 'bytes')} | {'collect_str', 'collect_seq', 'collect_map'}
SHAPES = {'serialize_struct': 'struct', 'serialize_map': 'map', 'serialize_seq': 'seq', 'serialize_tuple': 'seq', 'serialize_tuple_struct': 'seq'}


class Shape:
    """Writes of one implementation."""
    def __init__(self):
        self.kinds, self.writes, self.odd = [], [], []


class Encoding:
    def __init__(self, P):
        self.P, self.C = P, P.lib
        self.bystr = {}
        for t in self.C.T:
            self.bystr.setdefault(norm(t['s']), t)
        self.impls = {}
        for f in self.C.fns:
            if f.get('local') and f.get('blocks') and (f.get('trait') or '').endswith('::Serialize') and (f.get('item') or f['name']).split('::')[-1] == 'serialize' and f.get('self') is not None:
                self.impls.setdefault(norm(self.C.T[f['self']]['s']), []).append(f)
        self.memo = {}

    def impl(self, s):
        l = self.impls.get(norm(s))
        return l[0] if l else None

    def shapes(self, s):
        """One shape per implementation (wrappers made by derives share their name)."""
        return [self.shape(s, f) for f in self.impls.get(norm(s), [])]

    def shape(self, s, f=None):
        s = norm(s)
        f = f or self.impl(s)
        if f is None:
            return None
        if f['id'] in self.memo:
            return self.memo[f['id']]
        R = self.P.run(f)
        S = Shape()
        S.f, S.R = f, R
        S.self_ = R.p[0]
        pos = 0
        for name, cond, dv, path, line in R.I.fxlog:
            base, targs = split(name)
            targs = [norm(x) for x in targs]
            m = re.match(r'serde(::__private\d*)?::(ser::)?(\w+)::(\w+)$', base)
            tail = base.split('::')[-1]
            c = told(cond)
            if tail == 'serialize_tagged_newtype':
                # serializer, type name, variant name, tag, variant, value
                ty = targs[-1] if targs else None
                if ty is None:
                    t = self.bystr.get(s)
                    for v in (t or {}).get('variants') or []:
                        if v['name'] == cstr(dv[2]) and len(v['fields']) == 1:
                            ty = self.C.T[v['fields'][0][1]]['s']
                S.writes.append(Write('tagged', cstr(dv[4]), dv[5], c, ty, line, cstr(dv[3])))
                continue
            if not m:
                if not any(mentions(x) for x in dv):
                    continue
                if tail.startswith('serialize') or tail.startswith('collect'):
                    S.odd.append((name, line))
                continue
            tr, me = m.group(3), m.group(4)
            if tr == 'Serialize' and me == 'serialize':
                flat = len(targs) > 1 and 'FlatMapSerializer' in targs[1]
                S.writes.append(Write('flat' if flat else 'inner', None, dv[0], c, targs[0], line))
            elif tr == 'Serializer' and me in SHAPES:
                S.kinds.append((SHAPES[me], c))
            elif tr == 'Serializer' and me == 'serialize_newtype_struct':
                S.writes.append(Write('inner', None, dv[2], c, targs[-1], line))
            elif tr == 'Serializer' and me == 'serialize_unit_variant':
                S.writes.append(Write('variant', cstr(dv[3]), None, c, None, line))
            elif tr == 'Serializer' and me == 'serialize_newtype_variant':
                S.writes.append(Write('variant', cstr(dv[3]), dv[4], c, targs[-1], line))
            elif tr == 'Serializer' and me in ('serialize_tuple_variant', 'serialize_struct_variant'):
                S.writes.append(Write('variant', cstr(dv[3]), None, c, None, line))
            elif tr == 'Serializer' and me == 'serialize_some':
                S.writes.append(Write('inner', None, dv[1], c, targs[-1], line))
            elif tr == 'Serializer' and me in ('serialize_unit', 'serialize_unit_struct', 'serialize_none'):
                S.writes.append(Write('nil', None, None, c, None, line))
            elif tr == 'Serializer' and me in ATOMS:
                S.writes.append(Write('atom', me, dv[1], c, None, line))
            elif me == 'serialize_field' and tr in ('SerializeStruct', 'SerializeStructVariant'):
                S.writes.append(Write('field', cstr(dv[1]), dv[2], c, targs[-1], line, tr == 'SerializeStructVariant'))
            elif me == 'serialize_entry':
                S.writes.append(Write('field', cstr(dv[1]), dv[2], c, targs[-1], line))
            elif me in ('serialize_field', 'serialize_element'):
                S.writes.append(Write('item', '#%d' % pos, dv[1], c, targs[-1], line, tr == 'SerializeTupleVariant'))
                pos += 1
            elif me in ('skip_field', 'end'):
                pass
            else:
                S.odd.append((name, line))
        self.memo[f['id']] = S
        return S

    def types(self, roots):
        """Types whose encoding is part of that of the roots, each with the way it is reached."""
        seen, st = {}, [(s, s.split('::')[-1]) for s in roots]
        while st:
            s, via = st.pop()
            s = norm(s)
            if s in seen or s.startswith(('std::alloc::', 'std::hash::')):
                continue
            seen[s] = via
            Ss = self.shapes(s)
            if Ss:
                for S in Ss:
                    for w in S.writes:
                        if w.ty:
                            st.append((w.ty, via + '.' + str(w.key or '*')))
                continue
            t = self.bystr.get(s)
            if t is None:
                continue
            for k in list(t.get('args') or []) + ([t['of']] if t.get('of') is not None else []):
                if isinstance(k, int):
                    st.append((self.C.T[k]['s'], via + '[]'))
        return seen
