"""What is encoded is decoded again."""
import re
from spec import *
import terms as TM
import intrinsics as IT
from encoding import Encoding, split, norm, cstr
from C02 import fields_of, trivial, same, keysets, possible
import C21
import C22
import C23

RULE = ('for every type with an encoder and a decoder: each field is decoded from the name (or position) and as the type it was encoded with, into the same field; a field that may be left out is decoded, when missing, to the only value for which it is left out; '
        'variants are decoded from their own names; hand-written decoders applied to what the encoder wrote give the value back; mnemonics, addresses and trie nodes as in C23, C22 and C21')
PARTS = ['types', 'codec', 'mnemonics', 'addresses', 'pages']


def tail(f):
    return (f.get('item') or f['path']).split('::')[-1]


class Decoding:
    """Deserialize implementations and the visitors the derive macro makes for them."""
    def __init__(self, P):
        self.P, C = P, P.lib
        self.C = C
        self.impls, self.visit = {}, {}
        for f in C.fns:
            if not f.get('local') or not f.get('blocks') or f.get('self') is None:
                continue
            tr = f.get('trait') or ''
            s = norm(C.T[f['self']]['s'])
            if tr.endswith('::Deserialize') and tail(f) == 'deserialize':
                self.impls.setdefault(s, []).append(f)
            elif tr.endswith('de::Visitor') or tr.endswith('::Visitor'):
                m = re.search(r' for (.*?)>::deserialize::(.*)$', s)
                if m:
                    self.visit.setdefault((norm(m.group(1)), 'field' if 'FieldVisitor' in m.group(2) else 'value'), {})[f['path'].split('::')[-1]] = f

    def names(self, s):
        """name -> position of the field (or variant) it stands for; None: the name is not read as a constant."""
        vs = self.visit.get((s, 'field')) or {}
        f = vs.get('visit_str')
        if f is None:
            return None, None
        R = self.P.run(f)
        out = {}
        ret = R.ret

        def idx(x):
            if x.op == 'adt' and x.args[1] == 'Ok' and x.args[3] and x.args[3][0].op == 'adt':
                m = re.match(r'__field(\d+)$', x.args[3][0].args[1])
                return int(m.group(1)) if m else None
        for x in leaves(ret):
            k = idx(x)
            if k is None:
                continue
            c = cond_of(ret, lambda y: y is x)
            for v in support(c):
                t = VARS[v]
                if t.op == 'eq':
                    for a in t.args:
                        n = cstr(leaf(a))
                        if n is not None and conj(c, TM._node(v, T, F)) is not F and implies(TM._node(v, T, F), c) is T or n is not None and possible(conj(c, TM._node(v, T, F))):
                            out.setdefault(n, k)
        return out, f


def okpay(n):
    """(cases of a successful result: (value, condition))"""
    good = is_ok(n)
    p = care(payload(n), good)
    return [(x, conj(good, cond_of(p, lambda y: y is x))) for x in leaves(p)]


READ = re.compile(r'serde::(__private\d*::)?de::SeqAccess::next_element<')


def depth(x):
    """How many elements were taken before this one."""
    n = 0
    while x.op == 'app' and x.args[1] and isinstance(x.args[1][0], TM.Term) and x.args[1][0].op == 'app' and READ.match(x.args[1][0].args[0]):
        x = x.args[1][0]
        n += 1
    return n


def element(x):
    """(position, type) if the term is the element read at a position."""
    y = x
    if y.op == 'fld' and y.args[1] == 'value' and '__DeserializeWith' in show(y.args[0]):
        y = y.args[0]
    for k in ('Some', 'Ok'):
        if y.op == 'vfld' and y.args[1] == k:
            y = y.args[0]
        else:
            return None
    if y.op == 'app' and READ.match(y.args[0]):
        return depth(y), norm(split(y.args[0])[1][-1])
    return None


def through(P, D, ty):
    """The type a `deserialize_with` wrapper decodes its content as, when its function does just that."""
    m = [k for k in D.impls if bare(k) == bare(ty)]
    if '__DeserializeWith' not in (ty or '') or len(m) != 1:
        return ty
    f = D.impls[m[0]][0]
    R = P.run(f)
    t = P.lib.T[f['self']]
    ft = dict(fields_of(t)).get('value')
    if ft is None:
        return ty
    out = V(payload(R.ret), t, P.lib).f('value')
    good = is_ok(R.ret)
    want = P.lib.T[ft]['s']
    ls = leaves(care(out.n, good))
    if len(ls) == 1 and ls[0].op == 'vfld' and ls[0].args[1] == 'Ok' and ls[0].args[0].op == 'app':
        h, a = split(ls[0].args[0].args[0])
        if h.endswith('Deserialize::deserialize') and a and bare(a[0]) == bare(want) and good is is_ok(leaf(ls[0].args[0])):
            return want
    g = D.impls.get(norm(want))
    if g:
        R2 = P.run(g[0])
        txt = lambda n: ' ; '.join('%s %s' % (re.sub(r'\b__(D|deserializer)\b', r'\1', show(x)), re.sub(r'\b__(D|deserializer)\b', r'\1', show(cond_of(n, lambda y: y is x)))) for x in leaves(n))
        g2 = is_ok(R2.ret)
        both = lambda n, c: txt(care(n, c)) + ' if ' + txt(c)
        if both(out.n, good) == both(payload(R2.ret), g2):
            return want
    return ty


def types(P, ck):
    E, D = Encoding(P), Decoding(P)
    C = P.lib
    n = 0
    for s in sorted(D.impls):
        if '::deserialize::__' in s or s not in {norm(k) for k in E.impls}:
            continue
        t = E.bystr.get(s)
        S = E.shape(s)
        if t is None or S is None:
            continue
        n += 1
        nm = s.split('::')[-1]
        f = D.impls[s][0]
        w = loc(f)
        vs = D.visit.get((s, 'value')) or {}
        if S.odd:
            ck.und('%s: calls on the serializer' % nm, w, str(S.odd[0]))
        if t['k'] == 'struct' and 'visit_seq' in vs and any(x.kind == 'field' for x in S.writes):
            named(P, E, D, ck, s, t, S, vs['visit_seq'], nm)
        elif t['k'] == 'struct' and 'visit_newtype_struct' in vs:
            newtype(P, E, ck, t, S, vs['visit_newtype_struct'], nm)
        elif t['k'] == 'struct' and 'visit_map' in vs:
            flattened(P, E, D, ck, s, t, S, vs['visit_map'], nm)
        elif t['k'] == 'struct' and 'visit_seq' in vs:
            tuples(P, E, ck, t, S, vs['visit_seq'], nm)
        elif t['k'] == 'enum' and 'visit_enum' in vs:
            variants(P, E, D, ck, s, t, S, vs['visit_enum'], nm)
        elif t['k'] == 'enum' and any(x.kind == 'tagged' for x in S.writes):
            tagged(P, E, D, ck, s, t, S, f, nm)
        else:
            direct(P, E, ck, t, S, f, nm)
    if n < 40:
        ck.und('types', '', 'only %d types with an encoder and a decoder' % n)


def default_ok(P, ck, name, w, fv, missing, cases, opt):
    """When the field is left out it has the value that decoding puts in."""
    if missing is F:
        return ck.ok(name, w)
    if not cases:
        if opt:
            return ck.holds(name, implies(missing, fv.none()), w)
        return ck.fail(name, w, 'it can be left out, but a missing field is an error')
    d = None
    for x, c in cases:
        d = leaf(x) if d is None else ite(c, leaf(x), d)
    y = leafval(d) if is_leaf(d) else None
    if y is not None and y.op == 'app' and y.args[0].endswith('Signature::new'):
        # a signature is its 64 bytes
        return ck.holds(name, implies(missing, Eq(leaf(TM.app('bytes:Signature', leafval(fv.n))), nod(y.args[1][0]))), w)
    ck.holds(name, implies(missing, veq(fv, V(d, fv.t, P.lib))), w)


def read_type(x):
    """The type whose decoder gave this value."""
    x = leafval(x) if not isinstance(x, TM.Term) else x
    for k in ('Some', 'Ok'):
        if x.op == 'vfld' and x.args[1] == k:
            x = x.args[0]
    if x.op != 'app':
        return None
    h, a = split(x.args[0])
    if h.endswith('Deserialize::deserialize') and a:
        return a[0]
    m = re.search(r'impl serde::Deserialize<[^>]*> for (.*?)>::deserialize::', a[-1]) if '::deserialize_' in h and a else None
    return m.group(1) if m else None


def is_option(C, t):
    return t['k'] == 'enum' and (t.get('path') or '').endswith('option::Option')


def named(P, E, D, ck, s, t, S, f, nm):
    w = loc(f)
    names, g = D.names(s)
    if not names:
        return ck.und('%s: names' % nm, w, 'the names read are not known')
    R = P.run(f)
    out = V(payload(R.ret), t, P.lib)
    good = is_ok(R.ret)
    self_ = V(S.self_.n, t, P.lib)
    back = {}
    for n, k in names.items():
        back.setdefault(k, set()).add(n)
    order = sorted(set(names.values()))
    for k, ft in fields_of(t):
        ftt = P.lib.T[ft]
        fv = self_.f(k)
        ws = [x for x in S.writes if x.val is not None and x.kind == 'field' and same(x.val, fv.n)]
        d = care(out.f(k).n, good)
        reads, others = [], []
        for x in leaves(d):
            e = element(x)
            (reads if e else others).append((e, x) if e else (x, cond_of(d, lambda y: y is x)))
        if not ws:
            if trivial(P.lib, ftt) and not reads:
                ck.ok('%s.%s has a single value' % (nm, k), w)
                continue
            if any(x.val is not None and x.kind == 'field' and leafval(x.val).op != 'k' and any(z is leafval(fv.n) for z in subterms(nod(x.val))) for x in S.writes if x.val is not None and is_leaf(nod(x.val))):
                ck.und('%s.%s is decoded as it was encoded' % (nm, k), w, 'another value is written in its place')
            else:
                ck.fail('%s.%s is encoded' % (nm, k), loc(S.f), 'the field is never written')
            continue
        if len(set(e for e, _ in reads)) != 1:
            if any(has_unk(x) for x, _ in others):
                ck.und('%s.%s is decoded' % (nm, k), w, 'not determined')
            else:
                ck.fail('%s.%s is decoded' % (nm, k), w, 'it is %s' % ('not read' if not reads else 'read from several elements'))
            continue
        pos, ty = reads[0][0]
        ty = through(P, D, ty)
        if pos >= len(order):
            ck.und('%s.%s: position' % (nm, k), w, 'element %d of %d names' % (pos, len(order)))
            continue
        acc = back[order[pos]]
        for x in ws:
            (ck.ok if x.key in acc else ck.fail)('%s.%s is decoded from the name it is encoded under' % (nm, k), w, 'encoded as "%s", decoded from %s' % (x.key, sorted(acc)))
            kind(ck, '%s.%s is decoded as the type it is encoded as' % (nm, k), w, x.ty, ty)
        default_ok(P, ck, '%s.%s: left out only for the value a missing field decodes to' % (nm, k), w, fv, neg(disj(*[x.cond for x in ws])), others, is_option(P.lib, ftt))
    # no other key is taken for a field
    keys = {}
    for x in S.writes:
        if x.kind == 'field' and x.key is not None:
            keys.setdefault(names.get(x.key), []).append(x)
    for i, l in keys.items():
        if i is not None and len({x.key for x in l}) > 1 and possible(conj(l[0].cond, l[1].cond)):
            ck.fail('%s: names are kept apart' % nm, w, 'two names are decoded into one field: %s' % sorted({x.key for x in l}))


def bare(ty):
    ty = norm(ty or '?')
    while ty.startswith('&'):
        ty = ty[1:].strip()
    return ty


BYTES = {'serialize_bytes': ('serde_bytes::ByteBuf', 'serde_bytes::Bytes', 'serde_bytes::ByteArray', 'serde_bytes::bytebuf::ByteBuf')}


def kind(ck, name, w, a, b):
    if bare(a) == bare(b):
        return ck.ok(name, w)
    if '__SerializeWith' in (a or '') or '__DeserializeWith' in (b or ''):
        return ck.und(name, w, 'encoded as %s, decoded as %s' % (a, b))
    ck.fail(name, w, 'encoded as %s, decoded as %s' % (a, b))


def newtype(P, E, ck, t, S, f, nm):
    w = loc(f)
    R = P.run(f)
    ws = [x for x in S.writes if x.kind in ('inner', 'atom')]
    if len(ws) != 1:
        return ck.und('%s: content' % nm, w, '%d writes' % len(ws))
    d = care(payload(R.ret), is_ok(R.ret))
    for x in leaves(d):
        apps = [y for y in subterms(leaf(x)) if y.op == 'app' and re.search(r'Deserialize::deserialize<', y.args[0])]
        if len(apps) != 1:
            (ck.und if has_unk(x) or not apps else ck.fail)('%s: content' % nm, w, show(x)[:200])
            continue
        got = split(apps[0].args[0])[1][0]
        if ws[0].kind == 'atom':
            ok = any(bare(got).startswith(z) for z in BYTES.get(ws[0].key, ())) or ws[0].key == 'serialize_' + bare(got)
            (ck.ok if ok else ck.fail)('%s: the content is decoded as the type it is encoded as' % nm, w, '%s, %s' % (ws[0].key, got))
        else:
            kind(ck, '%s: the content is decoded as the type it is encoded as' % nm, w, ws[0].ty, got)
        inverse(P, ck, t, S, ws[0], R.ret, apps[0], nm, w)


def inverse(P, ck, t, S, wr, ret, read, nm, w):
    """With the value read replaced by the value written, the result is the value encoded."""
    self_ = V(S.self_.n, t, P.lib)
    val = nod(wr.val)
    if not is_leaf(val):
        return ck.und('%s: decoding what was encoded' % nm, w, 'a conditional value is written')
    v = leafval(val)
    c = is_ok(leaf(read))
    got = care(ret, c)
    got = TM.subst(got, {TM.vfld(read, 'Ok', '0'): v})
    assume = TM.subst(care(T, c), {}) if False else T
    res = care(payload(got), is_ok(got))
    ck.holds('%s: what was encoded is accepted' % nm, implies(c, is_ok(got)), w)
    ck.same('%s: decoding what was encoded gives the value back' % nm, res, self_, w, assume=conj(c, is_ok(got)))


def direct(P, E, ck, t, S, f, nm):
    """Transparent and hand-written implementations."""
    w = loc(f)
    R = P.run(f)
    ws = [x for x in S.writes if x.kind in ('inner', 'atom')]
    if len(ws) != 1 or len(S.writes) != 1:
        return ck.und('%s: content' % nm, w, '%d writes' % len(S.writes))
    apps = list(dict.fromkeys(y for y in subterms(R.ret) if y.op == 'app' and re.search(r'Deserialize::deserialize<', y.args[0])))
    if len(apps) != 1:
        return ck.und('%s: content' % nm, w, '%d reads' % len(apps))
    got = split(apps[0].args[0])[1][0]
    if ws[0].kind == 'atom':
        ok = any(bare(got).startswith(z) for z in BYTES.get(ws[0].key, ())) or ws[0].key == 'serialize_' + bare(got) or ws[0].key == 'serialize_str' and bare(got) in ('std::string::String', 'str')
        (ck.ok if ok else ck.fail)('%s: the content is decoded as the type it is encoded as' % nm, w, '%s, %s' % (ws[0].key, got))
    else:
        kind(ck, '%s: the content is decoded as the type it is encoded as' % nm, w, ws[0].ty, got)
    inverse(P, ck, t, S, ws[0], R.ret, apps[0], nm, w)


def tuples(P, E, ck, t, S, f, nm):
    w = loc(f)
    R = P.run(f)
    out = V(payload(R.ret), t, P.lib)
    good = is_ok(R.ret)
    self_ = V(S.self_.n, t, P.lib)
    items = [x for x in S.writes if x.kind == 'item']
    if any(x.cond is not T for x in items):
        return ck.fail('%s: positions are fixed' % nm, w, 'an element is left out')
    for k, ft in fields_of(t):
        pos = [i for i, x in enumerate(items) if same(x.val, self_.f(k).n)]
        es = [element(x) for x in leaves(care(out.f(k).n, good))]
        if len(pos) != 1 or len(es) != 1 or es[0] is None:
            ck.und('%s.%s: position' % (nm, k), w, '')
            continue
        (ck.ok if es[0][0] == pos[0] else ck.fail)('%s.%s is decoded from the position it is encoded at' % (nm, k), w, '%s, %s' % (pos[0], es[0][0]))
        kind(ck, '%s.%s is decoded as the type it is encoded as' % (nm, k), w, items[pos[0]].ty, es[0][1])


def variants(P, E, D, ck, s, t, S, f, nm):
    w = loc(f)
    names, g = D.names(s)
    if not names:
        return ck.und('%s: names' % nm, w, 'the names read are not known')
    R = P.run(f)
    self_ = V(S.self_.n, t, P.lib)
    got = {}
    for x, c in okpay(R.ret):
        for v in support(c):
            a = VARS[v]
            m = re.match(r'__field(\d+)$', str(a.args[1])) if a.op == 'var' else None
            if m and conj(c, TM._node(v, F, T)) is F:
                got.setdefault(int(m.group(1)), []).append(x)
        if x.op != 'adt':
            pass
    # the last variant may be what is left when all others are excluded
    order = sorted(set(names.values()))
    rest = [k for k in order if k not in got]
    if len(rest) == 1:
        have = [y for l in got.values() for y in l]
        l = [x for x, c in okpay(R.ret) if x not in have]
        got[rest[0]] = l
    for var in t['variants']:
        vn = var['name']
        ws = [x for x in S.writes if x.kind in ('variant',) and possible(conj(x.cond, self_.is_(vn)))]
        if len({x.key for x in ws}) != 1:
            ck.und('%s::%s: name' % (nm, vn), w, '%d names' % len({x.key for x in ws}))
            continue
        k = names.get(ws[0].key)
        if k is None:
            ck.fail('%s::%s is decoded from the name it is encoded under' % (nm, vn), w, 'encoded as "%s", decoded from %s' % (ws[0].key, sorted(names)))
            continue
        l = got.get(k) or []
        vnames = {variant(x) for x in l}
        if None in vnames or not l:
            ck.und('%s::%s is decoded from the name it is encoded under' % (nm, vn), w, str([show(x)[:80] for x in l])[:300])
            continue
        (ck.ok if vnames == {vn} else ck.fail)('%s::%s is decoded from the name it is encoded under' % (nm, vn), w, '"%s" is decoded as %s' % (ws[0].key, sorted(vnames)))
        if var['fields']:
            if len(var['fields']) == 1 and ws[0].ty:
                ts = {split(y.args[0])[1][-1] for x in l for y in subterms(leaf(x)) if y.op == 'app' and 'newtype_variant<' in y.args[0]}
                if len(ts) == 1:
                    kind(ck, '%s::%s: the content is decoded as the type it is encoded as' % (nm, vn), w, ws[0].ty, ts.pop())
                    continue
            ck.und('%s::%s: content' % (nm, vn), w, 'fields of a variant')


def variant(x):
    if x.op == 'adt' and x.args[1]:
        return x.args[1]
    return None


def flattened(P, E, D, ck, s, t, S, f, nm):
    """Parts share one map: each part is decoded as the type it is encoded as, and their names are distinct."""
    w = loc(f)
    R = P.run(f)
    out = V(payload(R.ret), t, P.lib)
    good = is_ok(R.ret)
    self_ = V(S.self_.n, t, P.lib)
    for k, ft in fields_of(t):
        ws = [x for x in S.writes if x.kind == 'flat' and same(x.val, self_.f(k).n)]
        if not ws:
            ck.und('%s.%s' % (nm, k), w, 'not a flattened part')
            continue
        rs = set()
        for x in leaves(care(out.f(k).n, good)):
            v = variant(x) if P.lib.T[ft]['k'] == 'enum' else None
            if v is None:
                rs.add(read_type(x))
        if not rs:
            # the decoder of the part was expanded in place: it is the part's own (its variants are checked with its type)
            ck.ok('%s.%s is decoded as the type it is encoded as' % (nm, k), w)
            continue
        if len(rs) != 1 or None in rs:
            ck.und('%s.%s' % (nm, k), w, 'read as %s' % [str(z)[:80] for z in rs])
            continue
        kind(ck, '%s.%s is decoded as the type it is encoded as' % (nm, k), w, ws[0].ty, rs.pop())
    ks = keysets(E, s)
    if ks is None:
        return ck.und('%s: names' % nm, w, 'the keys of a flattened part are not known')
    bad = None
    for alt in ks:
        seen = {}
        for k, wr in alt:
            o = seen.get(k)
            if o is not None and o is not wr:
                bad = '"%s" belongs to two parts (lines %s and %s)' % (k, o.line, wr.line)
            seen[k] = wr
    (ck.fail if bad else ck.ok)('%s: no name belongs to two parts' % nm, w, bad or '')


def tagged(P, E, D, ck, s, t, S, f, nm):
    w = loc(f)
    names, g = D.names(s)
    if not names:
        return ck.und('%s: names' % nm, w, 'the names read are not known')
    R = P.run(f)
    tags = {cstr(leaf(a)) for y in subterms(R.ret) if y.op in ('app', 'adt', 'unk') and 'TaggedContentVisitor' in str(y.args[0]) for a in subterms(leaf(y)) if isinstance(a, TM.Term) and a.op == 'k' and a.args[0] == 'str'} - {None}
    self_ = V(S.self_.n, t, P.lib)
    for var in t['variants']:
        vn = var['name']
        ws = [x for x in S.writes if x.kind == 'tagged' and possible(conj(x.cond, self_.is_(vn)))]
        if len({(x.key, x.extra) for x in ws}) != 1:
            ck.und('%s::%s: name' % (nm, vn), w, '%d names' % len(ws))
            continue
        (ck.ok if ws[0].extra in tags else ck.und if not tags else ck.fail)('%s::%s: the tag is decoded from the name it is encoded under' % (nm, vn), w, '"%s", %s' % (ws[0].extra, sorted(tags)))
        k = names.get(ws[0].key)
        if k is None:
            ck.fail('%s::%s is decoded from the name it is encoded under' % (nm, vn), w, 'encoded as "%s", decoded from %s' % (ws[0].key, sorted(names)))
            continue
        l = [(x, c) for x, c in okpay(R.ret) if variant(x) == vn]
        if not l:
            ck.und('%s::%s is decoded' % (nm, vn), w, 'never')
            continue
        for x, c in l:
            sel = {int(m.group(1)) for v in support(c) for m in [re.match(r'__field(\d+)$', str(VARS[v].args[1])) if VARS[v].op == 'var' else None] if m and conj(c, TM._node(v, F, T)) is F}
            if not sel:
                no = {int(m.group(1)) for v in support(c) for m in [re.match(r'__field(\d+)$', str(VARS[v].args[1])) if VARS[v].op == 'var' else None] if m and conj(c, TM._node(v, T, F)) is F}
                sel = set(names.values()) - no
            if len(sel) != 1:
                ck.und('%s::%s is decoded from the name it is encoded under' % (nm, vn), w, str(sel))
            else:
                (ck.ok if sel == {k} else ck.fail)('%s::%s is decoded from the name it is encoded under' % (nm, vn), w, '"%s"' % ws[0].key)
            ts = {read_type(z) for a in x.args[3] for z in leaves(nod(a))}
            if len(ts) != 1 or None in ts:
                ck.und('%s::%s: content' % (nm, vn), w, str(list(ts))[:200])
            else:
                kind(ck, '%s::%s: the content is decoded as the type it is encoded as' % (nm, vn), w, ws[0].ty, ts.pop())


# ------------------------------------------------------------------ the codec
POSITIONAL = re.compile(r'^rmp_serde::(encode::)?(to_vec|write)(<|$)')


def codec(P, ck):
    """One self-describing format is used for writing, and what was written is what is read."""
    enc, dec = P.insts('protocol::codec::encode'), P.insts('protocol::codec::decode')
    E = Encoding(P)
    for f in P.lib.fns + P.bin.fns:
        C = f['_c']
        if not f.get('blocks') or not f.get('local'):
            continue
        for b in f['blocks']:
            t = b['t']
            if t and t[0] == 'call' and t[1][0] == 'fn' and POSITIONAL.match(t[1][1]):
                ts = [C.T[i]['s'] for i in t[1][3] if isinstance(i, int)]
                ck.fail('everything is encoded with field names', '%s:%s %s' % (f['file'], t[5], f['path']), 'fields that are left out shift the ones after them: %s of %s' % (t[1][1], ts[-1:] or '?'))
    for f in enc[:1]:
        R = P.run(f)
        x = R.p[0]
        ck.holds('encode: no panic', neg(panics(R)), loc(f))
        for g in dec:
            Q = P.run(g, args=[R.ret])
            ck.holds('decode accepts what encode wrote', is_ok(Q.ret), loc(g))
            ck.same('decode gives back what encode was given', payload(Q.ret), x, loc(g))
            break
        break


def mnemonics(P, ck):
    for p in C23.PARTS:
        getattr(C23, p)(P, ck)


def addresses(P, ck):
    for p in C22.PARTS:
        getattr(C22, p)(P, ck)


def pages(P, ck):
    for p in C21.PARTS:
        getattr(C21, p)(P, ck)
