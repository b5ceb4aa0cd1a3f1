"""Digests commit to every field, under an encoding in which different values differ."""
from spec import *
import terms as TM
from terms import leaves, lift_gates
from encoding import Encoding, Write
import C01

RULE = 'the hashed bytes of every Hashable are an unambiguous encoding of the whole value, and in every Serialize implementation it reaches each field is written under a name of its own, left out only when it holds its default, and variants are told apart'
PARTS = ['roots', 'encodings']

MSGPACK = 'msgpack'      # the named-field encoding (rmp_serde::to_vec_named)


def fields_of(t):
    if t['k'] == 'struct' and t['variants']:
        return [(x[0], x[1]) for x in t['variants'][0]['fields']]
    return []


def trivial(C, t):
    """Types with a single value."""
    return (t['k'] == 'tuple' and not t['args']) or t['s'].startswith(('std::marker::PhantomData', 'core::marker::PhantomData')) or (t['k'] == 'struct' and t['variants'] and t.get('local') and not t['variants'][0]['fields'])


def fixed(n):
    """Length of a byte string term when it does not depend on the value."""
    from spec import V
    L = TM.length(n) if isinstance(n, Term) else None
    return L is not None and TM.is_num(L)


def depends(n, what):
    """Does the diagram contain the given node as a value?"""
    w = leafval(what) if is_leaf(what) else None
    if n is what:
        return True
    return w is not None and any(x is w for x in subterms(n))


def same(a, b):
    a, b = nod(a), nod(b)
    return a is b or veq(a, b) is T


# injective in their (single variable) argument
INJ = ('be8', 'le8', 'be4', 'le4', 'be2', 'le2', 'be16', 'le16')


def whole(t, v, C, depth=0):
    """Is the byte string term t an injective image of value v (a V)?  True / False / None (not determined)."""
    if not isinstance(t, Term):
        return None
    if nod(t) is v.n:
        return True
    if t.op == 'app' and t.args[0] == MSGPACK:
        return same(t.args[1][0], v.n) or None
    if t.op == 'app' and t.args[0].startswith('bytes:') and len(t.args[1]) == 1:
        return whole(t.args[1][0], v, C, depth + 1)
    if t.op == 'app' and t.args[0] in INJ and len(t.args[1]) == 1:
        return whole(t.args[1][0], v, C, depth + 1)
    if t.op == 'app' and t.args[0] == DIGEST:
        return whole(t.args[1][0], v, C, depth + 1)      # as good as its argument: digests do not collide
    if t.op == 'concat':
        rest = [p for p in t.args[0] if not (isinstance(p, Term) and p.op == 'k')]
        return whole(rest[0], v, C, depth + 1) if len(rest) == 1 else None
    return None


def roots(P, ck):
    H = C01.hashables(P)
    if not H:
        raise Missing('implementations of Hashable')
    for ty, f in sorted(H.items()):
        w = loc(f)
        nm = ty.split('::')[-1]
        R = P.run(f)
        self_ = R.p[0]
        data = R.v.f('1').n
        live = neg(panics(R))
        name = 'the bytes hashed for %s' % nm
        status, why = 'ok', ''
        for t in leaves(lift_gates(TM.care(data, live))):
            if t is PANIC or not isinstance(t, Term):
                continue
            r = whole(t, self_, P.lib)
            if r:
                continue
            # field by field
            flds = fields_of(self_.t)
            parts = list(t.args[0]) if t.op == 'concat' else [t]
            missing = []
            for k, ft in flds:
                fv = self_.f(k)
                hit = any(whole(p, fv, P.lib) for p in parts)
                if not hit and not trivial(P.lib, P.lib.T[ft]):
                    missing.append((k, any(depends(nod(p), fv.n) for p in parts)))
            if not flds:
                missing = [('value', depends(nod(t), self_.n))]
            loose = [p for p in parts if not fixed(p)]
            lost = [k for k, dep in missing if not dep]
            if lost:
                status, why = 'fail', 'field %s does not take part: %s' % (lost[0], repr(t)[:200])
            elif has_unk(t):
                status, why = ('und', 'not determined: %s' % repr(t)[:200]) if status == 'ok' else (status, why)
            elif missing:
                status, why = 'fail', 'different values of %s can have the same bytes: %s' % (missing[0][0], repr(t)[:200])
            elif len(loose) > 1:
                status, why = 'fail', 'several parts of varying length are joined without a separator: %s' % repr(t)[:200]
        {'ok': lambda: ck.ok(name, w), 'fail': lambda: ck.fail(name, w, why), 'und': lambda: ck.und(name, w, why)}[status]()


def possible(c):
    return conj(axioms(c), c) is not F


def default_cond(P, v):
    """The condition under which a value is its type's default, or None."""
    t = v.t
    try:
        return v.eq(V(default_val(P, t), t, P.lib))
    except (Missing, NotImplementedError):
        return None


def single(P, ck, cond, v):
    """Does the condition leave only one possible value?"""
    if cond is F:
        return True
    d = default_cond(P, v)
    if d is not None and not possible(conj(cond, neg(d))):
        return True
    # an injective image of the value is compared with a constant
    for x in subterms(cond):
        if x.op == 'app' and x.args[0].startswith('bytes:') and len(x.args[1]) == 1 and nod(x.args[1][0]) is v.n:
            for c in support_consts(cond, x):
                if conj(cond, neg(veq(nod(x), nod(c)))) is F:
                    return True
    return False


def support_consts(cond, x):
    for v in TM.support(cond):
        t = TM.VARS[v]
        for a in t.args:
            if isinstance(a, Term) and a is not x:
                yield a


def keysets(E, s, depth=0):
    """Alternative key sets (one per variant of a tagged enum) that a type writes into a surrounding map."""
    S = E.shape(s)
    if S is None or depth > 6:
        return None
    base, alts = [], []
    for w in S.writes:
        if w.kind == 'field':
            base.append((w.key, w))
        elif w.kind in ('flat', 'inner'):
            k = keysets(E, w.ty, depth + 1)
            if k is None:
                return None
            alts.append(k)
        elif w.kind == 'tagged':
            k = keysets(E, w.ty, depth + 1)
            if k is None:
                return None
            alts.append([[(w.extra, w)] + x for x in k])
    if any(w.kind == 'tagged' for w in S.writes):
        return [x for a in alts for x in a]
    out = [base]
    for a in alts:
        out = [x + y for x in out for y in a]
    return out


def encodings(P, ck):
    E = Encoding(P)
    C = P.lib
    rs = [ty for ty in C01.hashables(P)]
    reach = E.types(rs)
    if len(reach) < 40:
        ck.und('types', '', 'only %d encoded types reached' % len(reach))
    for s, via in sorted(reach.items()):
        S = E.shape(s)
        if S is None:
            nullable(E, ck, s, via)
            continue
        t = E.bystr.get(s)
        if t is None:
            ck.und('type %s' % s, via, 'not described')
            continue
        nm = s.split('::')[-1]
        w = loc(S.f)
        if S.odd:
            ck.und('%s: calls on the serializer' % nm, w, str(S.odd[0]))
        if not S.writes and not trivial(C, t):
            ck.fail('%s is written' % nm, w, 'nothing is written')
            continue
        if '__SerializeWith' in s:
            for S1 in E.shapes(s):
                wrapper(P, E, ck, S1, E.C.T[S1.f['self']], s.replace('::__SerializeWith', ''), loc(S1.f))
            continue
        elif t['k'] == 'struct':
            struct(P, E, ck, S, t, nm, w)
        elif t['k'] == 'enum':
            enum(P, E, ck, S, t, nm, w)
        # names
        ks = keysets(E, s) if any(x.kind in ('field', 'flat', 'tagged') for x in S.writes) else [[]]
        if ks is None:
            ck.und('%s: names' % nm, w, 'the keys of a flattened part are not known')
            continue
        bad = None
        for alt in ks:
            seen = {}
            for k, wr in alt:
                if k is None:
                    ck.und('%s: names' % nm, w, 'a key is not a constant')
                    continue
                o = seen.get(k)
                if o is not None and o is not wr and possible(conj(o.cond, wr.cond)):
                    bad = '"%s" is written twice (lines %s and %s)' % (k, o.line, wr.line)
                seen[k] = wr
        if bad:
            ck.fail('%s: every field has a name of its own' % nm, w, bad)
        elif ks != [[]]:
            ck.ok('%s: every field has a name of its own' % nm, w)


def nullable(E, ck, s, via):
    """Option<T> writes nil for None: T must not."""
    t = E.bystr.get(s)
    if t is not None and t['k'] == 'enum' and t.get('path', '').endswith('option::Option'):
        inner = E.C.T[t['args'][0]]
        if inner.get('path', '').endswith('option::Option') or trivial(E.C, inner):
            ck.fail('%s: None is told apart' % s, via, 'the value itself can be written as nil')


def written(S, fv):
    exact = [x for x in S.writes if x.val is not None and same(x.val, fv.n)]
    return exact, [x for x in S.writes if x.val is not None and x not in exact and depends(nod(x.val), fv.n)]


def struct(P, E, ck, S, t, nm, w):
    self_ = V(S.self_.n, t, P.lib)
    whole_ = [x for x in S.writes if x.val is not None and same(x.val, self_.n)]
    if whole_:
        c = disj(*[x.cond for x in whole_])
        if c is T:
            ck.ok('%s is written whole' % nm, w)
            return
    for k, ft in fields_of(t):
        ft = P.lib.T[ft]
        if trivial(P.lib, ft):
            continue
        fv = self_.f(k)
        name = '%s.%s is written unless it is its default' % (nm, k)
        exact, partly = written(S, fv)
        cands = exact
        if not exact:
            good = [x for x in partly if x.ty and '__SerializeWith' in x.ty] or [x for x in partly if injective(x.val, fv)]
            if not good:
                if partly and has_unk(nod(partly[0].val)):
                    ck.und(name, w, 'what is written is not determined')
                elif partly:
                    ck.fail(name, w, 'what is written under "%s" does not determine the field: %s' % (partly[0].key, show(partly[0].val)))
                else:
                    ck.fail(name, w, 'field %s is never written' % k)
                continue
            cands = good
        missing = neg(disj(*[x.cond for x in cands]))
        if missing is F or single(P, ck, missing, fv):
            ck.ok(name, w)
        elif has_unk(missing):
            ck.und(name, w, 'when it is left out is not determined')
        else:
            ck.fail(name, w, 'it is also left out when it is not its default value')
    if any(x.kind == 'item' for x in S.writes) and any(x.kind == 'item' and x.cond is not T for x in S.writes):
        ck.fail('%s: positions are fixed' % nm, w, 'an element of a sequence is left out')


def show(n):
    return repr(leafval(n))[:160] if is_leaf(nod(n)) else 'a conditional value'


def injective(n, fv):
    """Conservative: the written value is an injective image of the field."""
    n = nod(n)
    if not is_leaf(n):
        return False
    t = leafval(n)
    return bool(whole(t, fv, None)) or (t.op == 'app' and t.args[0].startswith(('display:', 'fmt:')) and len(t.args[1]) == 1 and nod(t.args[1][0]) is fv.n)


def wrapper(P, E, ck, S, t, nm, w):
    """serialize_with: the wrapper's implementation hands the field to a function of the tree."""
    self_ = V(S.self_.n, t, P.lib)
    vals = [x for x in subterms(S.self_.n)]
    ok = False
    for x in S.writes:
        if x.val is None:
            continue
        for k, ft in fields_of(t):
            if k == 'values':
                fv = self_.f('values')
                first = fv.f('0') if fv.t['k'] == 'tuple' else fv
                if same(x.val, first.n) or injective(x.val, first):
                    ok = True
    if ok:
        ck.ok('%s writes the whole field' % nm[-60:], w)
    elif any(has_unk(nod(x.val)) for x in S.writes if x.val is not None):
        ck.und('%s writes the whole field' % nm[-60:], w, 'what is written is not determined')
    else:
        ck.fail('%s writes the whole field' % nm[-60:], w, 'what is written does not determine the field')


def enum(P, E, ck, S, t, nm, w):
    self_ = V(S.self_.n, t, P.lib)
    names = {}
    for var in t['variants']:
        vn = var['name']
        isv = self_.is_(vn)
        ws = [x for x in S.writes if possible(conj(x.cond, isv))]
        name = '%s::%s is told apart' % (nm, vn)
        if not ws:
            ck.fail(name, w, 'nothing is written for this variant')
            continue
        ids = set()
        for x in ws:
            if x.kind in ('variant', 'tagged'):
                ids.add((x.kind, x.key))
            elif x.kind == 'atom':
                for l in leaves(lift_gates(TM.care(nod(x.val), conj(x.cond, isv)))):
                    ids.add(('atom', repr(l)) if not has_unk(leaf(l)) else None)
        if not ids:
            if len(t['variants']) > 1:
                ck.fail(name, w, 'the variant is not written, only its content')
                continue
        if None in ids:
            ck.und(name, w, 'the variant tag is not determined')
            continue
        dup = [names[i] for i in ids if i in names]
        for i in ids:
            names[i] = vn
        if dup:
            ck.fail(name, w, 'it is written like %s' % dup[0])
            continue
        bad = None
        for k, ft in [(x[0], x[1]) for x in var['fields']]:
            if trivial(P.lib, P.lib.T[ft]):
                continue
            fv = self_.f(k, vn)
            ex = [x for x in ws if x.val is not None and (same(TM.care(nod(x.val), isv), fv.n) or same(x.val, fv.n))]
            if not ex:
                bad = 'field %s of the variant is not written' % k
        if bad:
            ck.fail(name, w, bad)
        else:
            ck.ok(name, w)
