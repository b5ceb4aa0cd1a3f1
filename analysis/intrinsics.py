"""Value-level models of library operations used by the analysed code (collections, integers, iterators, ...)."""
import re
from terms import *
import terms as TM
from interp import *
from interp import _intish

TABLE = {}
TRAITS = {}


def p(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def tr(trait, *items):
    def d(f):
        for n in items:
            TRAITS[(trait, n)] = f
        return f
    return d


_gen = re.compile(r'::<[^<>]*(?:<[^<>]*>[^<>]*)*>')


def norm(path):
    """std::vec::Vec::<T, A>::len -> Vec::len, core::slice::<impl [T]>::len -> slice::len"""
    s = path
    s = s.replace('core::slice::<impl [T]>', 'slice').replace('std::slice::<impl [T]>', 'slice').replace('alloc::slice::<impl [T]>', 'slice')
    s = s.replace('core::str::<impl str>', 'str').replace('std::str::<impl str>', 'str').replace('alloc::str::<impl str>', 'str')
    s = s.replace('core::array::<impl [T; N]>', 'array')
    m = re.match(r'core::num::<impl (\w+)>::(\w+)$', s)
    if m:
        return 'int::' + m.group(2)
    s = _gen.sub('', s)
    q = s.split('::')
    return '::'.join(q[-2:]) if len(q) >= 2 else s


def callee_name(I, fr, path, targs, item, trait, f):
    if trait and targs:
        return '%s<%s>' % (path, ', '.join(_sty(fr.T[t]) if isinstance(t, int) else str(t) for t in targs))
    return path


def _sty(t):
    return re.sub(r"'[a-z_]+ ?", '', t['s'].replace('&mut ', '').replace('&', ''))


def ctor(I, fr, path, vals):
    n = path.split('::')[-1]
    if n == 'Some':
        return I.mkagg('Option', 'Some', ('0',), vals)
    if n in ('Ok', 'Err'):
        return I.mkagg('Result', n, ('0',), vals)
    for C in I.crates:
        for t in C.T:
            if t['k'] in ('struct', 'enum') and t.get('variants'):
                for v in t['variants']:
                    if t['path'] + ('::' + v['name'] if t['k'] == 'enum' else '') == path:
                        if transparent(t):
                            return vals[0]
                        return I.mkagg(I.apath(t), v['name'] if t['k'] == 'enum' else '', tuple(x[0] for x in v['fields']), vals)
    return None


def const_sym(I, name):
    return None


def lookup(I, fr, path, targs, item, trait, f):
    if f is not None and f.get('local') and f.get('blocks'):
        if trait == 'std::ops::Deref' and item == 'deref' and _is_lazy(f):
            return lazy_static_deref
        if not f.get('derived'):
            return None
        if (trait, item) in (('std::cmp::PartialEq', 'eq'), ('std::cmp::PartialEq', 'ne'), ('std::clone::Clone', 'clone')):
            return TRAITS[(trait, item)]
        if trait in ('std::cmp::PartialOrd', 'std::cmp::Ord'):
            return TRAITS.get((trait, item))
        return None
    if trait:
        h = TRAITS.get((trait, item))
        if h is not None:
            return h
    # trait methods reached through an impl path
    m = re.match(r'^<(.*) as ([\w:]+)(<.*>)?>::(\w+)$', path)
    if m:
        h = TRAITS.get((m.group(2), m.group(4)))
        if h is not None and not (f is not None and f.get('blocks') and m.group(2) in ('std::ops::Try',)):
            return h
    m = re.match(r'^.*<impl ([\w:]+)(<.*>)? for .*>::(\w+)$', path)
    if m:
        h = TRAITS.get((m.group(1), m.group(3)))
        if h is not None:
            return h
    h = TABLE.get(path)
    if h is not None:
        return h
    return TABLE.get(norm(path))


def _is_lazy(f):
    return any(b['t'][0] == 'call' and b['t'][1][0] == 'fn' and ('lazy_static' in b['t'][1][1] or '__stability' in b['t'][1][1]) for b in f['blocks'])


def lazy_static_deref(c, v):
    t = c.tys[0] if c.tys else None
    while t is not None and t['k'] == 'ref':
        t = c.fr.T[t['of']]
    return leaf(mk('sym', 'static:' + (t['s'] if t else c.path)))


# ---------------------------------------------------------------- helpers
def val(c, n):
    """Value behind a reference argument."""
    return ungate(mapleaves(n, lambda x: care(c.I.load(c.st, x), c.cond) if x.op == 'ptr' else leaf(x)))


def vals(c, *ns):
    return [val(c, n) for n in ns]


def lf(c, f, *ns):
    """Lifts a term function over value arguments."""
    return c.I.lift(lambda *xs: leaf(f(*xs)), *[val(c, n) for n in ns])


def lfn(c, f, *ns):
    return ungate(c.I.lift(f, *[val(c, n) for n in ns]))


def ident(c, v, *a):
    if c.dty is not None and c.dty['k'] == 'ref' and c.dty.get('mut'):
        return v
    return val(c, v)


def wr(c, ptr, v):
    c.st = dict(c.st)
    if not all(x.op == 'ptr' for x in leaves(ptr)):
        raise Unsupported('mutation through a non-pointer in ' + c.path)
    c.I.writeptr(c.st, care(ptr, c.cond), v)


@p('LocalKey::with')
def localkey_with(c, key, fv):
    # what an earlier call left in the thread-local is arbitrary
    if not is_leaf(fv) or not is_leaf(val(c, key)):
        return NotImplemented
    c.I.nextf += 1
    k = (-2 - c.I.nextf, 'tls')
    c.st = dict(c.st)
    c.st[k] = leaf(mk('sym', 'tls:%r' % (leafval(val(c, key)).args,)))
    v, st, cond = c.I.call_closure1(c.fr, leafval(fv), [leaf(mk('ptr', k[0], k[1], ()))], c.cond, c.st)
    return [(cond, v, {a: b for a, b in st.items() if a != k})]


# ---------------------------------------------------------------- readers and writers over memory
@p('slice::from_mut')
def slice_from_mut(c, v):
    return ptrto(v, ('w',))


@p('slice::from_ref', 'array::from_ref')
def slice_from_ref(c, v):
    return lf(c, lambda x: mk('arr', (x,)), v)


def cursor(buf, pos):
    return adt('Cursor', '', ('buf', 'pos'), (buf, pos))


@p('Cursor::new')
def cursor_new(c, b):
    return lf(c, lambda x: cursor(x, num(0)), b)


@p('Cursor::position')
def cursor_pos(c, v):
    return lf(c, lambda x: rngtyped(fld(x, 'pos', 'Cursor', 2)), v)


@p('Cursor::into_inner', 'Cursor::get_ref')
def cursor_buf(c, v):
    return lf(c, lambda x: fld(x, 'buf', 'Cursor', 2), v)


@p('Cursor::set_position')
def cursor_setpos(c, v, n):
    wr(c, v, c.I.lift(lambda x, k: leaf(cursor(fld(x, 'buf', 'Cursor', 2), k)), val(c, v), val(c, n)))
    return leaf(UNIT)


def rngtyped(x):
    RNG.setdefault(x, (0, 2**64 - 1))
    return x


def reader(c, v):
    """The unread bytes behind a reader, and how to move on by n: a cursor over bytes or a byte slice."""
    t = peel(c, c.tys[0]) if c.tys and c.tys[0] else None
    q = (t.get('path') or '').split('::')[-1] if t else ''
    if q == 'Cursor':
        cur = val(c, v)

        def one(x):
            b, p_ = fld(x, 'buf', 'Cursor', 2), rngtyped(fld(x, 'pos', 'Cursor', 2))
            return b, p_
        return cur, (lambda x: slice_(one(x)[0], one(x)[1], length(one(x)[0]))), (lambda x, n: cursor(one(x)[0], add(one(x)[1], n)))
    if t is not None and t['k'] == 'slice':
        return val(c, v), (lambda x: x), (lambda x, n: slice_(x, n, length(x)))
    return None


@tr('std::io::Read', 'read_exact')
def read_exact(c, v, buf):
    r = reader(c, v)
    if r is None:
        return NotImplemented
    cur, rest, move = r
    dst = val(c, buf)
    enough = c.I.lift(lambda x, b: b2v(le(length(b), length(rest(x)))), cur, dst)
    good = c.I.lift(lambda x, b: leaf(slice_(rest(x), num(0), length(b))), cur, dst)
    after = c.I.lift(lambda x, b: leaf(move(x, length(b))), cur, dst)
    okc = v2b(enough)
    # on a short read, the content of the buffer and the position are unspecified
    wr(c, buf, ite(okc, good, c.I.lift(lambda x, b: leaf(app('partly read', rest(x), b)), cur, dst)))
    wr(c, v, ite(okc, after, c.I.lift(lambda x, b: leaf(move(x, app('partly read', rest(x), b))), cur, dst)))
    return ite(okc, leaf(ok(UNIT)), leaf(mk('adt', 'Result', 'Err', ('0',), (app('short read'),))))


@tr('integer_encoding::VarIntWriter', 'write_varint')
def write_varint(c, v, x):
    t = peel(c, c.tys[0]) if c.tys and c.tys[0] else None
    it = peel(c, c.tys[1]) if c.tys and len(c.tys) > 1 and c.tys[1] else None
    if t is None or (t.get('path') or '').split('::')[-1] != 'Vec' or it is None or it['k'] != 'int':
        return NotImplemented
    sg = 'zigzag ' if it['s'].startswith('i') else ''

    def enc(y):
        e = app(sg + 'varint', y)
        RNG.setdefault(length(e), (1, 10))
        return e
    wr(c, v, c.I.lift(lambda a, y: leaf(concat([a, enc(y)])), val(c, v), val(c, x)))
    return c.I.lift(lambda a, y: leaf(ok(length(enc(y)))), val(c, v), val(c, x))


def _varint_head(b, ty=None):
    """The encoding which a byte sequence starts with."""
    h = b.args[0][0] if b.op == 'concat' else b
    if h.op == 'app' and h.args[0] in ('varint', 'zigzag varint'):
        if ty is None or ty in (('u64', 'usize', 'u128') if h.args[0] == 'varint' else ('i64', 'isize', 'i128')):
            return h
    return None


def varint_part(name, b):
    ty = name.split()[-1]
    h = _varint_head(b, None if name == 'varint length' else ty)
    if h is not None:
        return TRUE if 'complete' in name else length(h) if name == 'varint length' else h.args[1][0]
    v = mk('app', name, (b,))
    if name == 'varint length':
        RNG.setdefault(v, (1, 10))
    elif 'complete' not in name:
        RNG.setdefault(v, INTR[ty])
    return v


for _t in INTR:
    TM.APPS['varint value ' + _t] = TM.APPS['varint complete ' + _t] = varint_part
TM.APPS['varint length'] = varint_part


def varint_at(b, ty):
    """(decodes, value, bytes used) of the variable-length integer at the start of b."""
    v, n, k = varint_part('varint value ' + ty, b), varint_part('varint length', b), varint_part('varint complete ' + ty, b)
    return conj(v2b(leaf(k)), le(n, length(b))), v, n


@tr('integer_encoding::VarInt', 'decode_var')
def decode_var(c, b):
    ts = [c.fr.T[t] for t in c.targs if isinstance(t, int)]
    if not ts or ts[0]['k'] != 'int' or ts[0]['s'] not in INTR:
        return NotImplemented
    ty = ts[0]['s']
    return ungate(mapleaves(val(c, b), lambda x: ite(varint_at(x, ty)[0], leaf(some(tup(varint_at(x, ty)[1], varint_at(x, ty)[2]))), leaf(NONE))))


@tr('integer_encoding::VarInt', 'encode_var_vec')
def encode_var_vec(c, x):
    t = peel(c, c.tys[0]) if c.tys and c.tys[0] else None
    if t is None or t['k'] != 'int':
        return NotImplemented

    def enc(y):
        e = app(('zigzag ' if t['s'].startswith('i') else '') + 'varint', y)
        RNG.setdefault(length(e), (1, 10))
        return leaf(e)
    return mapleaves(val(c, x), enc)


@tr('integer_encoding::VarIntReader', 'read_varint')
def read_varint(c, v):
    r = reader(c, v)
    ts = [c.fr.T[t] for t in c.targs if isinstance(t, int)]
    if r is None or not ts or ts[-1]['k'] != 'int' or ts[-1]['s'] not in INTR:
        return NotImplemented
    ty = ts[-1]['s']
    cur, rest, move = r
    okc = v2b(mapleaves(cur, lambda x: b2v(varint_at(rest(x), ty)[0])))
    good = mapleaves(cur, lambda x: leaf(ok(varint_at(rest(x), ty)[1])))
    wr(c, v, ungate(mapleaves(cur, lambda x: ite(varint_at(rest(x), ty)[0], leaf(move(x, varint_at(rest(x), ty)[2])),
                                                leaf(move(x, app('partly read', rest(x))))))))
    return ite(okc, good, leaf(mk('adt', 'Result', 'Err', ('0',), (app('bad varint'),))))


@p('RefCell::borrow_mut', 'RefCell::borrow', 'RefCell::get_mut')
def refcell_borrow(c, v):
    return v


def is_u8ish(t):
    return t is not None


def ptrto(ptr, el):
    return mapleaves(ptr, lambda x: leaf(mk('ptr', x.args[0], x.args[1], x.args[2] + (el,))))


def hasptr(n):
    return any(x.op == 'ptr' for x in leaves(n))


# ---------------------------------------------------------------- identity-like operations
for t_, i_ in (('std::clone::Clone', 'clone'), ('std::ops::Deref', 'deref'), ('std::convert::AsRef', 'as_ref'),
               ('std::borrow::Borrow', 'borrow'), ('std::borrow::ToOwned', 'to_owned'), ('std::ops::DerefMut', 'deref_mut'),
               ('std::convert::AsMut', 'as_mut'), ('std::borrow::BorrowMut', 'borrow_mut')):
    TRAITS[(t_, i_)] = ident
p('slice::to_vec', 'Vec::as_slice', 'String::as_str', 'String::as_bytes', 'str::as_bytes', 'slice::into_vec', 'Vec::into_boxed_slice',
  'Box::new', 'Arc::new', 'Rc::new', 'hint::must_use', 'hint::black_box', 'String::into_bytes', 'String::into_boxed_str', 'str::to_owned',
  'Option::as_deref', 'Option::cloned', 'Option::copied', 'Option::as_ref', 'Result::as_ref', 'Iterator::cloned', 'Iterator::copied', 'Iterator::by_ref',
  'GenericArray::as_slice', 'Vec::as_mut_slice', 'slice::as_ref', 'array::as_slice', 'Cow::into_owned', 'str::to_string', 'Vec::into_iter', 'Vec::shrink_to_fit',
  'Option::as_deref_mut', 'boxed::box_assume_init_into_vec_unsafe', 'Path::new', 'Path::to_path_buf', 'OsString::as_os_str', 'PathBuf::as_path', 'PublicKey::to_bytes_ref', 'Iterator::fuse', 'Iterator::peekable', 'array::iter_ref', 'slice::as_slice', 'mem::take_ref')(ident)
tr('std::iter::Iterator', 'cloned', 'copied', 'by_ref', 'fuse')(ident)


@tr('std::convert::From', 'from')
@tr('std::convert::Into', 'into')
def conv(c, v):
    a = [c.fr.T[t] for t in c.targs if isinstance(t, int)] if c.targs else []
    if len(a) >= 2:
        s, d = (a[1], a[0]) if c.item == 'from' else (a[0], a[1])
    else:
        s, d = (c.tys[0] if c.tys else None), c.dty
    if s is None or d is None:
        return NotImplemented
    ss, ds = _sty(s), _sty(d)
    if ss == ds or (s['k'] in ('int', 'char') and d['k'] == 'int'):
        return val(c, v)
    if s['k'] == 'bool' and d['k'] == 'int':
        return mapleaves(v2b(val(c, v)), lambda x: leaf(num(1 if x else 0)))
    if ss in ('str', 'std::string::String') and ds in ('std::string::String', 'std::vec::Vec<u8>', 'std::boxed::Box<str>', 'std::path::PathBuf', 'std::ffi::OsString', 'str'):
        return val(c, v)
    if s['k'] in ('array', 'slice') and ds.startswith('std::vec::Vec<'):
        return val(c, v)
    if ss.startswith('[') and ds.startswith('std::vec::Vec<'):
        return val(c, v)
    if ss.startswith('std::') and ds.startswith('std::') and {ss.split('<')[0].split('::')[-1], ds.split('<')[0].split('::')[-1]} <= {'Vec', 'VecDeque'}:
        return val(c, v)
    if ds.startswith('std::option::Option<') and ds[len('std::option::Option<'):-1] == ss:
        return I_some(c, val(c, v))
    if ds.startswith('std::boxed::Box<') and ds[len('std::boxed::Box<'):-1] == ss:
        return val(c, v)
    return NotImplemented


def I_some(c, v):
    return c.I.mkagg('Option', 'Some', ('0',), [v])


@tr('std::string::ToString', 'to_string')
def to_string(c, v):
    s = _sty(c.tys[0]) if c.tys and c.tys[0] else ''
    if s in ('str', 'std::string::String'):
        return val(c, v)
    t = peel(c, c.tys[0]) if c.tys and c.tys[0] else None
    if t and t['k'] in ('struct', 'enum'):
        # formatting through Display is a function of the value
        return lf(c, lambda x: app('display:' + t['path'], x), v)
    return NotImplemented


# ---------------------------------------------------------------- equality and order
@tr('std::cmp::PartialEq', 'eq')
def pe_eq(c, a, b):
    return mapleaves(lfn(c, eq, a, b), lambda x: leaf(TRUE if x is True else FALSE if x is False else x))


@tr('std::cmp::PartialEq', 'ne')
def pe_ne(c, a, b):
    return mapleaves(lfn(c, lambda x, y: neg(eq(x, y)), a, b), lambda x: leaf(TRUE if x is True else FALSE if x is False else x))


def _cmpf(f, sw=False):
    def g(c, a, b):
        s = (c.tys[0]['s'] if c.tys and c.tys[0] else '') + (c.tys[1]['s'] if c.tys and len(c.tys) > 1 and c.tys[1] else '')
        if 'tracing' in s or 'LevelFilter' in s:
            return leaf(FALSE)
        t = peel(c, c.tys[0]) if c.tys and c.tys[0] else None
        if t is not None and (t.get('path') or '').split('::')[-1] == 'Option' and len(t.get('args') or ()) == 1 and c.fr.T[t['args'][0]]['k'] == 'int':
            # None is less than Some, two Some compare by content
            def opt(x, y):
                sx, sy = is_variant(x, 'Some'), is_variant(y, 'Some')
                both = conj(sx, sy)
                r = conj(both, c.I.cmp(vfld(x, 'Some', '0'), vfld(y, 'Some', '0'), f)) if both is not F else F
                return b2v(disj(r, conj(neg(sx), sy) if f is lt else neg(disj(sx, F))))
            return c.I.lift(lambda x, y: opt(y, x) if sw else opt(x, y), *vals(c, a, b))
        r = c.I.lift(lambda x, y: b2v(c.I.cmp(y, x, f) if sw else c.I.cmp(x, y, f)), *vals(c, a, b))
        return r
    return g


for tn in ('std::cmp::PartialOrd',):
    TRAITS[(tn, 'lt')] = _cmpf(lt)
    TRAITS[(tn, 'le')] = _cmpf(le)
    TRAITS[(tn, 'gt')] = _cmpf(lt, True)
    TRAITS[(tn, 'ge')] = _cmpf(le, True)


@tr('std::cmp::Ord', 'cmp')
def ord_cmp(c, a, b):
    return lf(c, lambda x, y: app('ordcmp', x, y), a, b)


@tr('std::cmp::PartialOrd', 'partial_cmp')
def partial_cmp(c, a, b):
    return lf(c, lambda x, y: some(app('ordcmp', x, y)), a, b)


@tr('std::cmp::Ord', 'min')
@p('cmp::min', 'int::min')
def omin(c, a, b):
    return c.I.lift(lambda x, y: ite(c.I.cmp(x, y, le), leaf(x), leaf(y)), *vals(c, a, b))


@tr('std::cmp::Ord', 'max')
@p('cmp::max', 'int::max')
def omax(c, a, b):
    return c.I.lift(lambda x, y: ite(c.I.cmp(x, y, le), leaf(y), leaf(x)), *vals(c, a, b))


@tr('std::cmp::Ord', 'clamp')
@p('int::clamp')
def oclamp(c, a, lo, hi):
    return c.I.lift(lambda x, y, z: ite(c.I.cmp(x, y, lt), leaf(y), ite(c.I.cmp(z, x, lt), leaf(z), leaf(x))), *vals(c, a, lo, hi))


# ---------------------------------------------------------------- integers
def ity(c, i=0):
    t = c.tys[i]
    m = re.match(r'core::num::<impl (\w+)>', c.path)
    if m:
        return INTR.get(m.group(1))
    if t is not None and t['k'] == 'ref':
        t = c.fr.T[t['of']]
    return INTR.get(t['s']) if t else None


def chk(c, r):
    lo, hi = ity(c)

    def f(x):
        conds = []
        if lo < 0:      # sums and products of unsigned values are never negative
            conds.append(le(num(lo), x))
        conds.append(le(x, num(hi)))
        return ite(conj(*conds), leaf(some(x)), leaf(NONE))
    return mapleaves(r, f)


@p('int::checked_add')
def checked_add(c, a, b):
    return chk(c, lf(c, add, a, b))


@p('int::checked_sub')
def checked_sub(c, a, b):
    lo, hi = ity(c)
    if lo == 0:
        return lfn(c, lambda x, y: ite(le(y, x), leaf(some(sub(x, y))), leaf(NONE)), a, b)
    return chk(c, lf(c, sub, a, b))


@p('int::checked_mul')
def checked_mul(c, a, b):
    return chk(c, lf(c, mul, a, b))


@p('int::checked_div')
def checked_div(c, a, b):
    return lfn(c, lambda x, y: ite(eq_int(y, num(0)), leaf(NONE), leaf(some(idiv(x, y)))), a, b)


@p('int::checked_rem')
def checked_rem(c, a, b):
    return lfn(c, lambda x, y: ite(eq_int(y, num(0)), leaf(NONE), leaf(some(irem(x, y)))), a, b)


@p('int::saturating_add')
def sat_add(c, a, b):
    return lf(c, add, a, b)


@p('int::saturating_mul')
def sat_mul(c, a, b):
    return lf(c, mul, a, b)


@p('int::saturating_sub')
def sat_sub(c, a, b):
    lo, hi = ity(c)
    if lo == 0:
        return lfn(c, lambda x, y: ite(le(y, x), leaf(sub(x, y)), leaf(num(0))), a, b)
    return lf(c, sub, a, b)


@p('int::abs_diff')
def abs_diff(c, a, b):
    return lfn(c, lambda x, y: ite(le(y, x), leaf(sub(x, y)), leaf(sub(y, x))), a, b)


def wrap_obl(c, op, a, b):
    if c.I.obl is not None:
        hi = ity(c)
        ty = next((k for k, v in INTR.items() if v == hi), None)
        if ty is not None:
            c.I.arith_obl(op, val(c, a), val(c, b), ty, c.cond, how='wrapping')


def wrapt(c, x, r):
    lo, hi = ity(c)
    a, b = rng(x)
    if a is not None and b is not None and a >= lo and b <= hi:
        return x
    y = app('wrap', x, num(hi + 1))
    RNG.setdefault(y, (lo, hi))
    return y


@p('int::wrapping_add')
def wr_add(c, a, b):
    wrap_obl(c, 'Add', a, b)
    return lf(c, lambda x, y: wrapt(c, add(x, y), None), a, b)


@p('int::wrapping_sub')
def wr_sub(c, a, b):
    wrap_obl(c, 'Sub', a, b)
    return lf(c, lambda x, y: wrapt(c, sub(x, y), None), a, b)


@p('int::wrapping_mul')
def wr_mul(c, a, b):
    wrap_obl(c, 'Mul', a, b)
    return lf(c, lambda x, y: wrapt(c, mul(x, y), None), a, b)


def _ovf(op):
    def g(c, a, b):
        lo, hi = ity(c)

        def f(x, y):
            r = op(x, y)
            return leaf(tup(wrapt(c, r, None), from_bdd(disj(neg(le(r, num(hi))), lt(r, num(lo))))))
        return lfn(c, f, a, b)
    return g


p('int::overflowing_add')(_ovf(add))
p('int::overflowing_sub')(_ovf(sub))
p('int::overflowing_mul')(_ovf(mul))


@p('int::pow')
def ipow(c, a, b):
    if c.I.obl is not None:
        lo, hi = ity(c)
        c.I.oblig('overflow', c.cond, c.I.lift(lambda x, y: neg(le(num(numval(x) ** numval(y)), num(hi))) if is_num(x) and is_num(y) else as_bdd(mk('unk', 'pow', (x, y))), val(c, a), val(c, b)),
                  ops=(val(c, a), val(c, b)), ty=next((k for k, v in INTR.items() if v == (lo, hi)), None), what='unchecked Pow')
    def f(x, y):
        if is_num(x) and is_num(y):
            return num(numval(x) ** numval(y))
        r = app('pow', x, y)
        RNG.setdefault(r, (0, None))
        return r
    return lf(c, f, a, b)


def _bytes(order):
    def g(c, a):
        lo, hi = ity(c)
        n = (hi.bit_length() + (1 if lo < 0 else 0)) // 8

        def f(x):
            if is_num(x) and lo == 0:
                return K('bytes', tuple(numval(x).to_bytes(n, 'big' if order == 'be' else 'little')))
            if x.op == 'app' and x.args[0] == order + '-int' and length(x.args[1][0]) is num(n):
                return x.args[1][0]
            r = app('%s%d' % (order, n), x)
            LEN[r] = num(n)
            return r
        return lf(c, f, a)
    return g


LEN = TM.LEN
p('int::to_be_bytes')(_bytes('be'))
p('int::to_le_bytes')(_bytes('le'))
p('int::to_ne_bytes')(_bytes('le'))


def _frombytes(order):
    def g(c, a):
        hi = INTR[re.match(r'core::num::<impl (\w+)>', c.path).group(1)]

        def f(x):
            x = norm_const(x)
            if x.op == 'k' and x.args[0] == 'bytes':
                return num(int.from_bytes(bytes(x.args[1]), 'big' if order == 'be' else 'little'))
            if x.op == 'app' and x.args[0].startswith(order) and x.args[0][2:].isdigit():
                return x.args[1][0]
            r = app(order + '-int', x)
            RNG.setdefault(r, hi)
            return r
        return lf(c, f, a)
    return g


p('int::from_be_bytes')(_frombytes('be'))
p('int::from_le_bytes')(_frombytes('le'))


def dynamic(n):
    for x in leaves(n):
        if x not in LEN:
            DYN.add(x)


@tr('std::convert::TryFrom', 'try_from')
@tr('std::convert::TryInto', 'try_into')
def try_conv(c, v):
    d = c.dty
    if d is None or not d['s'].startswith('std::result::Result<'):
        return NotImplemented
    okt = c.fr.T[d['args'][0]] if d.get('args') else None
    st_ = c.tys[0]
    if okt is None or st_ is None:
        return NotImplemented
    if okt['k'] == 'int' and st_['k'] in ('int', 'char'):
        lo, hi = INTR[okt['s']]
        if st_['k'] == 'int':
            for x in leaves(val(c, v)):
                if x.op not in ('lin', 'gate', 'ptr', 'uninit', 'panic', 'k'):
                    RNG.setdefault(x, INTR[st_['s']])
        return lfn(c, lambda x: ite(conj(le(num(lo), x), le(x, num(hi))), leaf(ok(x)), leaf(err(UNIT))), v)
    o2 = okt
    if o2['k'] == 'ref':
        o2 = c.fr.T[o2['of']]
    if o2['k'] == 'array' and isinstance(o2.get('len'), int):
        n = o2['len']
        dynamic(val(c, v))
        return lfn(c, lambda x: ite(eq_int(length(x), num(n)), leaf(ok(x)), leaf(err(UNIT))), v)
    if _sty(okt) == _sty(st_):
        return lf(c, lambda x: ok(x), v)
    return NotImplemented


# ---------------------------------------------------------------- defaults
def default_of(c, t, T):
    k = t['k']
    if k == 'int' or k == 'char':
        return num(0)
    if k == 'bool':
        return FALSE
    if k == 'array':
        x = default_of(c, T[t['of']], T)
        return norm_const(mk('rep', x, num(t['len']))) if x is not None and isinstance(t['len'], int) else None
    if k == 'str' or k == 'slice':
        return EMPTY
    if k == 'ref':
        return default_of(c, T[t['of']], T)
    if k == 'tuple':
        xs = [default_of(c, T[a], T) for a in t['args']]
        return None if any(x is None for x in xs) else (tup(*xs) if xs else UNIT)
    q = t.get('path') or ''
    if q == 'std::option::Option':
        return NONE
    if q.split('::')[-1] in ('String', 'Vec', 'VecDeque', 'HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        return EMPTY
    return None


@tr('std::default::Default', 'default')
def default(c):
    t = c.dty
    if t is None:
        return NotImplemented
    x = default_of(c, t, c.fr.T)
    return NotImplemented if x is None else leaf(x)


# ---------------------------------------------------------------- lengths and indexing
@p('Vec::len', 'slice::len', 'str::len', 'String::len', 'VecDeque::len', 'HashMap::len', 'BTreeMap::len', 'HashSet::len', 'BTreeSet::len')
@tr('std::iter::ExactSizeIterator', 'len')
def vlen(c, v):
    return lfn(c, lambda x: iter_len(x) if x.op == 'iter' else lenn(x), v)


def lenn(x):
    if x.op == 'gate':
        return ungate(mapleaves(x.args[0], lambda y: leaf(length(y))))
    return leaf(length(x))


@p('Vec::is_empty', 'slice::is_empty', 'str::is_empty', 'String::is_empty', 'VecDeque::is_empty', 'HashMap::is_empty', 'BTreeMap::is_empty', 'HashSet::is_empty')
def is_empty(c, v):
    return mapleaves(vlen(c, v), lambda x: b2v(le(x, num(0))))


def rng_bounds(x, n):
    """(lo, hi) of a range aggregate used as an index."""
    if x.op != 'adt':
        return None
    q = x.args[0].split('::')[-1]
    d = dict(zip(x.args[2], x.args[3]))
    if q == 'Range':
        return d['start'], d['end']
    if q == 'RangeFrom':
        return d['start'], n
    if q == 'RangeTo':
        return num(0), d['end']
    if q == 'RangeFull':
        return num(0), n
    if q == 'RangeInclusive':
        return d['start'], add(d['end'], num(1))
    if q == 'RangeToInclusive':
        return num(0), add(d['end'], num(1))
    return None


def is_map(t):
    while t is not None and t['k'] == 'ref':
        return None
    return t is not None and (t.get('path') or '').split('::')[-1] in ('HashMap', 'BTreeMap')


def peel(c, t):
    while t is not None and t['k'] == 'ref':
        t = c.fr.T[t['of']]
    return t


def range_obl(c, v, i, what='slice range'):
    """Obligation that an index or range lies within a sequence."""
    if c.I.obl is None:
        return

    def f(x, j):
        n = length(x)
        b = rng_bounds(j, n)
        if b is not None:
            return disj(lt(b[1], b[0]), lt(n, b[1]))
        if j.op == 'adt':
            return as_bdd(mk('unk', 'range', (x, j)))
        return le(n, j)
    c.I.oblig('bounds', c.cond, c.I.lift(f, val(c, v), val(c, i)), what=what)


def map_obl(c, v, k):
    if c.I.obl is not None:
        c.I.oblig('key', c.cond, c.I.lift(lambda m, j: neg(as_bdd(leafval_bool(mapgetopt(m, j)))), val(c, v), val(c, k)), what='map index')


def leafval_bool(n):
    return TM.from_bdd(mapleaves(n, lambda o: is_variant(o, 'Some')))


def _beyond(what, strict):
    def f(c, v, i, *a):
        c.I.oblig('bounds', c.cond, c.I.lift(lambda x, j: (le if strict else lt)(length(x), j) if _intish(j) else T, val(c, v), val(c, i)), what=what)
    return f


def _zero(what):
    def f(c, v, i, *a):
        c.I.oblig('bounds', c.cond, c.I.lift(lambda j: le(j, num(0)), val(c, i)), what=what)
    return f


def _exact(n, what):
    def f(c, v, *a):
        c.I.oblig('bounds', c.cond, c.I.lift(lambda x: neg(eq_int(length(x), num(n))), val(c, v)), what=what)
    return f


def _swap(c, v, i, j):
    for k in (i, j):
        _beyond('swap', True)(c, v, k)


def _garr(c, v, *a):
    t = c.dty
    n = None
    for g in c.targs or []:
        s = c.fr.T[g]['s'] if isinstance(g, int) else str(g)
        m = re.match(r'^.*typenum.*U(\d+)$', s)
        if m:
            n = int(m.group(1))
    if n is not None:
        _exact(n, 'from_slice')(c, v)
    else:
        c.I.oblig('bounds', c.cond, as_bdd(mk('unk', 'from_slice', (leafval(val(c, v)) if is_leaf(val(c, v)) else TRUE,))), what='from_slice')


# operations which abort on some arguments: obligations raised before the call is modelled
ABORTING = {
    'Vec::remove': _beyond('remove', True), 'Vec::swap_remove': _beyond('swap_remove', True), 'Vec::insert': _beyond('insert', False),
    'slice::swap': _swap, 'slice::split_at_mut': _beyond('split_at_mut', False), 'slice::rotate_left': _beyond('rotate_left', False),
    'slice::rotate_right': _beyond('rotate_right', False), 'slice::chunks': _zero('chunks'), 'slice::chunks_mut': _zero('chunks'),
    'slice::chunks_exact': _zero('chunks_exact'), 'slice::windows': _zero('windows'), 'slice::rchunks': _zero('rchunks'),
    'VecDeque::swap': _swap, 'VecDeque::insert': _beyond('insert', False), 'slice::select_nth_unstable': _beyond('select_nth', True),
    'curve25519_dalek::edwards::CompressedEdwardsY::from_slice': _exact(32, 'from_slice'),
    'GenericArray::from_slice': _garr, 'GenericArray::clone_from_slice': _garr,
}


def pre(c, vs):
    h = ABORTING.get(c.path) or ABORTING.get(norm(c.path))
    if h is not None:
        try:
            h(c, *vs)
        except (TypeError, Unsupported):
            c.I.oblig('bounds', c.cond, as_bdd(mk('unk', 'aborting', ())), what=c.path)


def str_obl(c, v, i):
    """Slicing a string inside a character aborts."""
    def f(x, j):
        b = rng_bounds(j, length(x))
        if b is None or x.op == 'k':
            return F
        r = F
        for p in b:
            if p is not num(0) and p is not length(x):
                r = disj(r, lit(mk('b', app('midchar', x, p))))
        return r
    c.I.oblig('bounds', c.cond, c.I.lift(f, val(c, v), val(c, i)), what='string slice inside a character')


@tr('std::ops::Index', 'index')
def idx_index(c, v, i):
    t = peel(c, c.tys[0])
    if c.I.obl is not None and t and t['s'] in ('str', 'std::string::String'):
        str_obl(c, v, i)
    if is_map(t):
        map_obl(c, v, i)
    else:
        range_obl(c, v, i)
    if is_map(t):
        return lfn(c, lambda m, k: leaf(mapget(m, k)) if m.op != 'mapins' else mapleaves(mapgetopt(m, k), lambda o: leaf(vfld(o, 'Some', '0'))), v, i)

    def f(x, j):
        b = rng_bounds(j, length(x))
        if b is not None:
            return leaf(slice_(x, b[0], b[1]))
        if j.op == 'adt':
            return leaf(app('index', x, j))
        return leaf(index(x, j))
    r = lfn(c, f, v, i)
    if c.dty is not None and c.dty['k'] == 'ref':
        c.I.rangedn(r, c.fr.T[c.dty['of']])
    return r


@tr('std::ops::IndexMut', 'index_mut')
def idx_index_mut(c, v, i):
    t = peel(c, c.tys[0])
    i = val(c, i)
    if is_map(t):
        map_obl(c, v, i)
    else:
        range_obl(c, v, i)

    def f(q, j):
        if q.op != 'ptr':
            raise Unsupported('index_mut of a value')
        if is_map(t):
            return leaf(mk('ptr', q.args[0], q.args[1], q.args[2] + (('mv', j),)))
        x = gate(c.I.load(c.st, q))
        b = rng_bounds(j, length(x))
        if b is not None:
            if b[0] is num(0) and b[1] is length(x):
                return leaf(q)
            return leaf(mk('ptr', q.args[0], q.args[1], q.args[2] + (('s', b[0], b[1]),)))
        el = c.fr.T[c.dty['of']] if c.dty is not None and c.dty['k'] == 'ref' else None
        return leaf(mk('ptr', q.args[0], q.args[1], q.args[2] + (('i', j, None),)))
    return c.I.lift(f, v, i)


def getopt(x, j):
    b = rng_bounds(j, length(x))
    if b is not None:
        return ite(conj(le(b[0], b[1]), le(b[1], length(x))), leaf(some(slice_(x, b[0], b[1]))), leaf(NONE))
    return ite(lt(j, length(x)), leaf(some(index(x, j))), leaf(NONE))


@p('slice::get', 'VecDeque::get')
def sl_get(c, v, i):
    return lfn(c, getopt, v, i)


@p('slice::get_mut', 'VecDeque::get_mut')
def sl_get_mut(c, v, i):
    def f(q, j):
        x = gate(c.I.load(c.st, q))
        return ite(lt(j, length(x)), leaf(some(mk('ptr', q.args[0], q.args[1], q.args[2] + (('i', j, None),)))), leaf(NONE))
    return c.I.lift(f, v, val(c, i))


@p('slice::first', 'VecDeque::front')
def sl_first(c, v):
    return lfn(c, lambda x: ite(le(length(x), num(0)), leaf(NONE), leaf(some(index(x, num(0))))), v)


@p('slice::last', 'VecDeque::back')
def sl_last(c, v):
    return lfn(c, lambda x: ite(le(length(x), num(0)), leaf(NONE), leaf(some(index(x, sub(length(x), num(1)))))), v)


@p('slice::split_at')
def split_at(c, v, i):
    if c.I.obl is not None:
        c.I.oblig('bounds', c.cond, c.I.lift(lambda x, j: lt(length(x), j), val(c, v), val(c, i)), what='split_at')
    return lfn(c, lambda x, j: leaf(tup(slice_(x, num(0), j), slice_(x, j, length(x)))), v, i)


def sort_with(c, v, less):
    d = c.I.loopd + 2
    a, b = mk('lv', d, 'a'), mk('lv', d, 'b')
    x = val(c, v)
    pt = peel(c, c.tys[0]) if c.tys and c.tys[0] is not None else None
    et = c.fr.T[pt['of'] if pt.get('of') is not None else pt['args'][0]] if pt and (pt.get('of') is not None or pt.get('args')) else None
    for y in (a, b):
        if et is not None:
            c.I.ranged(y, et)
        for l in leaves(x):
            e = index(l, mk('idx', d, num(0), length(l)))
            for tab in (RNG, TM.NFIELDS, TM.VARIANTS):
                if e in tab:
                    tab.setdefault(y, tab[e])
            if e.op == 'adt' and not e.args[1] and e.args[2]:
                TM.NFIELDS.setdefault(y, (e.args[0], len(e.args[2])))
                for k, f_ in zip(e.args[2], e.args[3]):
                    if f_ in RNG:
                        RNG.setdefault(fld(y, k, e.args[0], len(e.args[2])), RNG[f_])
            if _intish(e):
                RNG.setdefault(y, rng(e))
    cond = less(a, b)
    if a not in node_bv(cond) and b not in node_bv(cond):
        return NotImplemented
    wr(c, v, mapleaves(x, lambda l: leaf(TM.sorted_(d, num(0), num(0), l, cond)) if length(l) is not num(0) else leaf(l)))
    return leaf(UNIT)


def _less(o):
    if o.op == 'app' and o.args[0] == 'ordcmp':
        x, y = o.args[1]
        if _intish(x) or _intish(y) or x in RNG or y in RNG:
            return lt(x, y)
    return is_variant(o, 'Less')


@p('slice::sort_by', 'slice::sort_unstable_by')
@tr('rayon::slice::ParallelSliceMut', 'par_sort_by')
def sl_sort_by(c, v, f):
    fv = gate(f)
    return sort_with(c, v, lambda a, b: mapleaves(callf(c, fv, [leaf(a), leaf(b)]), _less))


@p('slice::sort_by_key', 'slice::sort_unstable_by_key', 'slice::sort_by_cached_key')
def sl_sort_key(c, v, f):
    fv = gate(f)
    return sort_with(c, v, lambda a, b: c.I.lift(lambda x, y: _less(app('ordcmp', x, y)), callf(c, fv, [leaf(a)]), callf(c, fv, [leaf(b)])))


@p('slice::sort', 'slice::sort_unstable')
def sl_sort(c, v):
    return sort_with(c, v, lambda a, b: _less(app('ordcmp', a, b)))


def int_op(op):
    def g(c, a, b):
        ts = [peel(c, t) for t in (c.tys or [])[:2] if t is not None]
        if len(ts) < 2 or any(t['k'] != 'int' for t in ts):
            return NotImplemented
        x, y = val(c, a), val(c, b)
        if op in ('Div', 'Rem') and any(not is_num(z) or numval(z) == 0 for z in leaves(y)):
            return NotImplemented
        if op in ('Add', 'Sub', 'Mul', 'Shl', 'Shr') and c.I.obl is not None:
            c.I.arith_obl(op, x, y, ts[0]['s'], c.cond)
        return c.I.binop(op, x, y, ts[0])
    return g


for k_ in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr'):
    TRAITS.setdefault(('std::ops::' + k_, k_.lower()), int_op(k_))


@p('slice::chunks')
@tr('rayon::slice::ParallelSlice', 'par_chunks')
@tr('rayon::prelude::ParallelSlice', 'par_chunks')
def sl_chunks(c, v, k):
    def f(x, n):
        if not is_num(n) or numval(n) <= 0:
            raise Unsupported('chunks of variable size')
        d = c.I.loopd + 2
        l = length(x)
        h = idiv(add(l, num(numval(n) - 1)), n)

        i = mk('idx', d, num(0), h)
        lo = scale(i, numval(n))
        hi = add(lo, n)
        e = ite(le(hi, l), leaf((slice_(x, lo, hi),)), leaf((slice_(x, lo, l),)))
        return leaf(seq(coll(d, num(0), h, e)))
    return c.I.lift(f, val(c, v), val(c, k))


@p('slice::contains', 'VecDeque::contains')
def sl_contains(c, v, x):
    def f(s, y):
        d = c.I.loopd + 2
        n = length(s)
        i = mk('idx', d, num(0), n)
        return b2v(neg(forall(d, num(0), n, neg(eq(index(s, i), y)))))
    return lfn(c, f, v, x)


@p('slice::copy_from_slice', 'slice::clone_from_slice')
def copy_from(c, d, s):
    dynamic(val(c, s))
    if c.I.obl is not None:
        c.I.oblig('bounds', c.cond, neg(c.I.lift(lambda x, y: eq_int(length(x), length(y)), val(c, d), val(c, s))), what='copy_from_slice lengths')
    wr(c, d, val(c, s))
    return leaf(UNIT)


@p('slice::reverse')
def sl_reverse(c, d):
    def f(x):
        n, k = length(x), c.I.loopd + 2
        if x.op == 'arr':
            return mk('arr', tuple(reversed(x.args[0])))
        if x.op == 'k' and x.args[0] == 'bytes':
            return K('bytes', x.args[1][::-1])
        return seq(coll(k, num(0), n, leaf((index(x, sub(sub(n, num(1)), mk('idx', k, num(0), n))),))))
    wr(c, d, lf(c, f, d))
    return leaf(UNIT)


@p('slice::fill')
def sl_fill(c, d, s):
    wr(c, d, lf(c, lambda x, y: norm_const(mk('rep', y, length(x))), d, s))
    return leaf(UNIT)


@p('slice::concat')
def sl_concat(c, v):
    def f(x):
        if x.op == 'arr':
            return leaf(concat(list(x.args[0])))
        if x.op == 'coll':
            return leaf(coll(x.args[0], x.args[1], x.args[2], mapleaves(x.args[3], lambda t: leaf(tuple(mk('splice', z) for z in t)))))
        n = length(x)
        d = c.I.loopd + 2
        return leaf(coll(d, num(0), n, leaf((mk('splice', index(x, mk('idx', d, num(0), n))),))))
    return lfn(c, f, v)


@p('slice::starts_with')
def sl_starts(c, v, w):
    return lfn(c, lambda x, y: b2v(conj(le(length(y), length(x)), eq(slice_(x, num(0), length(y)), y))), v, w)


@p('slice::ends_with')
def sl_ends(c, v, w):
    return lfn(c, lambda x, y: b2v(conj(le(length(y), length(x)), eq(slice_(x, sub(length(x), length(y)), length(x)), y))), v, w)


@p('str::ends_with', 'str::starts_with')
def str_ends(c, v, w):
    t = peel(c, c.tys[1])
    if t is None or t['k'] not in ('str',) and t.get('path') != 'std::string::String':
        return NotImplemented
    return (sl_ends if c.path.endswith('ends_with') else sl_starts)(c, v, w)


@p('str::strip_suffix')
def strip_suffix(c, v, w):
    t = peel(c, c.tys[1])
    if t is None or t['k'] not in ('str',) and t.get('path') != 'std::string::String':
        return NotImplemented
    return lfn(c, lambda x, y: ite(conj(le(length(y), length(x)), eq(slice_(x, sub(length(x), length(y)), length(x)), y)),
                                   leaf(some(slice_(x, num(0), sub(length(x), length(y))))), leaf(NONE)), v, w)


def _sep_free(q, sep):
    return q.op == 'app' and q.args[0].startswith('display:') and q.args[0][8:] in INTR and not any(48 <= b <= 57 or b == 45 for b in sep)


def str_pieces(name, x, sepn):
    """The pieces between separators: a tail whose separators are all known is split off."""
    x = norm_const(x)
    sep = bytes(sepn.args[1]) if sepn.op == 'k' and sepn.args[0] == 'bytes' else sepn.args[1].encode() if sepn.op == 'k' and sepn.args[0] == 'str' else None
    parts = list(x.args[0]) if x.op == 'concat' else [] if x is TM.EMPTY else [x]
    parts = [K('bytes', tuple(q.args[1].encode())) if q.op == 'k' and q.args[0] == 'str' else q for q in parts]
    if sep and len(sep) == 1:
        done, cur = [], []
        while parts:
            q = parts.pop()
            if q.op == 'k' and q.args[0] == 'bytes':
                bs = bytes(q.args[1]).split(sep)
                for i, b in enumerate(reversed(bs)):
                    if i:
                        done.append(concat(cur[::-1]))
                        cur = []
                    if b:
                        cur.append(K('bytes', tuple(b)))
            elif _sep_free(q, sep):
                cur.append(q)
            else:
                parts.append(q)
                break
        if not parts:
            done.append(concat(cur[::-1]))
            return mk('arr', tuple(done[::-1]))
        if done:
            # what precedes the first known separator of the tail stays together
            return concat([str_pieces(name, concat(parts + cur[::-1]), sepn), mk('arr', tuple(done[::-1]))])
    r = mk('app', name, (x, sepn))
    if r not in LEN:
        n = app('str.separators', x, sepn)
        RNG.setdefault(n, (0, 2 ** 62))
        LEN[r] = add(n, num(1))
    return r


TM.APPS['str.split'] = lambda name, *a: str_pieces(name, *a)


def _sep(c, w):
    t = peel(c, c.tys[1])
    if t is not None and (t['k'] == 'str' or t.get('path') == 'std::string::String'):
        return val(c, w)
    if t is not None and (t['k'] == 'char' or t['s'] == 'char'):
        return mapleaves(val(c, w), lambda x: leaf(K('bytes', tuple(chr(numval(x)).encode()))) if is_num(x) else leaf(app('char', x)))
    return None


@p('str::split', 'str::rsplit')
def str_split(c, v, w):
    s = _sep(c, w)
    if s is None:
        return NotImplemented
    def it(x, y):
        r = seq(str_pieces('str.split', x, y))
        return leaf(mk('iter', 'rev', r, num(0), num(0)) if c.path.endswith('rsplit') else r)
    return lfn(c, it, val(c, v), s)


@p('str::replace')
def str_replace(c, v, w, u):
    s = _sep(c, w)
    if s is None:
        return NotImplemented
    return lfn(c, lambda x, y, z: leaf(app('str.replace', x, y, z)), val(c, v), s, val(c, u))


def parsed(name, x):
    ty = name.split()[-1]
    if x.op == 'app' and x.args[0] == 'display:' + ty:
        return TRUE if 'valid' in name else x.args[1][0]
    r = mk('app', name, (x,))
    if 'valid' not in name:
        RNG.setdefault(r, INTR[ty])
    return r


for _t in INTR:
    TM.APPS['parse valid ' + _t] = TM.APPS['parse value ' + _t] = parsed


@p('str::parse')
def str_parse(c, v):
    t = c.fr.T[c.targs[0]] if c.targs else None
    if t is None or t['s'] not in INTR or t['s'] == 'usize' and False:
        return NotImplemented
    ty = t['s']
    return lfn(c, lambda x: ite(v2b(leaf(parsed('parse valid ' + ty, x))), leaf(ok(parsed('parse value ' + ty, x))), leaf(mk('adt', 'Result', 'Err', ('0',), (app('not a number', x),)))), val(c, v))


@p('str::strip_prefix')
def strip_prefix(c, v, w):
    t = peel(c, c.tys[1])
    if t is None or t['k'] not in ('str',) and t.get('path') != 'std::string::String':
        return NotImplemented
    return lfn(c, lambda x, y: ite(conj(le(length(y), length(x)), eq(slice_(x, num(0), length(y)), y)),
                                   leaf(some(slice_(x, length(y), length(x)))), leaf(NONE)), v, w)


# ---------------------------------------------------------------- vectors
@p('Vec::new', 'Vec::with_capacity', 'String::new', 'VecDeque::new', 'VecDeque::with_capacity', 'HashMap::new', 'BTreeMap::new', 'HashSet::new',
   'BTreeSet::new', 'HashMap::with_capacity', 'String::with_capacity', 'HashSet::with_capacity')
def vnew(c, *a):
    return leaf(EMPTY)


@p('vec::from_elem')
def from_elem(c, x, n):
    return lf(c, lambda a, b: norm_const(mk('rep', a, b)), x, n)


@p('Vec::push', 'VecDeque::push_back', 'String::push')
def vpush(c, v, x):
    old = val(c, v)
    xg = gate(val(c, x) if hasptr(x) else x)
    wr(c, v, mapleaves(old, lambda t: leaf(push(t, xg))))
    return leaf(UNIT)


@p('VecDeque::push_front')
def vpush_front(c, v, x):
    xg = gate(x)
    wr(c, v, mapleaves(val(c, v), lambda t: leaf(concat([mk('arr', (xg,)), t]))))
    return leaf(UNIT)


@p('Vec::pop', 'VecDeque::pop_back')
def vpop(c, v):
    old = val(c, v)
    wr(c, v, mapleaves(old, lambda t: ite(le(length(t), num(0)), leaf(EMPTY), leaf(slice_(t, num(0), sub(length(t), num(1)))))))
    return mapleaves(old, lambda x: ite(le(length(x), num(0)), leaf(NONE), leaf(some(index(x, sub(length(x), num(1)))))))


@p('VecDeque::pop_front')
def vpopf(c, v):
    old = val(c, v)
    wr(c, v, mapleaves(old, lambda t: ite(le(length(t), num(0)), leaf(EMPTY), leaf(slice_(t, num(1), length(t))))))
    return mapleaves(old, lambda x: ite(le(length(x), num(0)), leaf(NONE), leaf(some(index(x, num(0))))))


@p('Vec::clear', 'VecDeque::clear', 'String::clear', 'HashMap::clear', 'BTreeMap::clear')
def vclear(c, v):
    wr(c, v, leaf(EMPTY))
    return leaf(UNIT)


@p('Vec::truncate')
def vtrunc(c, v, n):
    wr(c, v, lfn(c, lambda t, k: ite(le(k, length(t)), leaf(slice_(t, num(0), k)), leaf(t)), v, n))
    return leaf(UNIT)


@p('Vec::extend_from_slice', 'String::push_str')
def vext(c, v, s):
    wr(c, v, c.I.lift(lambda a, b: leaf(concat([a, b])), val(c, v), val(c, s)))
    return leaf(UNIT)


@tr('std::iter::Extend', 'extend')
def vextend(c, v, s):
    t = peel(c, c.tys[0])
    q = (t.get('path') or '').split('::')[-1] if t else ''
    if q in ('HashMap', 'BTreeMap'):
        def put(it):
            d, n, i, e = scan(c, it)
            return leaf(TM.coll(d, num(0), n, mapleaves(e, lambda x: leaf(() if x is SKIP else (x,)))))
        items = mapleaves(to_iter(c, s), put)
        wr(c, v, c.I.lift(lambda a, b: leaf(a if b is EMPTY else app('mapall', a, b)), val(c, v), ungate(items)))
        return leaf(UNIT)
    if q not in ('Vec', 'String', 'VecDeque'):
        return NotImplemented
    s = tocoll_n(c, s)
    wr(c, v, c.I.lift(lambda a, b: leaf(concat([a, b])), val(c, v), s))
    return leaf(UNIT)


@p('Vec::append', 'VecDeque::append')
def vappend(c, v, s):
    a, b = val(c, v), val(c, s)
    wr(c, v, c.I.lift(lambda x, y: leaf(concat([x, y])), a, b))
    wr(c, s, leaf(EMPTY))
    return leaf(UNIT)


@p('Vec::drain', 'VecDeque::drain')
def vdrain(c, v, r):
    old = val(c, v)
    range_obl(c, v, r, 'drain')
    r = val(c, r)
    if not is_leaf(r):
        return NotImplemented
    rt = leafval(r)

    def parts(x):
        b = rng_bounds(rt, length(x))
        if b is None:
            raise Unsupported('drain range')
        return b
    wr(c, v, mapleaves(old, lambda x: leaf(concat([slice_(x, num(0), parts(x)[0]), slice_(x, parts(x)[1], length(x))]))))
    return mapleaves(old, lambda x: leaf(seq(slice_(x, *parts(x)))))


@p('Vec::split_off', 'VecDeque::split_off')
def vsplit_off(c, v, k):
    old, k = val(c, v), val(c, k)
    if c.I.obl is not None:
        c.I.oblig('bounds', c.cond, c.I.lift(lambda x, j: lt(length(x), j), old, k), what='split_off')
    wr(c, v, c.I.lift(lambda x, j: leaf(slice_(x, num(0), j)), old, k))
    return c.I.lift(lambda x, j: leaf(slice_(x, j, length(x))), old, k)


@p('mem::take', 'mem::replace')
def mtake(c, v, *new):
    old = val(c, v)
    if new:
        wr(c, v, new[0])
    else:
        x = default_of(c, c.dty, c.fr.T)
        if x is None:
            return NotImplemented
        wr(c, v, leaf(x))
    return old


@p('mem::swap')
def mswap(c, a, b):
    x, y = val(c, a), val(c, b)
    wr(c, a, y)
    wr(c, b, x)
    return leaf(UNIT)


@p('Option::take')
def otake(c, v):
    old = val(c, v)
    wr(c, v, leaf(NONE))
    return old


# ---------------------------------------------------------------- maps
def mapgetopt(m, k):
    if m is EMPTY:
        return leaf(NONE)
    if m.op == 'gate':
        return mapleaves(m.args[0], lambda x: mapgetopt(x, k))
    if m.op == 'mapins':
        return ite(eq(k, m.args[1]), leaf(some(m.args[2])), mapgetopt(m.args[0], k))
    if m.op == 'app' and m.args[0] == 'mapdel':
        return ite(eq(k, m.args[1][1]), leaf(NONE), mapgetopt(m.args[1][0], k))
    g = app('get', m, k)
    TM.variants_of(g, ('None', 'Some'))
    return leaf(g)


@p('HashMap::get', 'BTreeMap::get', 'HashSet::get')
def mget(c, m, k):
    return lfn(c, mapgetopt, m, k)


def is_some_b(n):
    return mapleaves(n, lambda g: is_variant(g, 'Some'))


@p('HashMap::contains_key', 'BTreeMap::contains_key', 'HashSet::contains', 'BTreeSet::contains')
def mcontains(c, m, k):
    return lfn(c, lambda a, b: b2v(is_some_b(mapgetopt(a, b))), m, k)


@p('HashMap::insert', 'BTreeMap::insert')
def minsert(c, m, k, v):
    old = val(c, m)
    k = val(c, k)
    r = c.I.lift(mapgetopt, old, k)
    vg, kg = gate(v), gate(k)
    wr(c, m, mapleaves(old, lambda x: leaf(mapins(x, kg, vg))))
    return r


@p('HashSet::insert', 'BTreeSet::insert')
def sinsert(c, m, k):
    old = val(c, m)
    r = c.I.lift(lambda a, b: b2v(neg(is_some_b(mapgetopt(a, b)))), old, val(c, k))
    kg = gate(val(c, k))
    wr(c, m, mapleaves(old, lambda x: leaf(mapins(x, kg, UNIT))))
    return r


@p('HashMap::remove', 'BTreeMap::remove')
def mremove(c, m, k):
    old = val(c, m)
    k = val(c, k)
    r = c.I.lift(mapgetopt, old, k)
    kg = gate(k)
    wr(c, m, mapleaves(old, lambda x: leaf(app('mapdel', x, kg))))
    return r


@p('HashMap::get_mut', 'BTreeMap::get_mut')
def mget_mut(c, m, k):
    def f(q, kk):
        o = c.I.load(c.st, q)
        cc = mapleaves(o, lambda x: is_some_b(mapgetopt(x, kk)))
        return ite(cc, leaf(some(mk('ptr', q.args[0], q.args[1], q.args[2] + (('mv', kk),)))), leaf(NONE))
    return c.I.lift(f, m, val(c, k))


@p('HashMap::entry', 'BTreeMap::entry')
def mentry(c, m, k):
    t = c.I.apath(c.dty) if c.dty is not None else 'Entry'

    def f(q, kk):
        if q.op != 'ptr':
            raise Unsupported('entry of a value')
        e = mk('entry', q, kk)
        here = mapleaves(c.I.load(c.st, q), lambda x: is_some_b(mapgetopt(x, kk)))
        return ite(here, leaf(TM.adt(t, 'Occupied', ('0',), (e,))), leaf(TM.adt(t, 'Vacant', ('0',), (e,))))
    return c.I.lift(f, m, val(c, k))


def entry_of(e):
    """(map, key) of a map entry."""
    es = {x.args[3][0] if x.op == 'adt' else x for x in leaves(e)}
    if len(es) != 1:
        return None
    x = es.pop()
    return x.args if x.op == 'entry' else None


@p('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut')
def occ_get(c, e):
    qk = entry_of(val(c, e))
    if qk is None:
        return NotImplemented
    q, kk = qk
    if c.path.endswith('::get'):
        return c.I.lift(lambda m: leaf(mapget(m, kk)) if m.op != 'mapins' else mapleaves(mapgetopt(m, kk), lambda o: leaf(vfld(o, 'Some', '0'))), c.I.load(c.st, q))
    return leaf(mk('ptr', q.args[0], q.args[1], q.args[2] + (('mv', kk),)))


@p('OccupiedEntry::insert', 'VacantEntry::insert', 'OccupiedEntry::remove', 'OccupiedEntry::remove_entry')
def entry_put(c, e, *v):
    qk = entry_of(val(c, e))
    if qk is None or c.path.endswith('remove_entry'):
        return NotImplemented
    q, kk = qk
    cur = c.I.load(c.st, q)
    old = mapleaves(cur, lambda m: mapleaves(mapgetopt(m, kk), lambda o: leaf(vfld(o, 'Some', '0')) if not (o.op == 'adt' and o.args[1] == 'None') else leaf(TM.UNINIT)))
    if c.path.endswith('remove'):
        wr(c, leaf(q), mapleaves(cur, lambda m: leaf(app('mapdel', m, kk))))
        return old
    wr(c, leaf(q), mapleaves(cur, lambda m: leaf(mapins(m, kk, gate(v[0])))))
    if 'VacantEntry' in c.path:
        return leaf(mk('ptr', q.args[0], q.args[1], q.args[2] + (('mv', kk),)))
    return old


@p('Entry::key', 'OccupiedEntry::key', 'VacantEntry::key')
def entry_key(c, e):
    qk = entry_of(val(c, e))
    return NotImplemented if qk is None else leaf(qk[1])


@p('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default')
def or_insert(c, e, *v):
    qk = entry_of(e)
    if qk is None:
        return NotImplemented
    q, kk = qk
    if c.path.endswith('or_default'):
        x = default_of(c, c.fr.T[c.dty['of']], c.fr.T)
        if x is None:
            return NotImplemented
        nv = leaf(x)
    elif c.path.endswith('with'):
        here = mapleaves(c.I.load(c.st, q), lambda x: is_some_b(mapgetopt(x, kk)))
        no = conj(c.cond, neg(here))
        if no is F:
            nv = leaf(TM.UNINIT)
        else:
            before = c.st
            nv, after, _ = c.I.call_closure1(c.fr, leafval(v[0]), [], no, before)
            c.st = {k: ite(here, before[k], x) if k in before and before[k] is not x else x for k, x in after.items()}
    else:
        nv = v[0]
    cur = c.I.load(c.st, q)
    new = mapleaves(cur, lambda m: mapleaves(mapgetopt(m, kk), lambda o: ite(is_variant(o, 'Some'), leaf(m), leaf(mapins(m, kk, gate(nv))))))
    wr(c, leaf(q), new)
    return leaf(mk('ptr', q.args[0], q.args[1], q.args[2] + (('mv', kk),)))


# ---------------------------------------------------------------- iterators
def seq(x):
    return mk('iter', 'seq', x, num(0), length(x))


def entries(m):
    e = app('entries', m)
    LEN.setdefault(e, length(m))
    return e


def to_iter(c, n, t=None):
    """Iterator diagram for an IntoIterator argument."""
    if t is None and c.tys and c.tys[0] is not None:
        t = c.tys[0]
    pt = peel(c, t) if t is not None else None
    q = (pt.get('path') or '').split('::')[-1] if pt else ''
    mutref = t is not None and t['k'] == 'ref' and t.get('mut')

    def f(x):
        if x.op == 'iter':
            return leaf(x)
        if x.op == 'ptr':
            if mutref and q in ('Vec', 'VecDeque') or (mutref and pt['k'] in ('slice', 'array')):
                v = gate(c.I.load(c.st, x))
                return leaf(mk('iter', 'mut', x, num(0), length(v)))
            if mutref and q in ('HashMap', 'BTreeMap'):
                return mapleaves(c.I.load(c.st, x), lambda y: leaf(mk('iter', 'map', seq(entries(y)), K('mvent', x))))
            return mapleaves(c.I.load(c.st, x), f)
        b = rng_bounds(x, None) if x.op == 'adt' and x.args[0].split('::')[-1] in ('Range', 'RangeInclusive') else None
        if b is not None:
            return leaf(mk('iter', 'range', b[0], b[1]))
        if q in ('HashMap', 'BTreeMap'):
            return leaf(seq(entries(x)))
        if q in ('HashSet', 'BTreeSet'):
            return leaf(seq(app('elems', x)))
        if q == 'Option':
            return ite(is_variant(x, 'Some'), leaf(seq(mk('arr', (vfld(x, 'Some', '0'),)))), leaf(seq(EMPTY)))
        if q == '' or q in ('Vec', 'VecDeque', 'String') or (pt and pt['k'] in ('slice', 'array', 'str')):
            return leaf(seq(x))
        return leaf(seq(app('into_seq', x)))
    return ungate(mapleaves(n, f))


@tr('std::iter::IntoIterator', 'into_iter')
@tr('rayon::iter::IntoParallelIterator', 'into_par_iter')
def into_iter(c, v):
    return to_iter(c, v)


@p('slice::iter', 'VecDeque::iter', 'Vec::iter', 'array::iter')
@tr('rayon::iter::IntoParallelRefIterator', 'par_iter')
def sl_iter(c, v):
    return mapleaves(val(c, v), lambda x: leaf(seq(x)))


@p('slice::iter_mut', 'VecDeque::iter_mut')
def sl_iter_mut(c, v):
    return mapleaves(v, lambda x: leaf(mk('iter', 'mut', x, num(0), length(gate(c.I.load(c.st, x))))))


@p('HashMap::iter', 'BTreeMap::iter')
def m_iter(c, v):
    return mapleaves(val(c, v), lambda x: leaf(seq(entries(x))))


@p('HashMap::keys', 'BTreeMap::keys', 'HashMap::into_keys')
def m_keys(c, v):
    return mapleaves(val(c, v), lambda x: leaf(mk('iter', 'map', seq(entries(x)), K('proj', '0'))))


@p('HashMap::values', 'BTreeMap::values', 'HashMap::into_values')
def m_values(c, v):
    return mapleaves(val(c, v), lambda x: leaf(mk('iter', 'map', seq(entries(x)), K('proj', '1'))))


@p('HashMap::values_mut', 'BTreeMap::values_mut', 'HashMap::iter_mut', 'BTreeMap::iter_mut')
def m_iter_mut(c, v):
    kind = 'mvent' if c.path.endswith('iter_mut') else 'mvval'
    return mapleaves(v, lambda q: mapleaves(c.I.load(c.st, q), lambda x: leaf(mk('iter', 'map', seq(entries(x)), K(kind, q)))))


@p('HashSet::iter', 'BTreeSet::iter')
def s_iter(c, v):
    return mapleaves(val(c, v), lambda x: leaf(seq(app('elems', x))))


def bounds(it):
    k = it.args[0]
    if k in ('seq', 'mut'):
        return it.args[2], it.args[3]
    if k == 'range':
        return it.args[1], it.args[2]
    if k in ('map', 'filter', 'filter_map', 'enum', 'inspect'):
        return bounds(it.args[1])
    if k == 'rev':
        return it.args[2], bounds(it.args[1])[1]
    if k == 'zip':
        a, b = bounds(it.args[1])
        return a, b
    if k == 'win':
        return it.args[3], it.args[4]
    raise Unsupported('iterator ' + k)


def setpos(it, pos):
    k = it.args[0]
    a = list(it.args)
    if k in ('seq', 'mut'):
        a[2] = pos
    elif k == 'range':
        a[1] = pos
    elif k in ('map', 'filter', 'filter_map', 'enum', 'inspect'):
        a[1] = setpos(it.args[1], pos)
    elif k == 'rev':
        a[2] = pos
    elif k == 'win':
        a[3] = pos
    elif k == 'zip':
        d = sub(pos, bounds(it.args[1])[0])
        a[1] = setpos(it.args[1], pos)
        a[2] = setpos(it.args[2], add(bounds(it.args[2])[0], d))
    return mk('iter', *a)


def setend(it, end):
    k = it.args[0]
    a = list(it.args)
    if k in ('seq', 'mut'):
        a[3] = end
    elif k == 'range':
        a[2] = end
    elif k in ('map', 'filter', 'filter_map', 'enum', 'inspect'):
        x = it.args[1]
        while k == 'enum' and x.op == 'iter':
            if x.args[0] in ('rev', 'zip'):
                raise Unsupported('take on enumerate of rev')
            x = x.args[1]
        a[1] = setend(it.args[1], end)
    elif k == 'win':
        a[4] = end
    elif k == 'rev':
        # cutting a reversed iterator drops from the front of what it reverses
        lo, hi = bounds(it.args[1])
        start = sub(add(lo, hi), end)
        a[1] = setpos(it.args[1], start)
        a[2] = add(it.args[2], sub(start, lo))
    elif k == 'zip':
        a[1] = setend(it.args[1], end)
    return mk('iter', *a)


def has_next(it):
    """Condition that another raw position exists."""
    lo, hi = bounds(it)
    c = lt(lo, hi)
    if it.args[0] == 'zip':
        c = conj(has_next(it.args[1]), has_next(it.args[2]))
    elif it.args[0] in ('map', 'filter', 'filter_map', 'enum', 'inspect'):
        c = has_next(it.args[1])
    return c


def at(c, it, pos=None):
    """Element diagram at the current raw position (SKIP where filtered out)."""
    k = it.args[0]
    if pos is None:
        pos = bounds(it)[0]
    if k == 'seq':
        return ungate1(index(it.args[1], pos))
    if k == 'mut':
        q = it.args[1]
        return leaf(mk('ptr', q.args[0], q.args[1], q.args[2] + (('i', pos, None),)))
    if k == 'range':
        return leaf(pos)
    if k == 'win':
        return leaf(slice_(it.args[1], mul(pos, it.args[5]), add(mul(pos, it.args[5]), it.args[2])))
    if k == 'rev':
        # element count is preserved; position p (from base) reads the mirrored element
        inner, p0, base = it.args[1], it.args[2], it.args[3]
        lo, hi = bounds(inner)
        return at(c, inner, sub(add(add(lo, hi), num(-1)), pos))
    if k == 'enum':
        v = at(c, it.args[1], pos)
        n = sub(pos, it.args[2])
        return mapleaves(v, lambda x: leaf(x) if x is SKIP else leaf(tup(n, x)))
    if k == 'zip':
        a = at(c, it.args[1], pos)
        b = at(c, it.args[2], add(bounds(it.args[2])[0], sub(pos, bounds(it.args[1])[0])))
        return c.I.lift(lambda x, y: leaf(SKIP) if x is SKIP or y is SKIP else leaf(tup(x, y)), a, b)
    if k == 'inspect':
        return at(c, it.args[1], pos)
    v = at(c, it.args[1], pos)
    f = it.args[2]
    if k == 'map':
        if f.op == 'k' and f.args[0] == 'proj':
            return ungate(mapleaves(v, lambda x: leaf(x) if x is SKIP else leaf(fld(x, f.args[1], 'tuple', 2))))
        if f.op == 'k':        # entries of a map, their values in place
            q = f.args[1]

            def ent(x):
                key = fld(x, '0', 'tuple', 2)
                r = mk('ptr', q.args[0], q.args[1], q.args[2] + (('mv', key),))
                return leaf(tup(key, r) if f.args[0] == 'mvent' else r)
            return ungate(mapleaves(v, lambda x: leaf(x) if x is SKIP else ent(x)))
        return ungate(mapleaves(v, lambda x: leaf(x) if x is SKIP else callf(c, f, [leaf(x)])))
    if k == 'filter':
        return mapleaves(v, lambda x: leaf(x) if x is SKIP else ite(v2b(callf(c, f, [leaf(x)])), leaf(x), leaf(SKIP)))
    if k == 'filter_map':
        r = ungate(mapleaves(v, lambda x: leaf(x) if x is SKIP else callf(c, f, [leaf(x)])))
        return ungate(mapleaves(r, lambda o: leaf(o) if o is SKIP else ite(is_variant(o, 'Some'), leaf(vfld(o, 'Some', '0')), leaf(SKIP))))
    raise Unsupported('iterator ' + k)


def callf(c, f, args):
    v, st, cc = c.I.call_closure1(c.fr, f, args, c.cond, c.st)
    c.st = st
    return ungate(v)


def iter_len(it):
    if has_filter(it):
        raise Unsupported('len of filtered iterator')
    lo, hi = bounds(it)
    return leaf(sub(hi, lo))


def has_filter(it):
    if it.args[0] in ('filter', 'filter_map'):
        return True
    return any(isinstance(x, Term) and x.op == 'iter' and has_filter(x) for x in it.args[1:])


def has_mut(it):
    return it.args[0] == 'mut' or any(isinstance(x, Term) and x.op == 'iter' and has_mut(x) for x in it.args[1:])


@tr('std::iter::Iterator', 'next')
def it_next(c, v):
    ptrs = leaves(v)
    itn = val(c, v)
    if any(x.op != 'iter' for x in leaves(itn)):
        # ranges used directly as iterators
        def conv_(x):
            if x.op == 'iter':
                return leaf(x)
            b = rng_bounds(x, None) if x.op == 'adt' and x.args[0].split('::')[-1] in ('Range', 'RangeInclusive') else None
            if b is None:
                raise Unsupported('next on ' + show(x)[:80])
            return leaf(mk('iter', 'range', b[0], b[1]))
        itn = mapleaves(itn, conv_)
    wr(c, v, mapleaves(itn, lambda it: ite(has_next(it), leaf(setpos(it, add(bounds(it)[0], num(1)))), leaf(it))))

    def f(it):
        h = has_next(it)
        if h is F:
            return leaf(NONE)
        e = at(c, it)
        return ite(h, mapleaves(e, lambda x: leaf(SKIP) if x is SKIP else leaf(some(x))), leaf(NONE))
    return mapleaves(itn, f)


def adapter(kind):
    def g(c, it, f):
        itn = to_iter(c, it)
        fv = gate(f)
        if fv.op == 'ptr':
            fv = gate(c.I.load(c.st, fv))
        return mapleaves(itn, lambda x: leaf(mk('iter', kind, x, fv)))
    return g


for k_ in ('map', 'filter', 'filter_map'):
    TRAITS[('std::iter::Iterator', k_)] = adapter(k_)
    TRAITS[('rayon::iter::ParallelIterator', k_)] = adapter(k_)


@tr('std::iter::Iterator', 'inspect')
def it_inspect(c, it, f):
    return to_iter(c, it)


@tr('std::iter::Iterator', 'enumerate')
def it_enum(c, it):
    def f(x):
        if has_filter(x):
            raise Unsupported('enumerate of filter')
        return leaf(mk('iter', 'enum', x, bounds(x)[0]))
    return mapleaves(to_iter(c, it), f)


@tr('std::iter::Iterator', 'zip')
def it_zip(c, a, b):
    x = to_iter(c, a)
    y = to_iter(c, b, c.tys[1])

    def f(p_, q_):
        if has_filter(p_) or has_filter(q_):
            raise Unsupported('zip of filter')
        return leaf(mk('iter', 'zip', p_, q_))
    return c.I.lift(f, x, y)


@tr('std::iter::Iterator', 'rev')
def it_rev(c, a):
    return mapleaves(to_iter(c, a), lambda x: leaf(mk('iter', 'rev', x, bounds(x)[0], bounds(x)[0])))


@tr('std::iter::Iterator', 'skip')
def it_skip(c, a, n):
    def f(x, k):
        if has_filter(x):
            raise Unsupported('skip of filter')
        if x.args[0] == 'enum':
            pass
        lo, hi = bounds(x)
        return leaf(setpos(x, add(lo, k)))
    return c.I.lift(f, to_iter(c, a), val(c, n))


@tr('std::iter::Iterator', 'take')
def it_take(c, a, n):
    def f(x, k):
        if has_filter(x):
            raise Unsupported('take of filter')
        lo, hi = bounds(x)
        e = add(lo, k)
        return ite(le(e, hi), leaf(setend(x, e)), leaf(x))
    return c.I.lift(f, to_iter(c, a), val(c, n))


@tr('std::iter::Iterator', 'chain')
def it_chain(c, a, b):
    x = tocoll_n(c, to_iter(c, a))
    y = tocoll_n(c, to_iter(c, b, c.tys[1]))
    return c.I.lift(lambda u, w: leaf(seq(concat([u, w]))), x, y)


@p('slice::windows')
def sl_windows(c, v, n):
    def f(x, k):
        return ite(le(k, length(x)), leaf(mk('iter', 'win', x, k, num(0), add(sub(length(x), k), num(1)), num(1))), leaf(seq(EMPTY)))
    return lfn(c, f, v, n)


@tr('std::iter::Iterator', 'flatten')
def it_flatten(c, a):
    return mapleaves(tocoll_n(c, to_iter(c, a), splice=True), lambda x: leaf(seq(x)))


@tr('std::iter::Iterator', 'flat_map')
def it_flat_map(c, a, f):
    fv = gate(f)
    n = mapleaves(to_iter(c, a), lambda x: leaf(mk('iter', 'map', x, fv)))
    return mapleaves(tocoll_n(c, n, splice=True), lambda x: leaf(seq(x)))


def scan(c, it):
    """(d, n, i, element diagram) for a counted traversal of the iterator."""
    lo, hi = bounds(it)
    n = sub(hi, lo)
    if it.args[0] == 'zip' or True:
        n = zip_n(it)
    d = c.I.loopd + 2
    i = mk('idx', d, num(0), n)
    c.I.loopd += 2
    try:
        e = at(c, it, add(lo, i))
    finally:
        c.I.loopd -= 2
    return d, n, i, e


def zip_n(it):
    if it.args[0] == 'zip':
        a, b = zip_n(it.args[1]), zip_n(it.args[2])
        if a is b:
            return a
        if le(a, b) is T:
            return a
        if le(b, a) is T:
            return b
        r = app('min', *sorted((a, b), key=lambda t: t.id))
        RNG.setdefault(r, (0, None))
        return r
    if it.args[0] in ('map', 'filter', 'filter_map', 'enum', 'inspect'):
        return zip_n(it.args[1])
    lo, hi = bounds(it)
    return sub(hi, lo)


def tocoll(c, it, splice=False):
    if it.op != 'iter':
        return leaf(it)
    if it.args[0] == 'seq' and not splice:
        return leaf(slice_(it.args[1], it.args[2], it.args[3]))
    d, n, i, e = scan(c, it)
    if splice:
        def sp(x):
            if x is SKIP:
                return leaf(())
            if x.op == 'iter':
                return mapleaves(tocoll(c, x), lambda y: leaf((mk('splice', y),)))
            if x in TM.VARIANTS and 'Some' in TM.VARIANTS[x]:
                return ite(is_variant(x, 'Some'), leaf((vfld(x, 'Some', '0'),)), leaf(()))
            if x.op == 'adt' and x.args[1] in ('Some', 'None'):
                return leaf(() if x.args[1] == 'None' else (x.args[3][0],))
            return leaf((mk('splice', x),))
        e2 = mapleaves(e, sp)
        return leaf(flatcoll(d, num(0), n, e2))
    return leaf(coll(d, num(0), n, mapleaves(e, lambda x: leaf(()) if x is SKIP else leaf((x,)))))


def flatcoll(d, lo, hi, body):
    return coll(d, lo, hi, body)


def tocoll_n(c, n, splice=False):
    return ungate(mapleaves(to_iter(c, n) if not all(x.op == 'iter' for x in leaves(n)) else n, lambda x: tocoll(c, x, splice)))


@tr('std::iter::Iterator', 'collect')
@tr('rayon::iter::ParallelIterator', 'collect')
def it_collect(c, a):
    t = c.dty
    q = (t.get('path') or '').split('::')[-1] if t else ''
    itn = to_iter(c, a)
    if q in ('Vec', 'VecDeque', 'String', 'Box'):
        return mapleaves(itn, lambda x: tocoll(c, x))
    if q in ('Result', 'Option'):
        inner = c.fr.T[t['args'][0]]
        if (inner.get('path') or '').split('::')[-1] not in ('Vec', 'VecDeque', 'String'):
            return NotImplemented
        good, bad = ('Ok', 'Err') if q == 'Result' else ('Some', 'None')

        def f(it):
            d, n, i, e = scan(c, it)
            for x in leaves(e):
                if x.op != 'adt':
                    TM.variants_of(x, ('Ok', 'Err') if q == 'Result' else ('None', 'Some'))
            g = mapleaves(e, lambda x: T if x is SKIP else is_variant(x, good))
            allok = forall(d, num(0), n, g)
            body = care(mapleaves(e, lambda x: leaf(()) if x is SKIP else leaf((vfld(x, good, '0'),)) if not (x.op == 'adt' and x.args[1] != good) else leaf(())), g)
            okv = coll(d, num(0), n, body)
            if q == 'Option':
                bv = leaf(NONE)
            else:
                first = mkq('first', d, num(0), n, neg(g))
                be = subst(care(mapleaves(e, lambda x: leaf(vfld(x, 'Err', '0')) if not (x.op == 'adt' and x.args[1] == 'Ok') and x is not SKIP else leaf(UNINIT)), neg(g)), {i: first})
                bv = leaf(err(gate(ungate(be))))
            return ite(allok, leaf(mk('adt', q, good, ('0',), (okv,))), bv)
        return mapleaves(itn, f)
    return ungate(mapleaves(itn, lambda x: mapleaves(tocoll(c, x), lambda y: leaf(app('collect:' + q, y)))))


@tr('std::iter::Iterator', 'sum')
@tr('rayon::iter::ParallelIterator', 'sum')
def it_sum(c, a):
    if c.dty is None or c.dty['k'] != 'int':
        return NotImplemented

    def f(it):
        d, n, i, e = scan(c, it)
        return leaf(summ(d, num(0), n, mapleaves(e, lambda x: leaf(num(0)) if x is SKIP else leaf(x))))
    r = mapleaves(to_iter(c, a), f)
    if c.I.obl is not None:
        hi = INTR[c.dty['s']][1]
        c.I.oblig('overflow', c.cond, c.I.lift(lambda x: neg(le(x, num(hi))) if x.op != 'unk' else as_bdd(x), r), ops=(r,), ty=c.dty['s'], what='unchecked Iterator::sum')
    return r


@tr('std::iter::Iterator', 'count')
def it_count(c, a):
    def f(it):
        d, n, i, e = scan(c, it)
        return leaf(summ(d, num(0), n, mapleaves(e, lambda x: leaf(num(0)) if x is SKIP else leaf(num(1)))))
    return mapleaves(to_iter(c, a), f)


def consume_pred(c, a, f):
    fv = gate(f)
    if fv.op == 'ptr':
        fv = gate(c.I.load(c.st, fv))
    itn = val(c, a)
    itn = to_iter(c, itn)
    res = {}

    def g(it):
        if it.args[0] == 'seq' and it.args[1].op in ('arr',) or (it.args[0] == 'seq' and it.args[1].op == 'k'):
            pass
        d, n, i, e = scan(c, it)
        c.I.loopd += 2
        try:
            pr = mapleaves(e, lambda x: T if x is SKIP else v2b(callf(c, fv, [leaf(x)])))
        finally:
            c.I.loopd -= 2
        return d, n, i, e, pr
    return itn, g


@tr('std::iter::Iterator', 'all')
@tr('rayon::iter::ParallelIterator', 'all')
def it_all(c, a, f):
    itn, g = consume_pred(c, a, f)

    def h(it):
        d, n, i, e, pr = g(it)
        return b2v(forall(d, num(0), n, pr))
    return mapleaves(itn, h)


@tr('std::iter::Iterator', 'any')
@tr('rayon::iter::ParallelIterator', 'any')
def it_any(c, a, f):
    itn, g = consume_pred(c, a, f)

    def h(it):
        d, n, i, e, pr = g(it)
        np = mapleaves(e, lambda x: T if x is SKIP else F)
        return b2v(neg(forall(d, num(0), n, disj(np, neg(pr)))))
    return mapleaves(itn, h)


def first_of(c, a, f, result):
    itn, g = consume_pred(c, a, f)

    def h(it):
        d, n, i, e, pr = g(it)
        hit = mapleaves(e, lambda x: F if x is SKIP else T)
        hit = conj(hit, pr)
        if TM.EAGER and is_num(n) and numval(n) <= 64:
            r = leaf(NONE)
            for j in reversed(range(numval(n))):
                at = {i: num(j)}
                r = ite(subst(hit, at), mapleaves(ungate(subst(result(care(e, hit), i), at)), lambda x: leaf(some(x))), r)
            return r
        none = forall(d, num(0), n, neg(hit))
        first = mkq('first', d, num(0), n, hit)
        RNG.setdefault(first, (0, rng(n)[1]))
        return ite(none, leaf(NONE), mapleaves(ungate(subst(result(care(e, hit), i), {i: first})), lambda x: leaf(some(x))))
    return mapleaves(itn, h)


@tr('std::iter::Iterator', 'position')
def it_position(c, a, f):
    return first_of(c, a, f, lambda e, i: leaf(i))


def reversed_iter(c, a):
    return mapleaves(to_iter(c, val(c, a)), lambda x: leaf(mk('iter', 'rev', x, bounds(x)[0], bounds(x)[0])))


@tr('std::iter::Iterator', 'rposition')
def it_rposition(c, a, f):
    def index_of(e, i):
        return leaf(sub(sub(i.args[2], num(1)), i))
    return first_of(c, reversed_iter(c, a), f, index_of)


@tr('std::iter::DoubleEndedIterator', 'rfind')
def it_rfind(c, a, f):
    return first_of(c, reversed_iter(c, a), f, lambda e, i: e)


@tr('std::iter::Iterator', 'find')
def it_find(c, a, f):
    return first_of(c, a, f, lambda e, i: e)


@tr('std::iter::Iterator', 'try_for_each')
def it_try_for_each(c, a, f):
    return it_for_each(c, a, f, True)


@tr('std::iter::Iterator', 'for_each')
def it_for_each(c, a, f, early=False):
    """The closure is called in a loop over the iterator: the same code a for statement compiles to."""
    fv = leafval(f) if is_leaf(f) else None
    if fv is None or not (fv.op == 'adt' and fv.args[0].startswith('closure:') or fv.op == 'fndef'):
        raise Unsupported('for_each')
    C, T = c.fr.C, c.fr.C.T
    if fv.op == 'adt':
        g = C.byid.get(int(fv.args[0].split(':')[1]))
        item = g['locals'][2] if g is not None and g.get('blocks') else None
    else:
        gs = [x for x in C.bypath.get(fv.args[0], []) if x.get('blocks')]
        g = gs[0] if len(gs) == 1 else None
        item = g['locals'][1] if g is not None else None
    its = [i for i, t in enumerate(T) if t is c.tys[0]]
    if item is None or not its:
        raise Unsupported('for_each')

    def ty(t):
        for i, x in enumerate(T):
            if x['k'] == t['k'] and x['s'] == t['s']:
                return i
        T.append(t)
        return len(T) - 1
    it, s = its[0], T[item]['s']
    opt = ty({'k': 'enum', 's': 'std::option::Option<%s>' % s, 'path': 'std::option::Option', 'local': False, 'frz': True, 'args': [item], 'variants': [{'name': 'None', 'discr': 0, 'fields': []}, {'name': 'Some', 'discr': 1, 'fields': [['0', item, 1]]}]})
    rit = ty({'k': 'ref', 's': '&mut ' + T[it]['s'], 'mut': True, 'of': it})
    tup = ty({'k': 'tuple', 's': '(%s,)' % s, 'args': [item]})
    unit = ty({'k': 'tuple', 's': '()', 'args': []})
    isz = ty({'k': 'int', 's': 'isize', 'signed': True})
    clo = ty({'k': 'closure', 's': 'closure of for_each', 'args': [], 'path': 'closure'})
    rclo = ty({'k': 'ref', 's': '&mut closure of for_each', 'mut': True, 'of': clo})
    res, good = unit, None
    if early:
        res = g['locals'][0]
        rt = T[res]
        good = {'std::result::Result': ('Ok', 0), 'std::option::Option': ('Some', 1)}.get(rt.get('path')) if rt['k'] == 'enum' else None
        if good is None or not (T[rt['args'][0]]['k'] == 'tuple' and not T[rt['args'][0]]['args']):
            raise Unsupported('try_for_each')
    key = (it, item, g['id'], early)
    memo = C.__dict__.setdefault('_for_each', {})
    h = memo.get(key)
    if h is None:
        ln = c.fr.line
        h = memo[key] = {
            'id': -1000000 - len(memo), 'path': c.fr.f['path'] + '::for_each', 'name': 'for_each', 'krate': C.name, 'local': False, 'kind': 'item', 'dk': 'Fn', 'file': c.fr.f['file'], 'line': ln,
            'targs': [], 'trait': None, 'self': None, 'item': 'for_each', 'pub': False, 'derived': False, 'argc': 2, 'spread': None, 'upvars': [], 'promoted': [], 'names': {}, '_c': C,
            'locals': [res, it, clo, opt, rit, rclo, item, tup, isz, res],
            'blocks': [
                {'s': [], 't': ['goto', 1]},
                {'s': [['=', [4], ['ref', 1, [1]], ln]], 't': ['call', ['fn', 'std::iter::Iterator::next', -1, [it], 'next', 'std::iter::Iterator'], [['mv', [4]]], [3], 2, ln]},
                {'s': [['=', [8], ['discr', [3], opt], ln]], 't': ['switch', ['mv', [8]], isz, [[0, 5], [1, 3]], 6]},
                {'s': [['=', [6], ['use', ['mv', [3, ['v', 'Some', 1], ['f', '0', 0, item]]]], ln], ['=', [7], ['agg', 'tuple', None, [['mv', [6]]]], ln], ['=', [5], ['ref', 1, [2]], ln]],
                 't': ['call', ['fn', 'std::ops::FnMut::call_mut', -1, [clo, tup], 'call_mut', 'std::ops::FnMut'], [['mv', [5]], ['mv', [7]]], [9], 4, ln]},
                {'s': [['dead', 9], ['dead', 7], ['dead', 6], ['dead', 3]], 't': ['goto', 1]},
                {'s': [['=', [0], ['use', ['c', unit, ['zst'], None]], ln]], 't': ['ret']},
                {'s': [], 't': ['unreach']},
            ]}
        if early:
            b = h['blocks']
            b[4] = {'s': [['=', [8], ['discr', [9], res], ln]], 't': ['switch', ['mv', [8]], isz, [[good[1], 7], [1 - good[1], 8]], 6]}
            b[5] = {'s': [['=', [0], ['agg', 'adt', res, [['c', unit, ['zst'], None]], good[1], good[0], ['0']], ln]], 't': ['ret']}
            b.append({'s': [['dead', 9], ['dead', 7], ['dead', 6], ['dead', 3]], 't': ['goto', 1]})
            b.append({'s': [['=', [0], ['use', ['mv', [9]]], ln]], 't': ['ret']})
    return c.I.enter(h, [a, f], c.cond, c.st)


@tr('std::iter::Iterator', 'fold')
def it_fold(c, a, init, f):
    fv = gate(f)
    init = val(c, init)

    def h(it):
        d, n, i, e = scan(c, it)
        y = mk('lv', d, 'fold')
        if all(_intish(x) for x in leaves(init)):
            RNG.setdefault(y, (0, 2**127))
        for x in leaves(init):
            if x.op == 'adt' and not x.args[1] and x.args[2]:
                TM.NFIELDS.setdefault(y, (x.args[0], len(x.args[2])))
        c.I.loopd += 2
        try:
            nx = mapleaves(e, lambda x: leaf(y) if x is SKIP else callf(c, fv, [leaf(y), leaf(x)]))
        finally:
            c.I.loopd -= 2
        # struct accumulators with one field are folded on the field
        r = c.I.accumulate(y, init, ungate(nx), d, n, i, mk('idx', d + 1, num(0), i), T)
        return leaf(r[1])
    return ungate(mapleaves(to_iter(c, a), h))


@tr('std::iter::Iterator', 'last')
def it_last(c, a):
    def h(it):
        if has_filter(it):
            raise Unsupported('last of filter')
        lo, hi = bounds(it)
        return ite(le(hi, lo), leaf(NONE), mapleaves(at(c, it, add(hi, num(-1))), lambda x: leaf(some(x))))
    return mapleaves(to_iter(c, a), h)


@tr('std::iter::Iterator', 'nth')
def it_nth(c, a, k):
    itn = to_iter(c, val(c, a))

    def h(it, j):
        if has_filter(it):
            raise Unsupported('nth of filter')
        lo, hi = bounds(it)
        return ite(lt(add(lo, j), hi), mapleaves(at(c, it, add(lo, j)), lambda x: leaf(some(x))), leaf(NONE))
    r = c.I.lift(h, itn, val(c, k))
    wr(c, a, c.I.lift(lambda it, j: leaf(setpos(it, add(add(bounds(it)[0], j), num(1)))), itn, val(c, k)))
    return r


def _minmax(name, better):
    def g(c, a):
        def h(it):
            d, n, i, e = scan(c, it)
            if has_filter(it):
                return leaf(app(name + '-of', gate(tocoll(c, it)) if False else leafval(tocoll(c, it))))
            v = mk('lv', d, 'acc')
            b = mapleaves(e, lambda x: leaf(app(name, *sorted((v, x), key=lambda t: t.id))))
            r = mkq('fold', d, num(0), n, mk('none'), b)
            RNG.setdefault(r, (0, None))
            return ite(le(n, num(0)), leaf(NONE), leaf(some(r)))
        return mapleaves(to_iter(c, a), h)
    return g


TRAITS[('std::iter::Iterator', 'max')] = _minmax('max', lt)
TRAITS[('std::iter::Iterator', 'min')] = _minmax('min', lt)


# ---------------------------------------------------------------- closures through Fn traits
@tr('std::ops::FnOnce', 'call_once')
@tr('std::ops::FnMut', 'call_mut')
@tr('std::ops::Fn', 'call')
def fn_call(c, f, args):
    f = val(c, f) if any(x.op == 'ptr' for x in leaves(f)) else f
    if not is_leaf(f):
        return NotImplemented
    fv = leafval(f)
    t = c.tys[1]
    n = len(t['args']) if t and t['k'] == 'tuple' else 0
    a = [c.I.proj(args, ('f', str(i), '', 'tuple', n, None)) for i in range(n)]
    if fv.op in ('adt', 'fndef') and (fv.op == 'fndef' or fv.args[0].startswith('closure:')):
        r = c.I.call_value(c.fr, fv, a, c.cond, c.st)
        return r
    return NotImplemented


# ---------------------------------------------------------------- misc
@p('tracing::level_filters::LevelFilter::current')
def lvl(c, *a):
    return leaf(mk('sym', 'level'))


@p('RangeInclusive::new')
def ri_new(c, a, b):
    return c.I.mkagg('std::ops::RangeInclusive', '', ('start', 'end', 'exhausted'), [a, b, leaf(FALSE)])


@p('RangeInclusive::contains', 'Range::contains')
def r_contains(c, r, x):
    def f(a, y):
        d = dict(zip(a.args[2], a.args[3])) if a.op == 'adt' else {'start': fld(a, 'start'), 'end': fld(a, 'end')}
        inc = 'RangeInclusive' in c.path
        return b2v(conj(c.I.cmp(d['start'], y, le), c.I.cmp(y, d['end'], le if inc else lt)))
    return lfn(c, f, r, x)


@p('io::_print', 'io::_eprint')
def noop(c, *a):
    c.I.fxlog.append((c.path, c.cond, [val(c, x) for x in a], c.fr.f['path'], getattr(c.I, 'cur', (None, None))[1]))
    return leaf(UNIT)


@p('Box::new_uninit')
def new_uninit(c):
    return leaf(UNINIT)


@p('mem::drop', 'mem::forget')
def drop_(c, *a):
    return leaf(UNIT)


@p('mem::size_of_val', 'intrinsics::size_of_val')
def sizeofval(c, v):
    t = peel(c, c.tys[0])
    w = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'char': 4, 'u64': 8, 'i64': 8,
         'usize': 8, 'isize': 8, 'f64': 8, 'u128': 16, 'i128': 16}.get(t['s'] if t else None)
    if w:
        return leaf(num(w))
    if t and t['k'] == 'array' and c.fr.T[t['of']]['s'] == 'u8':
        return leaf(num(t['len']))
    return NotImplemented


@p('num::BigInt::from_bytes_be', 'BigInt::from_bytes_be')
def big_from(c, sign, b):
    def f(sg, x):
        r = app('num::BigInt::from_bytes_be', sg, x)
        if sg.op == 'adt' and sg.args[1] == 'Plus':
            RNG.setdefault(r, (0, None))
        return leaf(r)
    return lfn(c, f, sign, b)


def bits_of(c):
    lo, hi = ity(c) or (None, None)
    return hi.bit_length() if lo == 0 and hi else None


@p('int::leading_zeros', 'intrinsics::ctlz')
def leading_zeros(c, a):
    w = bits_of(c)
    if w is None:
        return NotImplemented

    def f(x):
        r = leaf(num(0))
        for k in range(w - 1, -1, -1):      # below 2^k
            r = ite(le(x, num(2 ** k - 1)), leaf(num(w - k)), r)
        return r
    return lfn(c, f, a)


@p('int::is_power_of_two')
def is_power_of_two(c, a):
    w = bits_of(c)
    if w is None:
        return NotImplemented
    return lfn(c, lambda x: b2v(disj(*[eq_int(x, num(2 ** k)) for k in range(w)])), a)


@p('int::next_power_of_two')
def next_power_of_two(c, a):
    w = bits_of(c)
    if w is None:
        return NotImplemented

    def f(x):
        r = app('pow2over', x)              # beyond the type: an overflow
        r = leaf(r)
        for k in range(w - 1, -1, -1):
            r = ite(le(x, num(2 ** k)), leaf(num(2 ** k)), r)
        return r
    return lfn(c, f, a)


@p('intrinsics::cold_path')
def cold(c, *a):
    return leaf(UNIT)


@p('rmp_serde::to_vec_named', 'rmp_serde::encode::to_vec_named')
def msgpack(c, v):
    # encoding an in-memory value into memory does not fail (part of the trusted base)
    return lf(c, lambda x: ok(app('msgpack', x)), v)


# ---------------------------------------------------------------- files
@p('OpenOptions::write', 'OpenOptions::read', 'OpenOptions::create', 'OpenOptions::truncate', 'OpenOptions::append', 'OpenOptions::create_new')
@tr('std::os::unix::fs::OpenOptionsExt', 'mode', 'custom_flags')
def open_option(c, o, v):
    """Options are built in place; the same reference is handed back."""
    name = c.path.split('::')[-1]
    if not any(x.op == 'ptr' for x in leaves(o)):
        return c.I.lift(lambda x, y: leaf(app('OpenOptions.' + name, x, y)), o, val(c, v))
    new = c.I.lift(lambda x, y: leaf(app('OpenOptions.' + name, x, y)), val(c, o), val(c, v))
    wr(c, o, new)
    return o


@p('rmp_serde::from_slice', 'rmp_serde::decode::from_slice')
def unmsgpack(c, v):
    """Decoding what was encoded gives the value back (the round trip itself is not judged here)."""
    d = val(c, v)
    if all(x.op == 'app' and x.args[0] == 'msgpack' for x in leaves(d)):
        return mapleaves(d, lambda x: leaf(ok(x.args[1][0])))
    return NotImplemented


@p('sled::Tree::get')
def sled_get(c, store_, key):
    """A store with known contents answers with them."""
    db = getattr(c.I, 'db', None)
    if db is None:
        return NotImplemented
    k = val(c, key)
    return mapleaves(k, lambda x: mapleaves(db[x], lambda v: leaf(ok(some(v)))) if x in db else leaf(ok(mk('adt', 'Option', 'None', (), ()))))


# ---------------------------------------------------------------- formatting
# The text an implementation writes to its formatter is modelled as a byte sequence appended to the formatter;
# whether the underlying writer accepts it is not modelled (writing to memory does not fail).
def textof(c, kind, t, x):
    """The text the value is formatted as (as a function of the value)."""
    s = t['s'] if t else '?'
    if kind == 'display':
        if s in ('str', 'std::string::String', 'alloc::string::String'):
            return x
        if t and t['k'] in ('struct', 'enum'):
            return app('display:' + t['path'], x)
    return app('%s:%s' % (kind, s), x)


def argty(c, i=0):
    t = c.tys[i] if c.tys and len(c.tys) > i else None
    while t is not None and t['k'] in ('ref', 'ptr'):
        t = c.fr.T[t['of']]
    return t


@p('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::new_octal', 'Argument::new_binary', 'Argument::new_lower_exp')
def fmt_arg(c, v):
    kind = c.path.split('new_')[-1].split('::')[0]
    t = None
    for a in c.targs or ():
        if isinstance(a, int):
            t = c.fr.T[a]
    while t is not None and t['k'] in ('ref', 'ptr'):
        t = c.fr.T[t['of']]
    return lf(c, lambda x: textof(c, kind, t, x), v)


def template(b, args):
    """Decodes the template of a format string (see core::fmt::Arguments) into the sequence it formats to."""
    i, out, nxt = 0, [], 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(K('bytes', tuple(b[i:i + n])))
            i += n
        elif n == 0x80:
            m = b[i] | b[i + 1] << 8
            out.append(K('bytes', tuple(b[i + 2:i + 2 + m])))
            i += 2 + m
        else:
            opts = []
            if n & 1:
                opts.append(tuple(b[i:i + 4]))
                i += 4
            if n & 2:
                opts.append(tuple(b[i:i + 2]))
                i += 2
            if n & 4:
                opts.append(tuple(b[i:i + 2]))
                i += 2
            if n & 8:
                nxt = b[i] | b[i + 1] << 8
                i += 2
            x = index(args, num(nxt))
            nxt += 1
            out.append(app('fmtopts', K('opts', (n & 0x37, tuple(opts))), x) if opts or n & 0x30 else x)
    return out


@p('Arguments::new')
def fmt_new(c, t, a):
    tv, av = val(c, t), val(c, a)
    if not is_leaf(tv) or leafval(tv).op != 'k' or leafval(tv).args[0] != 'bytes':
        return NotImplemented
    b = leafval(tv).args[1]
    return c.I.lift(lambda x: leaf(concat(template(b, x))), av)


@p('Arguments::from_str')
def fmt_from_str(c, s):
    return val(c, s)


@p('fmt::format', 'Arguments::to_string')
def fmt_format(c, a):
    return val(c, a)


@p('Formatter::write_str', 'Formatter::write_fmt', 'Formatter::pad', 'Write::write_str', 'Write::write_fmt')
@tr('std::fmt::Write', 'write_str', 'write_fmt')
def fmt_write(c, f, s):
    wr(c, f, c.I.lift(lambda a, b: leaf(concat([a, b])), val(c, f), val(c, s)))
    return leaf(ok(UNIT))


@p('Formatter::write_char')
@tr('std::fmt::Write', 'write_char')
def fmt_write_char(c, f, s):
    wr(c, f, c.I.lift(lambda a, b: leaf(push(a, b)), val(c, f), val(c, s)))
    return leaf(ok(UNIT))


@tr('std::fmt::Display', 'fmt')
def fmt_display(c, v, f):
    """Formatting a value of the standard library, or one whose own implementation is judged separately."""
    t = argty(c)
    x = lf(c, lambda y: textof(c, 'display', t, y), v)
    wr(c, f, c.I.lift(lambda a, b: leaf(concat([a, b])), val(c, f), x))
    return leaf(ok(UNIT))


@p('str::trim', 'str::trim_start', 'str::trim_end', 'str::to_uppercase', 'str::to_lowercase', 'str::to_ascii_uppercase', 'str::to_ascii_lowercase')
def str_map(c, v):
    """Another string: equal to the one it is made from only for some inputs."""
    return lf(c, lambda x: app(c.path.split('::')[-1], x), v)


@p('str::split_whitespace')
def str_words(c, v):
    return lf(c, lambda x: seq(app('words', x)), v)


@p('str::eq_ignore_ascii_case', 'slice::eq_ignore_ascii_case')
def str_eq_nocase(c, a, b):
    return lfn(c, lambda x, y: b2v(disj(eq(x, y), as_bdd(app('same_but_for_case', x, y)))), a, b)


# ---------------------------------------------------------------- curve arithmetic (an external library)
CURVE = ('curve25519_dalek::scalar::Scalar', 'curve25519_dalek::edwards::EdwardsPoint')


def curvy(c, i):
    t = c.tys[i] if c.tys and len(c.tys) > i else None
    while t is not None and t['k'] == 'ref':
        t = c.fr.T[t['of']]
    return t is not None and t.get('path') in CURVE


def ringop(op):
    def g(c, *vs):
        if not all(curvy(c, i) for i in range(len(vs))):
            return NotImplemented
        return lf(c, op, *vs)
    return g


CURVE_OPS = {('std::ops::Add', 'add'): ringop(lambda x, y: padd(x, y)), ('std::ops::Sub', 'sub'): ringop(lambda x, y: padd(x, y, -1)),
             ('std::ops::Mul', 'mul'): ringop(lambda x, y: pmul(x, y)), ('std::ops::Neg', 'neg'): ringop(lambda x: padd(pconst(0), x, -1))}
for _k, _h in CURVE_OPS.items():
    def _both(h, prev):
        def g(c, *vs):
            r = h(c, *vs)
            return r if r is not NotImplemented or prev is None else prev(c, *vs)
        return g
    TRAITS[_k] = _both(_h, TRAITS.get(_k))


@p('EdwardsPoint::mul_by_cofactor')
def cofactor(c, v):
    return lf(c, lambda x: pmul(pconst(8), x), v)


def scalar_from(prev):
    def g(c, v):
        if c.dty is not None and c.dty.get('path') == CURVE[0]:
            x = val(c, v)
            if all(is_num(y) for y in leaves(x)):
                return mapleaves(x, lambda y: leaf(pconst(numval(y))))
        return prev(c, v) if prev else NotImplemented
    return g


TRAITS[('std::convert::From', 'from')] = scalar_from(TRAITS.get(('std::convert::From', 'from')))


@p('PathBuf::push')
def path_push(c, p_, x):
    """Pushing onto an owned path is joining in place."""
    wr(c, p_, c.I.lift(lambda a, b: leaf(app('std::path::Path::join', a, b)), val(c, p_), val(c, x)))
    return leaf(UNIT)
