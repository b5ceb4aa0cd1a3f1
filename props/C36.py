"""Configuration files and key file names."""
import re
from spec import *
import terms as TM
import intrinsics as IT
from intrinsics import concat, app

RULE = ('each loader succeeds only if every read and every parse it makes does, and hands back the parse of the file it names, merged over what was there; each writer succeeds only if the value was written to the file its loader reads; '
        'the key-name functions are interpreted over every name the key-name makers produce')
PARTS = ['names', 'foreign', 'any_name', 'phonebook', 'phonebook_saved', 'settings', 'settings_from', 'settings_saved', 'preload', 'load_consensus', 'save_consensus', 'merge']


def s(x):
    return leaf(TM.K('bytes', tuple(x.encode())))


def st(x):
    return leaf(TM.K('str', x))


def cat(*xs):
    r = nod(xs[0])
    for x in xs[1:]:
        r = lift2(lambda p, q: leaf(concat([p, q])), r, nod(x))
    return r


def num_(r):
    return mapleaves(nod(r), lambda x: leaf(app('display:u64', x)))


# ------------------------------------------------------------------ key file names
def names(P, ck):
    f, g = P.fn('root_key_filename'), P.fn('part_key_filename')
    R, Q = P.run(f), P.run(g)
    (a,), (b, fv, lv) = R.p, Q.p
    ck.same('root key file name', R.ret, cat(a, s('.rootkey')), loc(f))
    ck.same('participation key file name', Q.ret, cat(b, s('.'), num_(fv), s('.'), num_(lv), s('.partkey')), loc(g))
    root, part = R.ret, Q.ret
    valid = Le(fv, lv)
    h = P.fn('account_name_from_root_key_filename')
    ck.same('the account of a root key file is the one it was named after', P.call(h, root).ret, a.n, loc(h))
    k = P.fn('account_name_from_part_key_filename')
    ck.same('the account of a participation key file is the one it was named after', P.call(k, part).ret, b.n, loc(k), assume=valid)
    # recognised by the suffix of their own kind
    u, v = P.fn('is_root_key_filename'), P.fn('is_part_key_filename')
    ck.holds('a root key file name is recognised', is_true(P.call(u, root).ret), loc(u))
    ck.holds('a participation key file name is recognised', is_true(P.call(v, part).ret), loc(v), assume=valid)
    ck.holds('a participation key file name is not a root key file name', neg(is_true(P.call(u, part).ret)), loc(u))
    ck.holds('a root key file name is not a participation key file name', neg(is_true(P.call(v, root).ret)), loc(v))
    m, n = P.fn('matches_root_key_filename'), P.fn('matches_part_key_filename')
    x = P.sym('x', a.t)
    ck.iff('a root key file matches the account it was named after and no other', is_true(P.call(m, x, root).ret), veq(x, a), loc(m))
    ck.iff('a participation key file matches the account it was named after and no other', is_true(P.call(n, x, part).ret), veq(x, b), loc(n), assume=valid)
    ck.holds('a participation key file matches no root key account', neg(is_true(P.call(m, x, part).ret)), loc(m))
    ck.holds('a root key file matches no participation key account', neg(is_true(P.call(n, x, root).ret)), loc(n))
    for q in (m, n, u, v, h, k):
        ck.holds('no panic: %s' % q['name'], neg(panics(P.run(q))), loc(q))


def foreign(P, ck):
    """Names of no key file."""
    a = P.run(P.fn('root_key_filename')).p[0]
    g = P.fn('part_key_filename')
    b, fv, lv = P.run(g).p
    h, k = P.fn('account_name_from_root_key_filename'), P.fn('account_name_from_part_key_filename')
    u, v = P.fn('is_root_key_filename'), P.fn('is_part_key_filename')
    mid = cat(b, s('.'), num_(fv), s('.'), num_(lv))
    for what, n, where in [('no suffix', cat(a, s('x')), (u, v)), ('the suffix of another kind', cat(a, s('.key')), (u, v)), ('a longer suffix', cat(a, s('.rootkeys')), (u, v)), ('a suffix without a dot', cat(a, s('_rootkey')), (u, v)),
                           ('another suffix after the period', cat(mid, s('.keypart')), (u, v)), ('a longer suffix after the period', cat(mid, s('.partkeys')), (u, v)),
                           ('an upper-case suffix', cat(a, s('.ROOTKEY')), (u, v)), ('an upper-case suffix after the period', cat(mid, s('.PARTKEY')), (u, v))]:
        for q in where:
            ck.holds('%s: a name with %s is not recognised' % (q['name'], what), neg(is_true(P.call(q, n).ret)), loc(q))
        for acc, q in ((h, u), (k, v)):
            if q in where:
                ck.same('%s: a name with %s is handed back unchanged' % (acc['name'], what), P.call(acc, n).ret, n, loc(acc))
    bad = cat(b, s('.'), num_(fv), s('.'), num_(lv), s('.partkey'))
    ck.holds('a name whose period ends before it begins is not recognised', neg(is_true(P.call(v, bad).ret)), loc(v), assume=Lt(lv, fv))
    # for every other name the two functions agree: recognised means made from the account recovered from it
    R = P.run(h)
    nm = R.p[0]
    rec_ = is_true(P.call(u, nm).ret)
    ck.same('a name that is not a root key file is handed back unchanged', P.call(h, nm).ret, nm.n, loc(h), assume=neg(suffix(nm, '.rootkey')))


def any_name(P, ck):
    """Whatever the file name, asking what it is does not abort."""
    from C08 import entry
    entry(P, ck, 'matches_root_key_filename', 'matches_part_key_filename', 'is_root_key_filename', 'is_part_key_filename',
          'account_name_from_root_key_filename', 'account_name_from_part_key_filename', arithmetic=True)


def suffix(v, x):
    """v ends with x."""
    n = leafval(nod(v))
    L = TM.length(n)
    k = len(x)
    return conj(neg(le(L, num(k - 1))), veq(leaf(TM.slice_(n, TM.sub(L, num(k)), L)), s(x)))


# ------------------------------------------------------------------ files
IO = re.compile(r'^(std::fs::(read|write|remove_file|rename|copy|read_to_string|create_dir\w*)|std::fs::(File|OpenOptions)::(open|create|create_new|set_len|sync_\w+)|serde_json::((de|ser|value)::)?(from|to)_\w+|shellexpand::\w+|std::io::(Read|Write)::\w+)\b')
READ = ('std::fs::read_to_string', 'std::fs::read', 'std::fs::File::open', 'std::fs::OpenOptions::open', 'std::io::read_to_string')
WRAP = ('std::io::BufReader::new', 'std::fs::OpenOptions', 'OpenOptions.', 'std::str::from_utf8', 'std::string::String::from_utf8', 'std::path::Path::join', 'std::io::Read::')


def head(n):
    return re.sub(r'(::)?<[^<>]*>', '', re.sub(r'(::)?<[^<>]*>', '', n)).split('!')[0]


def contents(ck, name, d, path, w, peel=()):
    """Every value of the diagram d is the parse of the file at path."""
    xs = [x for x in leaves(d)]
    if not xs:
        ck.und(name, w, 'no value')
    for x in xs:
        y = x
        for k in reversed(peel):
            if y.op in ('fld', 'vfld') and y.args[-1] == k:
                y = y.args[0]
            else:
                return ck.fail(name, w, 'hands back %s' % show(x)[:300])
        if y.op == 'vfld' and y.args[1] == 'Ok':
            y = y.args[0]
        if y.op != 'app' or not re.search(r'serde_json::(de::)?from_(str|slice|reader)', y.args[0]):
            (ck.und if has_unk(y) else ck.fail)(name, w, 'hands back %s' % show(x)[:300])
            continue
        src = y.args[1][0]
        bad, seen, found = [], set(), False

        def go(z):
            nonlocal found
            if id(z) in seen:
                return
            seen.add(id(z))
            if z is path:
                found = True
                return
            if isinstance(z, TM.Term):
                if z.op in ('app', 'unk') and not any(head(z.args[0]).startswith(r) for r in READ + WRAP):
                    bad.append(z)
                for a in z.args:
                    go(a)
            elif isinstance(z, (TM.Node,)):
                for v in support(z):
                    go(VARS[v])
                for q in leaves(z):
                    go(q)
            elif isinstance(z, tuple):
                for q in z:
                    go(q)
        go(src)
        if bad and not found:
            ck.und(name, w, 'source %s' % show(src)[:300])
        elif not found:
            ck.fail(name, w, 'reads %s' % show(src)[:300])
        elif bad:
            ck.und(name, w, 'source %s' % show(src)[:300])
        else:
            ck.ok(name, w)


def joined(d, n):
    return leafval(App('std::path::Path::join', d, st(n)))


def run(P, f, **kw):
    return P.run(f, fallible=lambda n: bool(IO.search(n)), **kw)


def loud(ck, name, R, w, but=F):
    ck.holds('%s: success means every read and parse succeeded' % name, implies(conj(is_ok(R.ret), neg(but)), neg(R.err)), w)
    ck.holds('%s: no panic' % name, neg(panics(R)), w)


def phonebook(P, ck):
    f = P.fn('load_phonebook')
    R = run(P, f)
    loud(ck, 'load_phonebook', R, loc(f))
    contents(ck, 'load_phonebook hands back the list in the file', care(payload(R.ret), is_ok(R.ret)), joined(R.p[0], 'phonebook.json'), loc(f), peel=('include',))


WRITERS = re.compile(r'serde_json::(ser::)?to_writer(_pretty)?$|std::fs::write$')
OPENERS = re.compile(r'std::fs::(File::create|OpenOptions::open|write)$')


def options(t):
    """Options an OpenOptions term was built with."""
    r = {}
    while t.op == 'app' and t.args[0].startswith('OpenOptions.'):
        r.setdefault(t.args[0].split('.')[1], t.args[1][1])
        t = t.args[1][0]
    return r if t.op == 'app' else None


def mentions(n, t):
    return any(x is t for x in subterms(n))


def stores(ck, name, R, good, path, value, w):
    """Whenever good, the value has replaced the contents of the file at path."""
    done = []
    for e in R.events:
        nm = e.name.split('<')[0]
        if not WRITERS.search(nm):
            continue
        if nm.endswith('fs::write'):
            txt = e.args[1]
            okv = all(any(x.op == 'app' and re.search(r'serde_json::(ser::)?to_(string|vec)(_pretty)?$', x.args[0].split('<')[0]) and veq(nod(x.args[1][0]), value) is T for x in subterms(leaf(y))) for y in leaves(txt))
            fits = okv and all(mentions(leaf(y), path) for y in leaves(e.args[0]))
            (ck.ok if fits else ck.fail)('%s: what is written is the value, to the file it is read from' % name, w, show(txt)[:300])
            done.append(conj(e.cond, is_ok(e.res)))
            continue
        ck.same('%s: what is written is the value' % name, care(e.args[1], e.cond), value, w, assume=e.cond)
        for y in leaves(care(e.args[0], e.cond)):
            ops = [z for z in subterms(leaf(y)) if z.op == 'app' and OPENERS.search(z.args[0].split('<')[0])]
            if len(ops) != 1:
                ck.und('%s: the file written' % name, w, show(y)[:300])
                continue
            o = ops[0]
            if not mentions(leaf(o), path):
                ck.fail('%s: the file written is the one that is read' % name, w, show(o)[:300])
            else:
                ck.ok('%s: the file written is the one that is read' % name, w)
            if o.args[0].split('<')[0].endswith('OpenOptions::open'):
                op = options(o.args[1][0])
                if op is None:
                    ck.und('%s: open options' % name, w, show(o)[:300])
                    continue
                on = lambda k: k in op and leaf(op[k]) is leaf(TM.TRUE)
                for k in ('write', 'truncate', 'create'):
                    (ck.ok if on(k) or k in ('create', 'truncate') and on('create_new') else ck.fail)('%s: opened with %s' % (name, k), w, show(o)[:300])
                if on('append') or on('create_new'):
                    ck.fail('%s: an existing file is replaced' % name, w, show(o)[:300])
        done.append(conj(e.cond, is_ok(e.res)))
    if not done and any(has_unk(x) for e in R.events for a in e.args for x in leaves(a)):
        return ck.und('%s: success means it was written' % name, w, 'writes the analysis does not interpret')
    ck.holds('%s: success means it was written' % name, implies(good, disj(*done)), w)


def os_models():
    """A path made of strings is a string; environment variables in it are looked up under their own name."""
    def into_string(c, x):
        return mapleaves(IT.val(c, x), lambda y: Ok_(y))
    return {'std::ffi::OsString::into_string': into_string}


def phonebook_saved(P, ck):
    f = P.fn('save_phonebook_to_disk')
    R = run(P, f, models=os_models())
    en, root = R.p
    ck.holds('save_phonebook_to_disk: success means every step succeeded', implies(is_ok(R.ret), neg(R.err)), loc(f))
    for v in [rec(P, 'PhonebookBlackWhiteList', include=en)]:
        stores(ck, 'save_phonebook_to_disk', R, is_ok(R.ret), joined(root, 'phonebook.json'), v, loc(f))


# ------------------------------------------------------------------ local settings
def is_map(c, i):
    t = c.tys[i] if c.tys else None
    T_ = c.fr.T
    while t is not None and t['k'] == 'ref':
        t = T_[t['of']]
    return t is not None and 'serde_json::Map' in t['s'] or t is not None and t.get('path', '').startswith('serde_json') and t['path'].endswith('Map')


def json_models(P):
    """serde_json's value tree: a struct is an object of its fields; extending an object replaces the fields given."""
    def to_value(c, x):
        v = IT.val(c, x)
        t = c.tys[0]
        while t['k'] == 'ref':
            t = c.fr.T[t['of']]
        if t['k'] != 'struct' or not t.get('local'):
            return NotImplemented
        return mapleaves(v, lambda y: Ok_(leaf(TM.adt('serde_json::Value', 'Object', ('0',), (app('json fields', y),)))))

    def extend(c, m, o):
        if not is_map(c, 0):
            return NotImplemented
        IT.wr(c, m, lift2(lambda a, b: leaf(app('json over', a, b)), IT.val(c, m), IT.val(c, o)))
        return leaf(IT.UNIT)
    return {'serde_json::to_value': to_value, 'serde_json::value::to_value': to_value, 'std::iter::Extend::extend': extend, 'serde_json::Map::append': extend, 'serde_json::map::Map::append': extend}


def merged(ck, name, d, cond, base, src, w):
    """Under cond, d is what the object base overridden by the parse of src decodes to."""
    xs = list(leaves(care(d, cond)))
    for x in xs:
        y = x
        if y.op == 'vfld' and y.args[1] == 'Ok':
            y = y.args[0]
        if not (y.op == 'app' and y.args[0].split('<')[0].endswith('from_value')):
            (ck.und if has_unk(x) else ck.fail)(name, w, 'becomes %s' % show(x)[:400])
            continue
        z = y.args[1][0]
        if z.op == 'adt' and z.args[1] == 'Object':
            z = z.args[3][0]
        if has_unk(z):
            ck.und(name, w, show(z)[:400])
            continue
        if not (z.op == 'app' and z.args[0] == 'json over'):
            ck.fail(name, w, 'decoded from %s' % show(z)[:400])
            continue
        b, o = z.args[1]
        good = b.op == 'app' and b.args[0] == 'json fields' and veq(nod(b.args[1][0]), base) is T
        (ck.ok if good else ck.fail)(name + ': starts from the present settings', w, show(b)[:300])
        contents(ck, name + ': overridden by what is read', leaf(o), src, w)
    if not xs:
        ck.und(name, w, 'never succeeds')


RELAY = ('archival', 'enable_ledger_service', 'enable_block_service')


def settings(P, ck):
    f = P.fn('config::Local::load')
    M = json_models(P)
    R = run(P, f, models=M)
    me, content = R.p
    w = loc(f)
    good = is_ok(R.ret)
    loud(ck, 'Local::load', R, w)
    ck.same('Local::load: nothing changes on error', R.out['self'], me, w, assume=neg(good))
    merged(ck, 'Local::load', R.out['self'], good, me, leafval(content.n), w)
    t = me.t
    f = P.fn('config::Local::merge_from_file')
    for f in [x for x in P.lib.fns if x['path'].endswith('config::Local::merge_from_file') and x.get('blocks')]:
        R = run(P, f, models=M)
        w = loc(f)
        me, path = R.p
        good = is_ok(R.ret)
        loud(ck, 'merge_from_file', R, w)
        out = V(R.out['self'], t, P.lib)
        # the settings without the relay rule
        src = [x for x in subterms(R.ret) if x.op == 'vfld' and x.args[0].op == 'app' and x.args[0].args[0].startswith('serde_json') and 'from_value' in x.args[0].args[0] and x.args[1] == 'Ok']
        src = list(dict.fromkeys(src)) or [x for x in list(dict.fromkeys(subterms(R.out['self']))) if x.op == 'vfld' and x.args[0].op == 'app' and 'from_value' in x.args[0].args[0]]
        if not src and good is not F and not has_unk(R.ret) and not has_unk(R.out['self']):
            ck.fail('merge_from_file: the settings of the file are read', w, 'it succeeds without decoding anything')
            continue
        if len(src) != 1:
            ck.und('merge_from_file', w, '%d decoded values' % len(src))
            continue
        y = V(leaf(src[0]), t, P.lib)
        ck.rules.append('decoded settings: %s' % show(src[0])[:200])
        merged(ck, 'merge_from_file', leaf(src[0]), T, me, leafval(path.n) if is_leaf(path.n) else None, w)
        for k, _ in y._fields()[0]:
            want = ite(Gt(y.net_address.len(), 0), leaf(TM.TRUE), y.f(k).n) if k in RELAY else y.f(k).n
            ck.same('merge_from_file: %s is the one read%s' % (k, ', and on for relays' if k in RELAY else ''), out.f(k), want, w, assume=good)


def settings_from(P, ck):
    M = json_models(P)
    for nm in ('load_from_file', 'load_from_disk'):
        for f in [x for x in P.lib.fns if x['path'].endswith('config::Local::' + nm) and x.get('blocks') and x.get('dk') != 'Closure']:
            R = run(P, f, models=M)
            w = loc(f)
            loud(ck, nm, R, w)
            d = payload(R.ret)
            t = P.type('config::Local')
            base = V(default_val(P, t), t, P.lib)
            src = [x for x in dict.fromkeys(subterms(R.ret)) if x.op == 'app' and x.args[0] == 'json fields']
            if not src and is_ok(R.ret) is not F and not has_unk(R.ret):
                ck.fail(nm + ': the settings of the file are read', w, 'it succeeds without decoding anything')
                continue
            if len(src) != 1:
                ck.und(nm, w, '%d decoded values' % len(src))
                continue
            start = V(leaf(src[0].args[1][0]), t, P.lib)
            for k, _ in start._fields()[0]:
                ck.same('%s: %s starts from the default' % (nm, k), start.f(k), leaf(num(0)) if k == 'version' else base.f(k), w)
            path = R.p[0]
            path = leafval(path.n) if nm == 'load_from_file' else joined(path, 'config.json')
            over = [x for x in dict.fromkeys(subterms(R.ret)) if x.op == 'app' and x.args[0] == 'json over']
            for x in over:
                contents(ck, nm + ': overridden by what is in the file', leaf(x.args[1][1]), path, w)


def settings_saved(P, ck):
    f = P.fn('config::Local::save_to_file')
    R = run(P, f)
    me, path = R.p
    ck.holds('save_to_file: success means every step succeeded', implies(is_ok(R.ret), neg(R.err)), loc(f))
    stores(ck, 'save_to_file', R, is_ok(R.ret), leafval(path.n), me.n, loc(f))
    f = P.fn('config::Local::save_to_disk')
    R = run(P, f, models=os_models())
    me, root = R.p
    ck.holds('save_to_disk: success means every step succeeded', implies(is_ok(R.ret), neg(R.err)), loc(f))
    stores(ck, 'save_to_disk', R, is_ok(R.ret), joined(root, 'config.json'), me.n, loc(f))


# ------------------------------------------------------------------ consensus overrides
def cons_models():
    return {'ConsensusProtocols::merge': lambda c, m, o: App('merged', IT.val(c, m), IT.val(c, o))}


def preload(P, ck):
    f = P.fn('preload_configurable_consensus_protocols')
    R = run(P, f, models=cons_models())
    d, cur = R.p
    w = loc(f)
    path = joined(d, 'consensus.json')
    absent = gone(R)
    loud(ck, 'preload', R, w, but=absent)
    if absent is F:
        ck.und('preload: a missing file leaves the built-in protocols', w, 'no test for a missing file')
    else:
        ck.same('preload: a missing file leaves the built-in protocols', payload(R.ret), cur, w, assume=absent)
        ck.holds('preload: a missing file is no error', is_ok(R.ret), w, assume=absent)
    ck.same('preload: the protocols passed in are left alone', R.out.get('consensus', cur.n), cur, w)
    good = conj(is_ok(R.ret), neg(absent))
    for x in leaves(care(payload(R.ret), good)):
        if x.op == 'app' and x.args[0] == 'merged':
            ck.same('preload: merged over the built-in protocols', leaf(x.args[1][0]), cur, w)
            contents(ck, 'preload: what is merged is the file', leaf(x.args[1][1]), path, w)
        else:
            (ck.und if has_unk(x) else ck.fail)('preload: the file merged over the built-in protocols', w, show(x)[:300])


def gone(R):
    """The condition that a failed operation failed with NotFound."""
    c = F
    for v in support(R.ret):
        t = VARS[v]
        if t.op == 'var' and t.args[1] == 'NotFound':
            k = t.args[0]
            src = [x for x in subterms(leaf(k)) if x.op == 'vfld' and x.args[1] == 'Err']
            if src:
                c = disj(c, conj(mapleaves(leaf(k), lambda x: is_variant(x, 'NotFound')), neg(is_ok(leaf(src[0].args[0])))))
    return c


def load_consensus(P, ck):
    f = P.fn('load_configurable_consensus_protocols')
    R = run(P, f, models={'preload_configurable_consensus_protocols': lambda c, d, m: App('preloaded', d, IT.val(c, m))})
    d, cur = R.p
    w = loc(f)
    pre = App('preloaded', d, cur)
    good = is_ok(R.ret)
    ck.iff('load: an error exactly when the file cannot be read', good, is_ok(pre), w)
    v = V(payload(pre), cur.t, P.lib)
    full = Gt(v.len(), 0)
    ck.same('load: the protocols become the merged ones', R.out['consensus'], v, w, assume=conj(good, full))
    ck.same('load: nothing changes on error', R.out['consensus'], cur, w, assume=neg(good))


def save_consensus(P, ck):
    f = P.fn('save_configurable_consensus')
    R = run(P, f)
    d, ps = R.p
    w = loc(f)
    path = joined(d, 'consensus.json')
    empty = neg(Gt(ps.len(), 0))
    absent = gone(R)
    loud(ck, 'save', R, w, but=absent)
    good = is_ok(R.ret)
    stores(ck, 'save', R, conj(good, neg(empty)), path, ps.n, w)
    rm = [e for e in R.events if e.name.split('<')[0].endswith('fs::remove_file')]
    for e in rm:
        ck.holds('save: the file is removed only if there is nothing to save', implies(e.cond, empty), w)
        (ck.ok if all(mentions(leaf(y), path) for y in leaves(e.args[0])) else ck.fail)('save: the file removed is the one that is read', w, show(leafval(e.args[0]) if is_leaf(e.args[0]) else e.args[0])[:200])
    ck.holds('save: with nothing to save, success means the file is gone', implies(conj(good, empty), disj(*[conj(e.cond, disj(is_ok(e.res), absent)) for e in rm])), w)


def put_in(x):
    """What a map operation puts in."""
    return subterms(leaf(x.args[2])) if x.op == 'mapins' else subterms(leaf(x.args[1][1])) if x.op == 'app' else ()


def merge(P, ck):
    """Overrides without upgrades delete their protocol and every upgrade to it, before the others are put in."""
    f = P.fn('ConsensusProtocols::merge')
    R = P.run(f)
    me, cfg = R.p
    w = loc(f)
    ck.holds('merge: no panic', neg(panics(R)), w)
    ck.same('merge: the built-in protocols are left alone', R.out.get('self', me.n), me, w)
    shape = lambda what, x: ck.und('merge: ' + what, w, 'not a pass of deletions followed by a pass of insertions: %s' % show(x)[:300])
    if len(list(leaves(R.ret))) != 1:
        return shape('result', R.ret)
    x = next(iter(leaves(R.ret)))
    # insertions
    PT = P.type('ConsensusParams')
    K, VS = app('keys', leafval(cfg.n)), None
    if x.op == 'app' and x.args[0] == 'mapall' and x.args[1][1].op == 'coll':
        y, c = x.args[1]
        d, lo, hi, body = c.args[:4]
        acc = None
    elif x.op == 'fold' and not has_unk(x.args[4]):
        c = x
        d, lo, hi, y, body = x.args[:5]
        acc = TM.mk('lv', d, 'acc')
        y = y if isinstance(y, TM.Term) else leafval(y)
    else:
        return shape('result', x)
    i = TM.mk('idx', d, lo, hi)
    vs = [t for t in subterms(body) if t.op == 'index' and t.args[1] is i and t.args[0].op == 'app' and t.args[0].args[0] == 'values']
    if not has_unk(x) and not any(t.op == 'app' and t.args[0] in ('values', 'entries') and t.args[1][0] is leafval(cfg.n) for v in subterms(x) if v.op == 'mapins' or v.op == 'app' and v.args[0] == 'mapall' for t in put_in(v)):
        return ck.fail('merge: every override with upgrades is put in', w, 'no override reaches the result')
    if not vs or len(set(vs)) != 1 or vs[0].args[0].args[1][0] is not leafval(cfg.n) or not veq(leaf(hi), cfg.len()) is T:
        return shape('insertions', c)
    pv = V(leaf(vs[0]), PT, P.lib)
    gone_ = neg(Gt(pv.approved_upgrades.len(), 0))
    kt = leaf(TM.mk('index', K, i))
    for t in leaves(body):
        at = cond_of(body, lambda z: z is t)
        if t is acc or t == ():
            ck.holds('merge: every override with upgrades is put in', implies(at, gone_), w)
            continue
        if acc is not None:
            if t.op != 'mapins' or t.args[0] is not acc:
                return shape('insertions', t)
            k, v = t.args[1], t.args[2]
        elif len(t) == 1 and t[0].op == 'adt' and len(t[0].args[3]) == 2:
            k, v = t[0].args[3]
        elif len(t) == 1 and t[0].op == 'index' and t[0].args[0].op == 'app' and t[0].args[0].args[0] == 'entries':
            k, v = TM.fld(t[0], '0'), TM.fld(t[0], '1')
        else:
            return shape('insertions', c)
        ck.holds('merge: no override without upgrades is put in', implies(at, neg(gone_)), w)
        ck.same('merge: an override is put in under its own version', leaf(k), kt, w)
        ck.same('merge: an override is put in as it is', leaf(v), pv, w)
    # deletions
    if y is leafval(me.n):
        return ck.fail('merge: deletions take effect', w, 'overrides without upgrades are ignored')
    if y.op != 'fold':
        return shape('deletions', y)
    d, lo, hi, init, body = y.args[:5]
    i = TM.mk('idx', d, lo, hi)
    acc = TM.mk('lv', d, 'acc')
    ck.same('merge: the result starts from the built-in protocols', leaf(init) if isinstance(init, TM.Term) else init, me, w)
    if not veq(leaf(hi), cfg.len()) is T or lo is not num(0):
        return shape('deletions', y)
    pv = V(leaf(TM.mk('index', vs[0].args[0], i)), P.type('ConsensusParams'), P.lib)
    gone_ = neg(Gt(pv.approved_upgrades.len(), 0))
    kt = TM.mk('index', app('keys', leafval(cfg.n)), i)
    drop = app('mapdel', acc, kt)
    for t in leaves(body):
        at = cond_of(body, lambda z: z is t)
        if t is acc:
            ck.holds('merge: every override without upgrades deletes its protocol', implies(at, neg(gone_)), w)
            continue
        ck.holds('merge: only overrides without upgrades delete', implies(at, gone_), w)
        if has_unk(t):
            shape('deletions', t)
            continue
        mid = t
        if t.op == 'fold':
            mid = leafval(t.args[3]) if not isinstance(t.args[3], TM.Term) else t.args[3]
        (ck.ok if mid is drop else ck.fail)('merge: the protocol deleted is the override\'s own', w, show(mid)[:300])
        if t.op != 'fold':
            ck.fail('merge: upgrades to a deleted protocol are deleted', w, show(t)[:300])
            continue
        d2, lo2, hi2, _, b2 = t.args[:5]
        j = TM.mk('idx', d2, lo2, hi2)
        a2 = TM.mk('lv', d2, 'acc')
        all_ = lo2 is num(0) and veq(leaf(hi2), leaf(TM.length(mid))) is T
        (ck.ok if all_ else ck.fail)('merge: every remaining protocol loses its upgrades to it', w, '%s..%s' % (show(lo2), show(hi2)))
        for z in leaves(b2):
            if z.op != 'mapins' or z.args[0] is not a2:
                (ck.fail if z is a2 else ck.und)('merge: every remaining protocol loses its upgrades to it', w, show(z)[:300])
                continue
            k2 = TM.mk('index', app('keys', mid), j)
            (ck.ok if z.args[1] is k2 else ck.fail)('merge: a protocol stays under its own version', w, show(z.args[1])[:300])
            old = V(leaf(TM.vfld(app('get', a2, k2), 'Some', '0')), P.type('ConsensusParams'), P.lib)
            new = V(leaf(z.args[2]), old.t, P.lib)
            for k, _ in old._fields()[0]:
                if k != 'approved_upgrades':
                    ck.same('merge: %s of a remaining protocol is kept' % k, new.f(k), old.f(k), w)
            u = leafval(new.approved_upgrades.n)
            (ck.ok if u.op == 'app' and u.args[0] == 'mapdel' and u.args[1][1] is kt and veq(leaf(u.args[1][0]), old.approved_upgrades) is T else ck.fail)('merge: a remaining protocol loses exactly the upgrade to the deleted one', w, show(u)[:300])
    for z in R.I.loop_stops:
        ck.und('merge: passes', w, 'a pass may stop early')
