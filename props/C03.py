"""Hashed bytes are a function of the value alone."""
from spec import *
import terms as TM
from encoding import Encoding, norm
import C01

RULE = 'no type whose encoding is part of a hashed one is a randomly ordered container, floating point, an address or a clock reading, and what the implementations write, and when, depends on the value only'
PARTS = ['types', 'values', 'inputs']

RANDOM = ('std::collections::HashMap', 'std::collections::HashSet', 'std::collections::hash_map', 'std::collections::hash_set', 'hashbrown::', 'std::collections::BinaryHeap')
CLOCKS = ('std::time::', 'chrono::', 'time::')
ORDERED = ('std::vec::Vec', 'std::option::Option', 'std::collections::BTreeMap', 'std::collections::BTreeSet', 'std::collections::VecDeque', 'std::collections::LinkedList', 'std::string::String', 'std::boxed::Box', 'std::rc::Rc',
           'std::sync::Arc', 'std::borrow::Cow', 'std::result::Result', 'std::marker::PhantomData', 'std::num::', 'serde_bytes::')
# external types with an encoding of fixed bytes
BYTES = ('ed25519_dalek::Signature', 'ed25519::Signature', 'ed25519_dalek::PublicKey', 'ed25519_dalek::SecretKey', 'ed25519_dalek::Keypair', 'num_bigint::')
AMBIENT = ('std::time::', 'rand::', 'rand_core::', 'std::env::', 'std::process::', 'std::thread::', 'Atomic', 'RandomState', 'getrandom::', 'std::fs::', 'std::ptr::', 'as_ptr', 'DefaultHasher', 'BuildHasher')
ITER = ('HashMap', 'HashSet', 'hash_map', 'hash_set', 'hashbrown')


def types(P, ck):
    E = Encoding(P)
    H = C01.hashables(P)
    reach = E.types(list(H))
    if len(reach) < 40:
        ck.und('types', '', 'only %d encoded types reached' % len(reach))
    for s, via in sorted(reach.items()):
        t = E.bystr.get(s)
        S = E.shape(s)
        where = loc(S.f) if S else 'encoded as ' + via
        path = (t or {}).get('path') or s
        if S is None and s in H:
            continue      # it is not encoded itself: what it hashes instead is the subject of 'inputs'
        bad = None
        if path.startswith(RANDOM):
            bad = 'it is encoded in an order that changes from run to run (%s)' % via
        elif path.startswith(CLOCKS):
            bad = 'it is a clock reading (%s)' % via
        elif t is not None and t['k'] == 'float' or s in ('f32', 'f64'):
            bad = 'it is a floating point number (%s)' % via
        elif t is not None and t['k'] in ('ptr', 'fnptr', 'fndef'):
            bad = 'it is an address (%s)' % via
        if bad:
            ck.fail('%s is encoded the same in every run' % s, where, bad)
            continue
        known = S is not None or t is not None and (t['k'] in ('int', 'bool', 'char', 'str', 'array', 'slice', 'tuple', 'ref') or path.startswith(ORDERED) or path.startswith(BYTES)) or s in ('str', 'bool', 'char')
        if not known and t is not None and not t.get('local'):
            ck.und('%s is encoded the same in every run' % s, where, 'an external type whose encoding is not known')
        elif not known:
            ck.und('%s is encoded the same in every run' % s, where, 'no implementation found')
        else:
            ck.ok('%s is encoded the same in every run' % s, where)
    # nothing else implements the encoding of these types on the side: one implementation each
    for s in sorted(reach):
        if '__SerializeWith' not in s and len(E.impls.get(s, [])) > 1:
            ck.und('%s has one encoding' % s, '', 'several implementations')


def ambient(n, own):
    for t in subterms(n):
        if t.op == 'app' and (any(a in t.args[0] for a in AMBIENT) or any(a in t.args[0] for a in ITER)):
            return 'it depends on %s' % t.args[0]
        if t.op == 'sym' and t not in own and str(t.args[0]).startswith('static:') and 'lazy' not in str(t.args[0]):
            return 'it depends on %s' % t.args[0]
        if t.op == 'sym' and str(t.args[0]) in ('rng', '#rng'):
            return 'it depends on random data'
    return None


def values(P, ck):
    E = Encoding(P)
    reach = E.types([ty for ty in C01.hashables(P)])
    for s in sorted(reach):
        for S in E.shapes(s):
            own = set(subterms(S.self_.n))
            bad, unk = None, None
            for w in S.writes:
                for n in [w.cond] + ([nod(w.val)] if w.val is not None else []):
                    b = ambient(n, own)
                    bad = bad or (b and 'line %s: %s' % (w.line, b))
                    if has_unk(n):
                        unk = 'line %s: a written value is not determined' % w.line
            nm = '%s is written from its content alone' % s.split('::')[-1]
            if bad:
                ck.fail(nm, loc(S.f), bad)
            elif unk or S.odd:
                ck.und(nm, loc(S.f), unk or str(S.odd[0]))
            else:
                ck.ok(nm, loc(S.f))


def inputs(P, ck):
    for ty, f in sorted(C01.hashables(P).items()):
        R = P.run(f)
        nm = 'what is hashed for %s depends on it alone' % ty.split('::')[-1]
        own = set(subterms(R.p[0].n))
        b = ambient(R.ret, own)
        if b:
            ck.fail(nm, loc(f), b)
        elif has_unk(R.ret):
            ck.und(nm, loc(f), 'not determined')
        else:
            ck.ok(nm, loc(f))
