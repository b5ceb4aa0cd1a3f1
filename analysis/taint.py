"""Where secret values flow: an interprocedural, flow-insensitive taint analysis over the MIR facts.

A local is tainted if it may hold bytes of a secret.  Values whose type cannot carry the bytes of a secret
(lengths, booleans, digests, public keys, signatures ...) never become tainted.
"""
from effects import steps

PUBLIC = ('PublicKey', 'Signature', 'CryptoHash', 'VrfPublicKey', 'VrfProof', 'VrfOutput', 'EdwardsPoint', 'CompressedEdwardsY', 'Address', 'SignedTx', 'OTS', 'TxID',
          'Fault', 'Error', 'Formatter', 'Arguments', 'File', 'OpenOptions')
FOREIGN_SECRET = ('ed25519_dalek::SecretKey', 'ed25519_dalek::Keypair', 'ed25519_dalek::ExpandedSecretKey')


class Types:
    def __init__(self, C, extra=()):
        self.C, self.T = C, C.T
        self.extra = set(extra)          # paths of local types that hold secrets
        self.car, self.sec = {}, {}

    def _kids(self, t):
        T = self.T
        k = []
        if t.get('of') is not None:
            k.append(t['of'])
        k += [a for a in t.get('args') or [] if isinstance(a, int)]
        for v in t.get('variants') or []:
            k += [f[1] for f in v['fields']]
        return [T[x] for x in k]

    def walk(self, t, stop, seen=None):
        """Does some component of the type satisfy `stop`? (stop -> True / False / None to look inside)"""
        seen = set() if seen is None else seen
        key = id(t)
        if key in seen:
            return False
        seen.add(key)
        r = stop(t)
        if r is not None:
            return r
        return any(self.walk(x, stop, seen) for x in self._kids(t))

    def secret(self, t):
        """The type holds private key material."""
        k = id(t)
        if k not in self.sec:
            def stop(x):
                p = x.get('path') or x.get('s') or ''
                if p in FOREIGN_SECRET or p in self.extra:
                    return True
                return None
            self.sec[k] = self.walk(t, stop)
        return self.sec[k]

    def carrier(self, t):
        """Values of the type may carry secret bytes."""
        k = id(t)
        if k not in self.car:
            def stop(x):
                p = (x.get('path') or '').split('::')[-1]
                if x['k'] in ('struct', 'enum') and (p in PUBLIC or p.endswith(('Error', 'PublicKey'))):
                    return False
                if x['s'] in ('u8', 'str', 'u32', 'char') or p == 'String':
                    return True
                if (x.get('path') or '') in FOREIGN_SECRET:
                    return True
                if x['k'] in ('closure', 'param', 'dyn', 'opaque', 'fndef'):
                    return x['k'] == 'closure'
                if x['k'] in ('struct',) and not x.get('local') and not (x.get('variants') or [{}])[0].get('fields') and not x.get('args'):
                    return True      # a foreign type of unknown contents
                return None
            self.car[k] = self.walk(t, stop)
        return self.car[k]


def operands(r):
    """The operands and places an rvalue reads."""
    k = r[0]
    if k == 'use':
        return [r[1]]
    if k in ('ref', 'reborrow', 'addr', 'rawptr'):
        return [['cp', r[2]]]
    if k == 'cast':
        return [r[2]]
    if k == 'bin':
        return [r[2], r[3]]
    if k == 'un':
        return [r[2]]
    if k == 'repeat':
        return [r[1]]
    if k == 'agg':
        return list(r[3])
    return []


class Taint:
    def __init__(self, C, types, sources, source_field, sanitizer, secret_result=lambda f: False):
        """sources(f): parameter numbers that are secret; source_field(type, field): reading it yields a secret;
        sanitizer(path): results of the call are not secret; secret_result(f): what f returns is a secret."""
        self.C, self.ty = C, types
        self.secret_result = secret_result
        self.sf, self.san = source_field, sanitizer
        self.fns = {f['id']: f for f in C.fns if f.get('local') and f.get('blocks')}
        self.params = {i: set(sources(f)) for i, f in self.fns.items()}
        self.closures = {}
        for i, f in self.fns.items():
            if f.get('dk') == 'Closure':
                self.closures.setdefault(f['path'], []).append(i)
        self.ret = set()
        self.tainted = {}
        self.why = {}
        work = list(self.fns)
        callers = {}
        for i, f in self.fns.items():
            for b in f['blocks']:
                t = b['t']
                if t[0] == 'call' and t[1][0] == 'fn':
                    callers.setdefault(t[1][2], set()).add(i)
        seen = set(work)
        while work:
            i = work.pop()
            seen.discard(i)
            before = i in self.ret
            for j in self.body(i):
                if j in self.fns and j not in seen:
                    seen.add(j)
                    work.append(j)
            if (i in self.ret) != before:
                for j in callers.get(i, ()):
                    if j not in seen:
                        seen.add(j)
                        work.append(j)

    def body(self, i):
        """Recomputes the tainted locals of a function; yields callees whose tainted parameters grew."""
        f = self.fns[i]
        T = self.C.T
        tn = self.tainted.setdefault(i, set())
        for p in self.params[i]:
            tn.add(p)
        for l in self.backward(f):
            tn.add(l)
        out = set()

        def lt(l):
            return T[f['locals'][l]]

        def place(p):
            st, end = steps(f, p, T)
            for t, e in st:
                if isinstance(e, list) and e[0] == 'f' and self.sf(t, e[1]):
                    return True
            if p[0] not in tn:
                return False
            if end.get('s') == '?':
                return True
            return self.ty.carrier(end)

        def op(o):
            return o and o[0] in ('cp', 'mv') and place(o[1])

        def mark(p):
            if p[0] not in tn and self.ty.carrier(lt(p[0])):
                tn.add(p[0])
                return True
            return False
        grow = True
        while grow:
            grow = False
            for b in f['blocks']:
                for s in b['s']:
                    if s[0] == '=' and s[2]:
                        if any(op(o) for o in operands(s[2])):
                            grow |= mark(s[1])
                            if s[2][0] == 'agg' and s[2][1] == 'closure' and s[2][2] in self.fns and 1 not in self.params[s[2][2]]:
                                self.params[s[2][2]].add(1)
                                out.add(s[2][2])
                t = b['t']
                if t[0] != 'call':
                    continue
                args = t[2]
                hot = [k for k, a in enumerate(args) if op(a)]
                callee = t[1]
                for j, a in enumerate(args):
                    # a closure called back on (parts of) the other arguments
                    if a and a[0] in ('cp', 'mv') and any(k != j for k in hot):
                        q = lt(a[1][0])
                        while q['k'] == 'ref':
                            q = T[q['of']]
                        for c in self.closures.get(q.get('path'), ()) if q['k'] == 'closure' else ():
                            for n in range(2, self.fns[c]['argc'] + 1):
                                if n not in self.params[c] and self.ty.carrier(T[self.fns[c]['locals'][n]]):
                                    self.params[c].add(n)
                                    out.add(c)
                if callee[0] == 'fn' and callee[2] in self.fns:
                    g = self.fns[callee[2]]
                    for k in hot:
                        if k + 1 <= g['argc'] and k + 1 not in self.params[callee[2]]:
                            self.params[callee[2]].add(k + 1)
                            out.add(callee[2])
                    if callee[2] in self.ret and t[3] and not self.san(callee[1]):
                        grow |= mark(t[3])
                    # what a callee writes through a reference argument
                    for k, a in enumerate(args):
                        if a and a[0] in ('cp', 'mv') and -(k + 1) in self.params[callee[2]]:
                            grow |= mark(a[1])
                elif hot and not (callee[0] == 'fn' and self.san(callee[1])):
                    if t[3]:
                        grow |= mark(t[3])
                    for a in args:
                        if a and a[0] in ('cp', 'mv'):
                            q = lt(a[1][0])
                            if q['k'] == 'ref' and q.get('mut'):
                                grow |= mark(a[1])
                elif callee[0] == 'fn' and self.makes(callee[1]) and t[3]:
                    grow |= mark(t[3])
            # a reference and what it refers to share their taint
            for b in f['blocks']:
                for s in b['s']:
                    if s[0] == '=' and s[2] and s[2][0] in ('ref', 'reborrow') and s[1][0] in tn and s[2][1]:
                        grow |= mark(s[2][2])
        if 0 in tn:
            self.ret.add(i)
        return out

    def makes(self, path):
        return False

    def backward(self, f):
        """The locals whose bytes become a value of a secret type, or the secret the function returns."""
        T = self.C.T
        L = f['locals']
        tn = {l for l in range(len(L)) if self.becomes(T[L[l]])}
        if self.secret_result(f):
            tn.add(0)

        def add(o):
            if not o or o[0] not in ('cp', 'mv') or o[1][0] in tn:
                return False
            st, end = steps(f, o[1], T)
            if len(o[1]) > 1 and not self.ty.carrier(end) or not self.ty.carrier(T[L[o[1][0]]]):
                return False
            if any(isinstance(e, list) and e[0] == 'f' for e in o[1][1:]) and T[L[o[1][0]]].get('local'):
                return False
            tn.add(o[1][0])
            return True

        def lookup(t):
            """The call consults a foreign object (a database, a source of randomness)."""
            for a in t[2]:
                if a and a[0] in ('cp', 'mv'):
                    q = T[L[a[1][0]]]
                    if q['k'] == 'ref':
                        u = T[q['of']]
                        if u['k'] == 'struct' and not u.get('local') and (u.get('path') or '').split('::')[-1] not in ('Vec', 'String', 'IVec'):
                            return True
                        if u['k'] == 'struct' and u.get('local') and (u.get('path') or '').startswith(('data::account::KEY', 'crypto::mnemonic::WORDS')):
                            return True
            return False
        grow = True
        while grow:
            grow = False
            for b in f['blocks']:
                for s in b['s']:
                    if s[0] == '=' and s[2] and s[1][0] in tn:
                        q = T[L[s[1][0]]]
                        if q.get('local') and q['k'] in ('struct', 'enum') and not self.ty.secret(q):
                            continue
                        for o in operands(s[2]):
                            grow |= add(o)
                t = b['t']
                if t[0] == 'call' and t[3] and t[3][0] in tn and not lookup(t):
                    for o in t[2]:
                        grow |= add(o)
        return tn

    def becomes(self, t):
        while t['k'] in ('ref', 'ptr'):
            t = self.C.T[t['of']]
        return self.ty.secret(t) and not self.closed(t)

    def closed(self, t):
        return t['k'] in ('closure',) or bool(t.get('local')) and (t.get('path') or '') not in self.ty.extra

    def hot(self, f, o):
        i = f['id']
        if not o or o[0] not in ('cp', 'mv'):
            return False
        st, end = steps(f, o[1], self.C.T)
        if any(isinstance(e, list) and e[0] == 'f' and self.sf(t, e[1]) for t, e in st):
            return True
        return o[1][0] in self.tainted.get(i, ())
