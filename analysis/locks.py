"""Lock discipline over the MIR: which lock is held where, what is touched under it, and in which order locks are taken.

A forward dataflow per function over the control-flow graph. Every local has a set of access paths it may refer
to (root = reference parameter, static or owned local; then fields). Guards are tokens created by the lock
operations, carried by the locals they are moved through and gone when their holder is dropped, dies or is moved
away. Function summaries (what a function needs held, what it acquires, which guards it returns) are propagated
over the call graph to a fixpoint; nothing is executed."""
from effects import derived

ADT = ('struct', 'enum', 'union')
LOCKS = ('std::sync::RwLock', 'std::sync::Mutex')
GUARDS = ('RwLockReadGuard', 'RwLockWriteGuard', 'MutexGuard')
OPS = {'read': 'r', 'write': 'w', 'lock': 'w', 'try_read': 'r', 'try_write': 'w', 'try_lock': 'w'}
SECRET = ('Keypair', 'SecretKey', 'ExpandedSecretKey', 'EphemeralSubkey')


def short(p):
    return (p or '').split('::')[-1]


def is_lock(t):
    return t.get('k') in ADT and (t.get('path') or '').startswith('std::sync::') and short(t['path']) in ('RwLock', 'Mutex')


def refs(t):
    s = t['s']
    return '&' in s or "'" in s


class Locks:
    def __init__(self, C, owners=None):
        self.C, self.T = C, C.T
        self.byid = {f['id']: f for f in C.fns}
        self.owners = {}        # type path -> (lock field, protected field names)
        self.viol = {}
        self.undec = {}
        self.okc = {}
        self.order = {}         # (held class, acquired class) -> where
        self.find_owners()
        for t in self.T:
            for p, o in (owners or {}).items():
                if t['k'] in ADT and ((t.get('path') or '') == p or (t.get('path') or '').endswith('::' + p)):
                    self.owners[t['path']] = o
        self.fns = [f for f in C.fns if f.get('local') and f.get('blocks')]
        self.mods = {f['path'].split('::')[0] for f in self.fns if not f.get('trait') and not f['path'].startswith('<')}
        self.alias = {}
        self.sum = {f['id']: {'needs': {}, 'acq': {}, 'ret': frozenset()} for f in self.fns}
        self.closures = {}
        names = set()
        for t in self.T:
            if t['k'] in ADT and self.mine(t) and self.owner_sites(t['path']):
                names.add(t['path'])
        hot = [any(n in t['s'] for n in names) or any(g in t['s'] for g in ('RwLock', 'Mutex')) for t in self.T]
        callers = {}
        self.hot = []
        for f in self.fns:
            self.alias[f['id']] = None
            if any(hot[x] for x in f['locals']):
                self.hot.append(f)
            for b in f['blocks']:
                if b['t'][0] == 'call' and not b.get('c'):
                    for g in self.callees(b['t'][1]):
                        callers.setdefault(g['id'], set()).add(f['id'])
                    for o in b['t'][2]:
                        if o[0] in ('cp', 'mv'):
                            ot = self.walk(f, o[1])[1]
                            while ot['k'] in ('ref', 'ptr'):
                                ot = self.T[ot['of']]
                            if ot['k'] == 'closure':
                                g = self.closure_fn(ot)
                                if g is not None:
                                    callers.setdefault(g['id'], set()).add(f['id'])
        key = lambda v: (tuple(sorted(v['needs'], key=str)), tuple(sorted(v['acq'], key=str)), v['ret'])
        work = list(self.hot)
        todo = {f['id'] for f in work}
        n = 0
        while work and n < 5000:
            n += 1
            f = work.pop(0)
            todo.discard(f['id'])
            before = key(self.sum[f['id']])
            self.flow(f, False)
            if key(self.sum[f['id']]) != before:
                for c in callers.get(f['id'], ()):
                    if c not in todo:
                        todo.add(c)
                        work.append(self.byid[c])
        for f in self.fns:
            if self.alias[f['id']] is not None:
                self.flow(f, True)
        self.called = set()
        for f in self.fns:
            for b in f['blocks']:
                t = b['t']
                if t[0] == 'call' and t[1][0] == 'fn' and t[1][2] is not None:
                    self.called.add(t[1][2])
        self.roots()
        self.cycles()

    # -- the locked types
    def find_owners(self):
        for t in self.T:
            if t['k'] not in ADT or not t.get('local') or len(t.get('variants') or []) != 1:
                continue
            fs = t['variants'][0]['fields']
            lk = [n for n, ty, _ in fs if is_lock(self.T[ty]) and self.T[ty].get('args') and self.T[self.T[ty]['args'][0]]['s'] == '()']
            if lk:
                self.owners[t['path']] = [lk[0], [n for n, ty, _ in fs if n != lk[0]], t['s']]
        # of the other fields those that are changed in place somewhere
        mut = {p: set() for p in self.owners}
        for f in self.C.fns:
            if not f.get('local') or not f.get('blocks') or derived(f):
                continue
            for b in f['blocks']:
                if b.get('c'):
                    continue
                pl = []
                for s in b['s']:
                    if s[0] == '=':
                        pl.append(s[1])
                        if s[2] and s[2][0] in ('ref', 'reborrow') and s[2][1]:
                            pl.append(s[2][2])
                if b['t'][0] == 'call' and b['t'][3]:
                    pl.append(b['t'][3])
                for p in pl:
                    if '*' not in p and len(p) == 2 and False:
                        continue
                    for t, e in self.walk(f, p)[0]:
                        if isinstance(e, list) and e[0] == 'f' and t.get('path') in mut:
                            mut[t['path']].add(e[1])
        for p, (lk, names, s) in self.owners.items():
            self.owners[p] = (lk, frozenset(n for n in names if n in mut[p]), s)

    def walk(self, f, p):
        t = self.T[f['locals'][p[0]]]
        out = []
        for e in p[1:]:
            out.append((t, e))
            if e == '*':
                if t['k'] in ('ref', 'ptr'):
                    t = self.T[t['of']]
                elif t.get('args'):
                    t = self.T[t['args'][0]]
            elif e[0] == 'f':
                t = self.T[e[3]] if isinstance(e[3], int) else {'k': 'other', 's': '?'}
            elif e[0] in ('i', 'ci') and t.get('of') is not None:
                t = self.T[t['of']]
        return out, t

    # -- alias paths
    def elems(self, f, p):
        """Field elements along a place (derefs, downcasts and indices dropped)."""
        out = []
        for t, e in self.walk(f, p)[0]:
            if isinstance(e, list) and e[0] == 'f':
                out.append((t.get('path') or t['s'][:40], e[1]))
        return tuple(out)

    def paths(self, f, A, p):
        el = self.elems(f, p)
        return {(r, (q + el)[:6]) for r, q in A.get(p[0], ())}

    def aliases(self, f):
        T = self.T
        A = {}
        for i in range(1, 1 + f['argc']):
            t = T[f['locals'][i]]
            A[i] = {(('param', i), ())} if (t['k'] in ('ref', 'ptr') or refs(t) or t['k'] == 'closure') else {(('own', i), ())}
        for l in range(len(f['locals'])):
            if l not in A and T[f['locals'][l]]['k'] not in ('ref', 'ptr'):
                t = T[f['locals'][l]]
                A[l] = set() if refs(t) else {(('own', l), ())}
        ch = True
        n = 0
        while ch and n < 30:
            ch = False
            n += 1

            def add(l, S):
                nonlocal ch
                S = {x for x in S if x[0] != ('own', l)}
                cur = A.setdefault(l, set())
                if not S <= cur:
                    if len(cur) < 60:
                        cur |= S
                        ch = True
            for b in f['blocks']:
                if b.get('c'):
                    continue
                for s in b['s']:
                    if s[0] != '=':
                        continue
                    d, r = s[1], s[2]
                    if not r:
                        continue
                    dt = self.walk(f, d)[1]
                    holds = dt['k'] in ('ref', 'ptr') or refs(dt) or dt['k'] == 'closure'
                    if not holds or '*' in d:
                        continue
                    if r[0] in ('ref', 'reborrow', 'addr'):
                        add(d[0], self.paths(f, A, r[2]))
                    elif r[0] in ('use', 'cast', 'repeat'):
                        for o in r[1:]:
                            if isinstance(o, list) and o and o[0] in ('cp', 'mv'):
                                add(d[0], self.paths(f, A, o[1]))
                            elif isinstance(o, list) and o and o[0] == 'c' and isinstance(o[2], list) and o[2][0] == 'static':
                                add(d[0], {(('static', o[2][1]), ())})
                    elif r[0] == 'agg':
                        for o in self.opsof(r):
                            if o[0] in ('cp', 'mv'):
                                add(d[0], self.paths(f, A, o[1]))
                t = b['t']
                if t[0] == 'call' and t[3]:
                    dt = self.walk(f, t[3])[1]
                    if (dt['k'] in ('ref', 'ptr') or refs(dt)) and '*' not in t[3]:
                        for o in t[2]:
                            if o[0] in ('cp', 'mv'):
                                ot = self.walk(f, o[1])[1]
                                if ot['k'] in ('ref', 'ptr') or refs(ot):
                                    add(t[3][0], self.paths(f, A, o[1]))
                            elif o[0] == 'c' and isinstance(o[2], list) and o[2] and o[2][0] == 'static':
                                add(t[3][0], {(('static', o[2][1]), ())})
        return A

    def opsof(self, r):
        out = []
        for x in r[1:]:
            if isinstance(x, list):
                if x and x[0] in ('cp', 'mv', 'c', 'cfn', 'prom') and len(x) > 1:
                    out.append(x)
                else:
                    out += [y for y in x if isinstance(y, list) and y and y[0] in ('cp', 'mv', 'c', 'cfn', 'prom')]
        return out

    def capture(self, f, clo_local):
        """For a closure built in f: captured operand per upvar index."""
        for b in f['blocks']:
            for s in b['s']:
                if s[0] == '=' and s[1] == [clo_local] and s[2] and s[2][0] == 'agg':
                    return self.opsof(s[2])
        return []

    # -- events
    def protected(self, path):
        """(object path, type, field) for each protected element along a full path."""
        r, q = path
        for i, (ty, nm) in enumerate(q):
            if ty in self.owners and nm in self.owners[ty][1]:
                yield (r, q[:i]), ty, nm

    def mine(self, t):
        return t.get('local') or (t.get('path') or '').startswith('algorsand::')

    def owner_sites(self, ty, seen=None):
        """Field paths from a local struct to the locked types it contains (by value)."""
        t = next((x for x in self.T if x.get('path') == ty and x['k'] in ADT), None)
        if ty in self.owners:
            return [((), ty)]
        out = []
        seen = seen or set()
        if not t or ty in seen or not self.mine(t):
            return out
        seen = seen | {ty}
        for v in t.get('variants') or []:
            for n, x, _ in v['fields']:
                tx = self.T[x]
                if tx['k'] in ADT and self.mine(tx):
                    out += [(((ty, n),) + p, o) for p, o in self.owner_sites(tx['path'], seen)]
        return out

    def lockname(self, obj, ty):
        return (obj[0], obj[1] + ((ty, self.owners[ty][0]),))

    def cls(self, lp):
        r, q = lp
        if q:
            return '%s.%s' % (short(q[-1][0]), q[-1][1])
        return 'static %s' % short(r[1]) if r[0] == 'static' else 'a lock passed in'

    def flow(self, f, rep):
        T = self.T
        if self.alias[f['id']] is None:
            self.alias[f['id']] = self.aliases(f)
        A = self.alias[f['id']]
        S = self.sum[f['id']]
        S['needs'] = {}
        bl = f['blocks']
        where = lambda line: '%s:%s %s' % (f.get('file'), line, f['path'])
        guardty = lambda t: any(g in t['s'] for g in GUARDS)
        tryty = lambda t: 'TryLockError' in t['s']
        # state: token (site, lock path, mode) -> holder local;  must and may versions
        IN = {0: (frozenset(), frozenset())}
        work = [0]
        seen_out = {}
        acc = {}       # token site -> set of objects touched under it

        def record(kind, key, line, what):
            if rep:
                getattr(self, kind)[(where(line), key)] = what

        def held(st, lp, mode):
            return any(lp in t[1] and (mode == 'r' or t[2] == 'w') and not tryty(T[f['locals'][h]]) and (len(t[1]) == 1 or t[1] == frozenset([lp])) for t, h in st)

        def heldmay(st, lp):
            return any(lp in t[1] for t, h in st)

        def event(must, may, obj, ty, fld, mode, line, why):
            if obj[0][0] == 'own':
                return
            lp = self.lockname(obj, ty)
            if held(must, lp, mode):
                for t, h in must:
                    if lp in t[1]:
                        acc.setdefault(t[0], set()).add((obj, mode))
                if rep:
                    self.okc[(where(line), '%s.%s' % (short(ty), fld))] = 1
                return
            if held(must, lp, 'r') and mode == 'w':
                record('viol', '%s.%s' % (short(ty), fld), line, '%s %s.%s while holding the lock for reading only' % (why, short(ty), fld))
                return
            S['needs'].setdefault((obj, ty, fld, mode), (line, why))

        def touch(must, may, path, mode, line, why):
            for obj, ty, fld in self.protected(path):
                event(must, may, obj, ty, fld, mode, line, why)

        def place_event(must, may, p, mode, line):
            """A read or write of memory through a place."""
            if not self.mem(f, p):
                return
            for x in self.paths(f, A, p):
                touch(must, may, x, mode, line, 'writes' if mode == 'w' else 'reads')

        def operand(must, may, o, line):
            if o[0] in ('cp', 'mv'):
                place_event(must, may, o[1], 'r', line)

        def release(st, l):
            return frozenset(x for x in st if x[1] != l)

        def move(st, a, b):
            return frozenset((t, b if h == a else h) for t, h in st)

        def acquire(must, may, lps, mode, line, site, via=''):
            """Order and re-acquisition at an acquisition of one of the lock paths."""
            for lp in lps:
                if lp[0][0] == 'own' and not lp[1]:
                    continue
                for t, h in may:
                    for q in t[1]:
                        if q == lp:
                            record('viol', 're-acquired', line, '%s is acquired%s while it is already held (taken at %s): the thread blocks on itself' % (self.cls(lp), via, t[0]))
                        elif self.cls(q) == self.cls(lp):
                            record('undec', 'same class', line, 'two locks of the class %s are held at once; their order is not decided' % self.cls(lp))
                        elif rep:
                            self.order.setdefault((self.cls(q), self.cls(lp)), where(line) + via)
                if lp[0][0] in ('param', 'static') or lp[1]:
                    S['acq'].setdefault((lp, mode), line)

        while work:
            bi = work.pop()
            must, may = IN[bi]
            b = bl[bi]
            if b.get('c'):
                continue
            for s in b['s']:
                if s[0] == 'dead':
                    may = release(may, s[1])
                    must = release(must, s[1])
                    continue
                if s[0] != '=':
                    continue
                d, r, line = s[1], s[2], s[3]
                if not r:
                    continue
                if r[0] in ('use', 'cast', 'bin', 'un', 'agg', 'repeat'):
                    ops = self.opsof(r)
                    for o in ops:
                        operand(must, may, o, line)
                        if o[0] == 'mv' and guardty(T[f['locals'][o[1][0]]]):
                            must, may = move(must, o[1][0], d[0]), move(may, o[1][0], d[0])
                elif r[0] in ('discr', 'len'):
                    if isinstance(r[1], list):
                        place_event(must, may, r[1], 'r', line)
                place_event(must, may, d, 'w', line)
            t = b['t']
            succ = []
            if t[0] == 'goto':
                succ = [t[1]]
            elif t[0] == 'switch':
                operand(must, may, t[1], 0)
                succ = [x[1] for x in t[3]] + ([t[4]] if t[4] is not None else [])
            elif t[0] == 'drop':
                if len(t[1]) == 1:
                    must, may = release(must, t[1][0]), release(may, t[1][0])
                    # a captured guard inside
                succ = [t[3]]
            elif t[0] == 'assert':
                operand(must, may, t[1], 0)
                succ = [x for x in t[5:6] if isinstance(x, int)]
            elif t[0] == 'call':
                line = t[5]
                must, may = self.call(f, A, t, must, may, line, (f, record, operand, place_event, touch, event, acquire, release, move, guardty, rep, where, S, held))
                succ = [t[4]] if t[4] is not None else []
            elif t[0] == 'ret':
                rt = frozenset((x[1], x[2]) for x, h in may if h == 0)
                if rt:
                    S['ret'] = S['ret'] | frozenset((lp, m) for lps, m in rt for lp in lps)
            for n in succ:
                if n not in IN:
                    IN[n] = (must, may)
                    work.append(n)
                else:
                    m2 = (IN[n][0] & must, IN[n][1] | may)
                    if m2 != IN[n]:
                        IN[n] = m2
                        work.append(n)
        S['sections'] = acc
        if rep:
            self.torn(f, A, IN, acc, where)

    def mem(self, f, p):
        """Does reading this place read memory outside the frame's own values?"""
        return any(e == '*' for e in p[1:])

    def callees(self, ce):
        if ce[0] != 'fn':
            return []
        if ce[2] is not None and ce[2] in self.sum:
            return [self.byid[ce[2]]]
        if ce[5] and ce[5].split('::')[0] in self.mods:
            return [g for g in self.fns if g.get('trait') == ce[5] and g.get('item') == ce[4] and not derived(g)]
        return []

    def call(self, f, A, t, must, may, line, env):
        (f, record, operand, place_event, touch, event, acquire, release, move, guardty, rep, where, S, held) = env
        T = self.T
        ce, args, dest = t[1], t[2], t[3]
        name = ce[1] if ce[0] == 'fn' else ''
        item = name.split('::')[-1]
        dt = self.walk(f, dest)[1] if dest else {'k': 'other', 's': '()'}
        # lock operations
        if (name.startswith('std::sync::RwLock::<') or name.startswith('std::sync::Mutex::<')) and (item in OPS or item == 'get_mut') and args and args[0][0] in ('cp', 'mv'):
            lps = frozenset(self.paths(f, A, args[0][1]))
            if not lps:
                record('undec', 'unknown lock', line, 'a lock the analysis cannot name is taken')
                return must, may
            mode = OPS.get(item, 'w')
            if item == 'get_mut':
                tok = ('%s:%s' % (f.get('file'), line), lps, 'w')
                return must | {(tok, dest[0])}, may
            if not item.startswith('try_'):
                acquire(must, may, lps, mode, line, line)
            else:
                for lp in lps:
                    S['acq'].setdefault((lp, mode), line)
            tok = ('%s:%s' % (f.get('file'), line), lps, mode)
            return must | {(tok, dest[0])}, may | {(tok, dest[0])}
        for o in args:
            operand(must, may, o, line)
        # guards handed on
        gl = [o[1][0] for o in args if o[0] == 'mv' and guardty(T[f['locals'][o[1][0]]])]
        moved_to = dest[0] if dest and guardty(dt) else None
        if name.endswith('mem::forget') or name.endswith('ManuallyDrop::<T>::new'):
            if any(h in gl for _, h in may):
                record('viol', 'guard leaked', line, 'the guard is forgotten: its lock is never released')
        # what the callee touches
        cal = self.callees(ce)
        for ai, o in enumerate(args):
            if o[0] not in ('cp', 'mv'):
                continue
            ot = self.walk(f, o[1])[1]
            ps = self.paths(f, A, o[1])
            if ot['k'] in ('ref', 'ptr'):
                ref_mut = bool(ot.get('mut'))
                if not is_lock(T[ot['of']]):
                    for x in ps:
                        if x[1] and any(True for _ in self.protected(x)):
                            touch(must, may, x, 'w' if ref_mut else 'r', line, 'passes to %s' % item)
                # the whole locked object handed to code that reads it as plain data
                pt = T[ot['of']]
                if pt['k'] in ADT and self.mine(pt):
                    sites = self.owner_sites(pt['path'])
                    if sites and not name.endswith('Deref::deref') and not name.startswith('std::sync::Arc') and not name.startswith('std::fmt::Arguments'):
                        raw = not cal
                        if cal and cal[0]['argc'] > ai:
                            d0 = T[cal[0]['locals'][1 + ai]]
                            d1 = T[d0['of']] if d0['k'] in ('ref', 'ptr') else d0
                            raw = d1['k'] not in ADT
                        if raw:
                            for x in ps:
                                for q, oty in sites:
                                    event(must, may, (x[0], (x[1] + q)[:6]), oty, 'every field', 'w' if ref_mut else 'r', line, 'hands the whole object to %s, which uses' % item)
            elif refs(ot) and ot['k'] in ADT and not guardty(ot):
                for x in ps:
                    if x[1] and any(True for _ in self.protected(x)):
                        touch(must, may, x, 'w' if '&mut' in ot['s'] or 'Mut<' in ot['s'] or 'Drain' in ot['s'] else 'r', line, 'passes to %s' % item)
            # key material taken out of the object and used later
            if item.startswith('sign') or item.startswith('try_sign'):
                for obj, ty, fld in self.keymat(f).get(o[1][0], ()):
                    event(must, may, obj, ty, fld, 'r', line, 'signs with key material of')
        # summaries of the callees and of closures handed in
        todo = [(g, self.closure_local(f, args[0][1][0]) if g.get('dk') == 'Closure' and args and args[0][0] in ('cp', 'mv') else None) for g in cal]
        for o in args:
            if o[0] in ('cp', 'mv'):
                ot = self.walk(f, o[1])[1]
                while ot['k'] in ('ref', 'ptr'):
                    ot = T[ot['of']]
                if ot['k'] == 'closure':
                    g = self.closure_fn(ot)
                    if g is not None and g not in cal:
                        todo.append((g, self.closure_local(f, o[1][0])))
        newtok = []
        for g, clo in todo:
            Sg = self.sum[g['id']]

            def objs(path):
                r, q = path
                if r[0] == 'static':
                    return {path}
                if r[0] != 'param':
                    return set()
                if clo is not None:
                    if r[1] != 1:
                        return None
                    base = A.get(clo, ())
                    # first element is the captured variable
                    cap = self.capture(f, clo)
                    if q and q[0][1].isdigit() and int(q[0][1]) < len(cap) and cap[int(q[0][1])][0] in ('cp', 'mv'):
                        return {(rr, (qq + q[1:])[:6]) for rr, qq in self.paths(f, A, cap[int(q[0][1])][1])}
                    return {(rr, (qq + q[1:])[:6]) for rr, qq in base}
                if r[1] - 1 >= len(args) or args[r[1] - 1][0] not in ('cp', 'mv'):
                    return set()
                return {(rr, (qq + q)[:6]) for rr, qq in self.paths(f, A, args[r[1] - 1][1])}
            for (obj, ty, fld, mode), (l0, why) in list(Sg['needs'].items()):
                O = objs(obj)
                if O is None:
                    record('undec', 'closure argument', line, 'a closure touches %s.%s of a value it is handed' % (short(ty), fld))
                    continue
                for x in O:
                    event(must, may, x, ty, fld, mode, line, 'calls %s, which %s' % (short(g['path']), why))
            for (lp, mode), l0 in list(Sg['acq'].items()):
                O = objs(lp)
                if O is None:
                    if rep:
                        for tk, h in may:
                            for q in tk[1]:
                                self.order.setdefault((self.cls(q), self.cls(lp)), where(line) + ' through a closure')
                    continue
                if O:
                    acquire(must, may, O, mode, line, line, ' by %s' % short(g['path']))
            for lp, mode in Sg['ret']:
                O = objs(lp)
                if O and dest:
                    newtok.append((('%s:%s' % (f.get('file'), line), frozenset(O), mode), dest[0]))
        for g0 in gl:
            if moved_to is not None:
                must, may = move(must, g0, moved_to), move(may, g0, moved_to)
            elif not name.endswith('mem::forget'):
                must, may = release(must, g0), release(may, g0)
        if dest:
            place_event(must, may, dest, 'w', line)
        for x in newtok:
            must, may = must | {x}, may | {x}
        return must, may

    def selftype(self, g):
        t = self.T[g['locals'][1]] if g['argc'] else {'k': '', 's': ''}
        while t['k'] in ('ref', 'ptr'):
            t = self.T[t['of']]
        return t['s']

    def closure_local(self, f, l):
        for _ in range(6):
            if self.T[f['locals'][l]]['k'] == 'closure' and self.capture(f, l):
                return l
            n = None
            for b in f['blocks']:
                for s in b['s']:
                    if s[0] == '=' and s[1] == [l] and s[2]:
                        if s[2][0] in ('ref', 'reborrow'):
                            n = s[2][2][0]
                        elif s[2][0] == 'use' and s[2][1][0] in ('cp', 'mv'):
                            n = s[2][1][1][0]
            if n is None:
                return l
            l = n
        return l

    def closure_fn(self, t):
        if not hasattr(self, 'clo'):
            self.clo = {self.selftype(g): g for g in self.fns if g.get('dk') == 'Closure'}
        return self.clo.get(t['s'])

    def keymat(self, f):
        """Owned values cloned out of protected key material: local -> objects."""
        if f['id'] in self.closures:
            return self.closures[f['id']]
        A = self.alias[f['id']]
        K = {}
        ch = True
        while ch:
            ch = False
            for b in f['blocks']:
                if b.get('c'):
                    continue
                t = b['t']
                if t[0] == 'call' and t[3]:
                    dt = self.walk(f, t[3])[1]
                    own = dt['k'] in ADT and not refs(dt) and any(k in dt['s'] for k in SECRET) and not any(o in dt['s'] for o in map(short, self.owners))
                    src = set()
                    for o in t[2]:
                        if o[0] in ('cp', 'mv'):
                            src |= K.get(o[1][0], set())
                            if own:
                                for x in self.paths(f, A, o[1]):
                                    src |= set(self.protected(x))
                    if (own or dt['k'] == 'ref') and src and not src <= K.get(t[3][0], set()):
                        K.setdefault(t[3][0], set()).update(src)
                        ch = True
                for s in b['s']:
                    if s[0] == '=' and s[2] and s[2][0] in ('use', 'ref', 'reborrow', 'agg'):
                        src = set()
                        if s[2][0] in ('ref', 'reborrow'):
                            src |= K.get(s[2][2][0], set())
                        else:
                            for o in self.opsof(s[2]):
                                if o[0] in ('cp', 'mv'):
                                    src |= K.get(o[1][0], set())
                        if src and not src <= K.get(s[1][0], set()):
                            K.setdefault(s[1][0], set()).update(src)
                            ch = True
        self.closures[f['id']] = K
        return K

    # -- one operation, one section
    def torn(self, f, A, IN, acc, where):
        st = self.T[f['self']] if isinstance(f.get('self'), int) else None
        if not st or st.get('path') not in self.owners or f.get('trait'):
            return
        sec = []        # (block, object, line, mode)
        for bi, b in enumerate(f['blocks']):
            if b.get('c') or bi not in IN or b['t'][0] != 'call':
                continue
            t = b['t']
            name = t[1][1] if t[1][0] == 'fn' else ''
            item = name.split('::')[-1]
            if name.startswith(LOCKS[0] + '::<') or name.startswith(LOCKS[1] + '::<'):
                if item in ('read', 'write', 'lock'):
                    site = '%s:%s' % (f.get('file'), t[5])
                    for x in self.paths(f, A, t[2][0][1]):
                        if x[1] and any(o == (x[0], x[1][:-1]) for o, m in acc.get(site, ())):
                            sec.append((bi, x, t[5], max(m for o, m in acc[site])))
            else:
                for g in self.callees(t[1]):
                    if g.get('pub') or g.get('self') != f.get('self') or g is f:
                        continue
                    for (lp, mode), _ in self.sum[g['id']]['acq'].items():
                        if lp[0][0] == 'param' and lp[0][1] - 1 < len(t[2]) and t[2][lp[0][1] - 1][0] in ('cp', 'mv') and lp[1] and lp[1][-1][0] == st['path']:
                            for x in self.paths(f, A, t[2][lp[0][1] - 1][1]):
                                sec.append((bi, (x[0], x[1] + lp[1]), t[5], mode))
        def reach(a, b):
            seen, w = set(), list(self.succ(f, a))
            while w:
                x = w.pop()
                if x == b:
                    return True
                if x in seen:
                    continue
                seen.add(x)
                w += self.succ(f, x)
            return False
        for i, (b1, x1, l1, m1) in enumerate(sec):
            for j, (b2, x2, l2, m2) in enumerate(sec):
                if x1 != x2 or x1[0][0] == 'own':
                    continue
                if b1 == b2 and i != j:
                    continue
                if reach(b1, b2):
                    key = (where(l2), 'one critical section')
                    if m1 == 'r' and m2 == 'w':
                        self.undec[key] = 'the lock is released between a read (line %s) and a write (line %s)' % (l1, l2)
                    else:
                        self.viol[key] = 'one operation runs in two critical sections: the lock taken at line %s is released and taken again at line %s, and the state may change in between' % (l1, l2)

    def succ(self, f, i):
        t = f['blocks'][i]['t']
        if f['blocks'][i].get('c'):
            return []
        if t[0] == 'goto':
            return [t[1]]
        if t[0] == 'switch':
            return [x[1] for x in t[3]] + ([t[4]] if t[4] is not None else [])
        if t[0] == 'drop':
            return [t[3]]
        if t[0] == 'assert':
            return [x for x in t[5:6] if isinstance(x, int)]
        if t[0] == 'call':
            return [t[4]] if t[4] is not None else []
        return []

    # -- entry points
    def roots(self):
        self.entry = []
        T = self.T
        for f in self.fns:
            if derived(f) or (f.get('trait') or '').endswith('Drop'):
                continue
            S = self.sum[f['id']]
            if f.get('dk') == 'Closure' or any(isinstance(x, int) and T[x]['k'] != 'param' for x in f.get('targs') or []):
                continue        # an instance of a generic function: its call site answers for it
            ext = f.get('pub') or f.get('trait')
            for (obj, ty, fld, mode), (line, why) in S['needs'].items():
                if obj[0][0] == 'own':
                    continue
                w = '%s:%s %s' % (f.get('file'), line, f['path'])
                if obj[0][0] == 'static' or ext:
                    self.viol[(w, '%s.%s' % (short(ty), fld))] = '%s %s.%s without holding %s%s' % (why, short(ty), fld, self.cls(self.lockname(obj, ty)), ' for writing' if mode == 'w' else '')
                    self.entry.append(f['id'])

    def cycles(self):
        G = {}
        for (a, b), w in self.order.items():
            G.setdefault(a, set()).add(b)
        for a, b in self.order:
            seen, st = set(), [b]
            while st:
                x = st.pop()
                if x == a:
                    self.viol[(self.order[(a, b)], 'lock order %s -> %s' % (a, b))] = '%s is acquired while %s is held, and elsewhere in the opposite order' % (b, a)
                    break
                if x in seen:
                    continue
                seen.add(x)
                st += G.get(x, ())
