"""Unchecked 64/128-bit arithmetic on amounts, rewards and rounds."""
from spec import *
import overflow as OV

RULE = ('every unchecked addition, subtraction, multiplication, sum, wrapping operation and narrowing cast on 64- and 128-bit integers in src/data and src/bin is '
        'enumerated from the MIR; each is interpreted in the context of every public function that reaches it (private helpers in their callers\' contexts), and '
        'must be infeasible under the path condition and the value ranges that hold there')
PARTS = ['sites', 'newtypes']
EXEMPT = 'rewarded_micro_algos'


def exempt(o):
    """The lifetime-rewards counter may roll over."""
    if o['kind'] != 'overflow' or not o['what'].startswith('wrapping Add'):
        return False
    return any(EXEMPT in show(x) for x in leaves(o['ops'][0]) + leaves(o['ops'][1])) if o['ops'] else False


def sites(P, ck):
    for C, scope in ((P.lib, 'src/data'), (P.bin, 'src/bin')):
        static = OV.static_sites(C, lambda p: p.startswith(scope))
        owner = OV.callgraph(C)[1]
        todo = {}
        for f, line, what in static:
            for o in owner[f['id']]:
                for r in OV.roots_of(C, o):
                    todo.setdefault(r, set()).add((f['file'], line))
        res = []
        failed = {}
        seen = set()
        for r in sorted(todo, key=lambda r: C.byid[r]['path']):
            f = C.byid[r]
            try:
                obs = OV.obligations(P, f)
            except (Unsupported, Budget, RecursionError, AttributeError, KeyError, IndexError, AssertionError, TypeError) as e:
                failed[r] = '%s: %s' % (type(e).__name__, e)
                continue
            for o in obs:
                if not OV.wide(o) or not o['at'][0].startswith(scope) or exempt(o):
                    if OV.wide(o):
                        seen.add((o['at'][0], o['at'][1]))
                    continue
                seen.add((o['at'][0], o['at'][1]))
                st, w = OV.verdict(o)
                res.append(((OV.where(o), o['what']), st, w))
        OV.report(ck, 'does not wrap', OV.merge(res))
        done = {(k[0].split(' ')[0]) for k, _, _ in res}
        for f, line, what in static:
            if (f['file'], line) not in seen:
                why = [failed[r] for r in failed if (f['file'], line) in todo[r]]
                if why:
                    ck.und('does not wrap: ' + what, '%s:%s %s' % (f['file'], line, f['path']), 'analysis of the function reaching it: ' + why[0][:200])
                else:
                    ck.ok('does not wrap: ' + what, '%s:%s %s' % (f['file'], line, f['path']), 'not reached, or of a narrower type')
        ck.extra = dict(getattr(ck, 'extra', None) or {}, **{'sites_' + scope.replace('/', '_'): len(static), 'roots_' + scope.replace('/', '_'): len(todo)})


def newtypes(P, ck):
    """Addition of the Round and MicroAlgos types themselves aborts on overflow."""
    for n in ('MicroAlgos', 'Round'):
        fs = [f for f in P.fns(item='add', trait='ops::Add') if f.get('self') is not None and P.lib.T[f['self']]['s'].endswith('::' + n)]
        for f in fs:
            R = P.run(f)
            a, b = R.p
            s = Add(a, b)
            ck.iff('adding %s aborts exactly on overflow' % n, panics(R), Gt(s, 2**64 - 1), loc(f))
            ck.holds('adding %s gives the sum' % n, implies(neg(panics(R)), veq(R.ret, s)), loc(f))
