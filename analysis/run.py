"""check.sh entry point: decides one property on /repo's current tree."""
import importlib.util
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=%s ' % pid):
                what = l.split(' ', 2)[2]
                key = what.split('#', 1)
                out.append((key[0].strip(), l))
    return out


def main(pid, tier, facts=None, quiet=False):
    t0 = time.time()
    import facts as FA
    import spec
    if facts is None:
        try:
            facts = FA.extract()
        except FA.BuildError as e:
            print('cannot analyse: the tree does not build')
            print(e)
            return 3
    P = spec.Prog(facts)
    ck = spec.Check(pid, P)
    ck.tier = tier
    path = os.path.join(VERIF, 'props', pid + '.py')
    sp = importlib.util.spec_from_file_location('prop_' + pid, path)
    mod = importlib.util.module_from_spec(sp)
    sys.path.insert(0, os.path.join(VERIF, 'props'))
    sp.loader.exec_module(mod)
    for name in mod.PARTS:
        try:
            getattr(mod, name)(P, ck)
        except spec.Missing as e:
            ck.und(name, '', 'not found in the tree: %s' % e)
        except (spec.Unsupported, spec.Budget) as e:
            ck.und(name, '', 'outside what the analysis interprets: %s' % e)
        except RecursionError:
            ck.und(name, '', 'analysis depth exceeded')
        except Exception as e:
            if os.environ.get('ALGO_DEBUG'):
                raise
            ck.und(name, '', 'analysis error: %s: %s' % (type(e).__name__, (str(e) or traceback.format_exc())[-300:]))
    viol = [o for o in ck.obs if o[1] == 'violation']
    und = [o for o in ck.obs if o[1] == 'undecided']
    okk = [o for o in ck.obs if o[1] == 'ok']
    kf = known_findings(pid)
    listed, new = [], []
    for o in viol:
        m = next((l for k, l in kf if k and (k in o[0] or k in o[2])), None)
        (listed if m else new).append((o, m))
    res = 'VIOLATION' if new else 'held'
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': getattr(mod, 'LEVEL', 'other'),
        'coverage': {
            'explanation': getattr(mod, 'RULE', '') or (mod.__doc__ or ''),
            'obligations': len(ck.obs), 'discharged': len(okk), 'undecided': len(und), 'violations': len(viol),
            'obligation_list': [{'obligation': o[0], 'status': o[1], 'where': o[2], **({'detail': o[3][:1500]} if o[3] else {})} for o in ck.obs],
            'functions_analysed': sorted('%s:%s %s' % x for x in P.inlined),
            'functions_analysed_count': len(P.inlined),
            'uninterpreted_callees': sorted(P.ext)[:200],
            'blocks_interpreted': P.steps,
            'imprecision_notes': P.notes[:50],
            'facts': {'library_functions': len(P.lib.fns), 'binary_functions': len(P.bin.fns)},
        },
        'wall_s': round(time.time() - t0, 2),
    }
    if getattr(ck, 'extra', None):
        ev['coverage'].update(ck.extra)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions analysed; %.1f s' % (
        pid, len(ck.obs), len(okk), len(und), len(viol), len(P.inlined), time.time() - t0))
    for o in und:
        print('  undecided: %s %s: %s' % (o[0], o[2], o[3][:400]))
    for o, l in listed:
        print(l)
    if new:
        rp = os.path.join('evidence', pid + '.violation.txt')
        with open(os.path.join(VERIF, rp), 'w') as f:
            for o, _ in new:
                f.write('%s\n  at %s\n  %s\n' % (o[0], o[2], o[3]))
        for o, _ in new:
            print('  violated: %s\n    at %s\n    %s' % (o[0], o[2], o[3][:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    sys.exit(main(pid, tier))
