#!/usr/bin/env python3
"""Creates and validates a planted bug: mkseed.py SPEC.py  (SPEC defines ID, PROP, EDITS [(file, old, new)], DEMO (rust test module body), AT (file the demo is appended to), NEEDS, BREAKS).
Works in the scratch copy /tmp/w/seed; writes /verif/seeded/ID."""
import json, os, subprocess, sys, runpy
S = os.environ.get('SEEDDIR', '/tmp/w/seed')
sp = runpy.run_path(sys.argv[1])
ENV = '. /opt/vp/env.sh; '
DEMO_SH = '''#!/bin/bash
# Runs the test in demo.rs against a scratch copy of the tree in the current directory.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp -r src benches data Cargo.toml Cargo.lock "$tmp"/ || exit 3
cat "$here/demo.rs" >> "$tmp/%s"
cd "$tmp" || exit 3
mkdir -p target/debug
# dependencies already compiled; the crate itself is compiled again from the copied sources
for d in deps build .fingerprint; do cp -a "$repo/target/debug/$d" target/debug/ 2>/dev/null; done
find src benches Cargo.toml -type f -exec touch {} +
cargo test --offline --locked %s vp_demo -- --test-threads 1
'''
def sh(c, cwd=S, t=900):
    return subprocess.run(['bash', '-c', c], cwd=cwd, capture_output=True, text=True, timeout=t)
def main():
    sh('git checkout -q -f $(git -C /repo rev-parse HEAD) 2>/dev/null || (git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD)')
    sh('git checkout -- .')
    for f, old, new in sp['EDITS']:
        p = os.path.join(S, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    patch = sh('git diff').stdout
    d = '/verif/seeded/' + sp['ID']
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.rs', 'w').write('\n#[cfg(test)]\nmod vp_demo {\n    #![allow(unused_imports)]\n    use super::*;\n' + sp['DEMO'] + '}\n')
    open(d + '/demo.sh', 'w').write(DEMO_SH % (sp['AT'], sp.get('TARGET', '--lib')))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': sp['PROP'], 'needs': sp['NEEDS'], 'what_it_breaks': sp['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    r = sh('bash %s/demo.sh' % d)
    print(sp['ID'], 'demo with patch rc', r.returncode, '' if r.returncode else r.stdout[-1500:])
    if 'error: could not compile' in r.stderr:
        print('\n'.join(l for b in r.stderr.split('\n\n') if 'error' in b for l in b.split('\n'))); return 1
    if '-q' not in sys.argv:
        t = sh(ENV + 'cargo build --workspace --all-targets --offline --locked 2>&1 | tail -3; cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 --skip data::committee::sortition:: --skip crypto::multisig:: 2>&1 | grep -E "^test .*FAILED|test result|error"; CARGO_PROFILE_TEST_OVERFLOW_CHECKS=false CARGO_PROFILE_DEV_OVERFLOW_CHECKS=false cargo test --lib --no-fail-fast --offline --locked --target-dir target/no-overflow-checks -- crypto::multisig:: 2>&1 | grep -E "^test .*FAILED|test result"')
        print(t.stdout)
    sh('mkdir -p /tmp/w/vcopy; rsync -a --exclude .build --exclude .git --exclude evidence /verif/ /tmp/w/vcopy/ || cp -r /verif/analysis /verif/props /verif/driver /verif/check.sh /verif/known_findings.txt /tmp/w/vcopy/')
    k = sh('ALGO_REPO=%s ./check.sh %s 2>&1 | cut -c1-700 | tail -8' % (S, sp['PROP']), cwd='/tmp/w/vcopy')
    print(k.stdout)
    sh('git checkout -- .')
    r = sh('bash %s/demo.sh' % d)
    print(sp['ID'], 'demo without patch rc', r.returncode, r.stdout[-1500:] + r.stderr[-1500:] if r.returncode else '')
    # our checks against it
    c = '/tmp/w/seedrepo'
    return 0
sys.exit(main())
