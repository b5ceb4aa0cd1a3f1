"""Builds the facts extractor and extracts typed MIR facts from /repo's current working tree."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ALGO_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
TOOLCHAIN = '+nightly'


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    return p.returncode, p.stdout


def _env():
    e = {k: v for k, v in os.environ.items() if k not in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS',
                                                          'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR', 'RUSTC', 'RUSTUP_TOOLCHAIN')}
    return e


def sysroot():
    rc, out = _run(['rustc', TOOLCHAIN, '--print', 'sysroot'], env=_env())
    if rc:
        raise BuildError(out)
    return out.strip().splitlines()[-1]


def build_driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    exe = os.path.join(BUILD, 'algofacts')
    tag = exe + '.hash'
    if os.path.exists(exe) and os.path.exists(tag) and open(tag).read() == h:
        return exe
    e = _env()
    e['LD_LIBRARY_PATH'] = sysroot() + '/lib'
    rc, out = _run(['rustc', TOOLCHAIN, '--edition', '2024', '-O', src, '-o', exe], env=e)
    if rc:
        raise BuildError('facts extractor does not build:\n' + out[-3000:])
    open(tag, 'w').write(h)
    return exe


def tree_hash():
    h = hashlib.sha256()
    names = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'target', 'node_modules'))
        for f in sorted(files):
            p = os.path.join(root, f)
            if p.endswith(('.rs', '.toml', '.lock', '.txt', '.json')) and os.path.isfile(p):
                names.append(p)
    for p in names:
        h.update(p.encode() + b'\0')
        h.update(open(p, 'rb').read())
    h.update(open(os.path.join(VERIF, 'driver', 'main.rs'), 'rb').read())
    return h.hexdigest()


def extract():
    """Returns {'lib': facts, 'bin': facts}."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    th = tree_hash()
    out = os.path.join(BUILD, 'facts')
    tag = os.path.join(out, 'hash')
    lib, binf = os.path.join(out, 'algorsand-lib.json'), os.path.join(out, 'algokey-bin.json')
    if not (os.path.exists(tag) and open(tag).read() == th and os.path.exists(lib) and os.path.exists(binf)):
        exe = build_driver()
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        target = os.path.join(BUILD, 'target')
        # forces the workspace crate to be analysed again (its dependencies stay built)
        for sub in ('.fingerprint', 'build'):
            fp = os.path.join(target, 'debug', sub)
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d in ('algorsand', 'algokey') or d.startswith(('algorsand-', 'algokey-')):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        e = _env()
        e.update(LD_LIBRARY_PATH=sysroot() + '/lib', ALGOFACTS_OUT=out, CARGO_TARGET_DIR=target, RUSTC_WORKSPACE_WRAPPER=exe,
                 RUSTFLAGS='-W dependency_on_unit_never_type_fallback -Zallow-features=proc_macro_diagnostic,proc_macro_span', CARGO_NET_OFFLINE='true')
        rc, o = _run(['cargo', TOOLCHAIN, 'check', '--offline', '--locked', '--lib', '--bins'], cwd=REPO, env=e)
        if rc or not (os.path.exists(lib) and os.path.exists(binf)):
            raise BuildError('cargo check failed:\n' + o[-4000:])
        open(tag, 'w').write(th)
    r = {}
    with open(lib) as f:
        r['lib'] = json.load(f)
    with open(binf) as f:
        s = f.read()
    b = json.loads(s)
    for t in b['types']:
        if t['k'] in ('struct', 'enum') and (t.get('path') or '').startswith('algorsand::'):
            t['local'] = True
    b = _strip(b)
    at = {(f['file'], f['line'], f.get('item') or f['name'].split('::')[-1], f.get('trait') and f['trait'].split('::')[-1]): f['path'] for f in r['lib']['fns'] if f['local']}
    for f in b['fns']:
        if f.get('krate') == 'algorsand' and not f['local']:
            f['path'] = at.get((f['file'], f['line'], f.get('item') or f['name'].split('::')[-1], f.get('trait') and f['trait'].split('::')[-1]), f['path'])
    r['bin'] = b
    fcntl.flock(lock, fcntl.LOCK_UN)
    return r


def _strip(x):
    """Names library items in the binary's facts as the library's own facts name them."""
    if isinstance(x, str):
        return x.replace('algorsand::', '') if 'algorsand::' in x else x
    if isinstance(x, list):
        return [_strip(y) for y in x]
    if isinstance(x, dict):
        return {k: _strip(v) for k, v in x.items()}
    return x


if __name__ == '__main__':
    try:
        extract()
    except BuildError as ex:
        print(ex)
        sys.exit(2)
