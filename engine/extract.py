"""Builds the MIR driver and dumps the monomorphic MIR of the three crates of /repo."""
import os, subprocess, tempfile, shutil, json, fcntl

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(V, '.work')
REPO = os.environ.get('VP_REPO', '/repo')
FLAGS = ['-Zalways-encode-mir', '-Zmir-opt-level=0', '-Coverflow-checks=on', '-Cdebug-assertions=on',
         '-Cpanic=unwind', '--cap-lints', 'allow']
SRC = {'huffman': 'huffman/src/lib.rs', 'hpack': 'hpack/src/lib.rs', 'protos': 'protos/src/lib.rs'}
DEPS = {'huffman': ['huffman'], 'hpack': ['huffman', 'hpack'], 'protos': ['protos']}


RELEASE = False         # analyse the configuration without debug assertions


class ExtractError(Exception):
    pass


def flags():
    return [f.replace('debug-assertions=on', 'debug-assertions=off') for f in FLAGS] if RELEASE else FLAGS


def differs():
    """crates whose MIR is another one without debug assertions (debug_assert!, cfg(debug_assertions))"""
    global RELEASE
    out = []
    was = RELEASE
    tmp = tempfile.mkdtemp(prefix='cfg', dir=WORK)
    try:
        text = {}
        for RELEASE in (False, True):
            ext = []
            for c in DEPS['hpack'] + DEPS['protos']:
                cmd = ['rustc', '+nightly', '--edition', edition(c)] + flags() + ['--crate-type', 'rlib', '--crate-name', 'httlib_' + c,
                       '-L', tmp] + ext + [os.path.join(REPO, SRC[c])]
                rc, o = run(cmd + ['--emit', 'metadata,mir', '--out-dir', tmp])
                if rc:
                    raise ExtractError('crate %s does not compile: %s' % (c, o[-1500:]))
                text[c, RELEASE] = open(os.path.join(tmp, 'httlib_%s.mir' % c)).read()
                ext += ['--extern', 'httlib_%s=%s/libhttlib_%s.rmeta' % (c, tmp, c)]
        out = [c for c in SRC if text[c, False] != text[c, True]]
    finally:
        RELEASE = was
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def run(cmd, env=None):
    e = dict(os.environ)
    e.pop('RUSTFLAGS', None)
    if env:
        e.update(env)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=600)
    return r.returncode, r.stdout.decode('utf8', 'replace')


def sysroot():
    rc, o = run(['rustc', '+nightly', '--print', 'sysroot'])
    if rc:
        raise ExtractError('no nightly rustc: ' + o)
    return o.strip()


def driver():
    """path of the compiled driver, building it when missing or older than its source"""
    os.makedirs(WORK, exist_ok=True)
    src = os.path.join(V, 'driver', 'main.rs')
    out = os.path.join(WORK, 'vpdriver')
    with open(os.path.join(WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
            return out
        s = sysroot()
        rc, o = run(['rustc', '+nightly', '-O', '--edition', '2021', src, '-o', out + '.new',
                     '-C', 'link-arg=-Wl,-rpath,%s/lib' % s])
        if rc:
            raise ExtractError('driver does not build: ' + o[-2000:])
        os.replace(out + '.new', out)
    return out


def edition(crate):
    try:
        for l in open(os.path.join(REPO, crate, 'Cargo.toml')):
            if l.strip().startswith('edition'):
                return l.split('=')[1].strip().strip('"')
    except OSError:
        pass
    return '2018'


def extract(crate):
    """JSON dump of the current source of one crate (and what it depends on)"""
    d = driver()
    s = sysroot()
    tmp = tempfile.mkdtemp(prefix='mir', dir=WORK)
    try:
        ext = []
        for c in DEPS[crate]:
            cmd = ['rustc', '+nightly', '--edition', edition(c)] + flags() + ['--crate-type', 'rlib', '--crate-name', 'httlib_' + c,
                   '--out-dir', tmp, '-L', tmp] + ext + [os.path.join(REPO, SRC[c])]
            rc, o = run(cmd)
            if rc:
                raise ExtractError('crate %s does not compile: %s' % (c, o[-1500:]))
            ext += ['--extern', 'httlib_%s=%s/libhttlib_%s.rlib' % (c, tmp, c)]
        out = os.path.join(tmp, 'out.json')
        rc, o = run([d, '--sysroot', s, '--edition', '2021'] + flags() + ['--crate-type', 'lib', '--crate-name', 'vp_' + crate,
                    '--emit', 'metadata', '--out-dir', tmp, '-L', tmp] + ext + [os.path.join(V, 'harness', crate + '.rs')],
                    {'VP_OUT': out})
        if rc or not os.path.exists(out):
            raise ExtractError('public API of %s changed, harness does not compile: %s' % (crate, o[-1500:]))
        return json.load(open(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    import sys, time
    for c in SRC:
        t = time.time()
        j = extract(c)
        print(c, len(j['insts']), 'instances', round(time.time() - t, 2), 's')
