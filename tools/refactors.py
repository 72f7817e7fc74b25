#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the repository: the checks must stay quiet on every one.
  python3 tools/refactors.py [ids] [--all]   (--all: every check of the crate, not the listed ones)
Works in copies under /tmp/rf."""
import os, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor
R = {}
def rf(name, file, edits, checks):
    R[name] = (file, edits, checks)
HD = 'hpack/src/decoder/mod.rs'
HP = 'hpack/src/decoder/primitives.rs'
HE = 'hpack/src/encoder/mod.rs'
EP = 'hpack/src/encoder/primitives.rs'
TM = 'hpack/src/table/mod.rs'
TD = 'hpack/src/table/dynamic.rs'
TI = 'hpack/src/table/iter.rs'
FE = 'huffman/src/encoder/mod.rs'
FR = 'huffman/src/decoder/reader.rs'
FD = 'huffman/src/decoder/mod.rs'
PD = 'protos/src/decoder/mod.rs'
PP = 'protos/src/decoder/primitives.rs'
PE = 'protos/src/encoder/mod.rs'
PQ = 'protos/src/encoder/primitives.rs'
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'refactors_list.py')).read())

import re
def sub(s, old, new):
    pat = r'(?:\s|//[^\n]*\n)+'.join(re.escape(t) for t in old.split())
    m = re.search(pat, s)
    if not m: return None
    lead = re.match(r'\s*', old).group(0)
    trail = re.search(r'\s*$', old).group(0)
    return s[:m.start()] + new.strip() + ('\n' if '\n' in trail and new else '') + s[m.end():]

def run(name, allc):
    file, edits, checks = R[name]
    d = f'/tmp/rf/{name}'
    subprocess.run(['rm', '-rf', d])
    shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('target', '.git'))
    fs = file if isinstance(file, list) else [file]
    for old, new in edits:
        hit = False
        for f in fs:
            p = f'{d}/{f}'
            s = open(p).read()
            s = sub(s, old, new)
            if s is not None:
                hit = True
                open(p, 'w').write(s)
                break
        if not hit:
            return f'{name}: EDIT NOT FOUND {old[:60]!r}'
    if not os.environ.get('NOTEST'):
        r = subprocess.run(['cargo', 'test', '--offline', '-q', '--target-dir', f'/tmp/rf/target-{name}'], cwd=d, capture_output=True, text=True)
        subprocess.run(['rm', '-rf', f'/tmp/rf/target-{name}'])
        if r.returncode:
            return f'{name}: DOES NOT BUILD/PASS\n{r.stdout[-1500:]}{r.stderr[-2500:]}'
    out = []
    for c in checks:
        t = time.time()
        ev = f'/tmp/rf/ev-{name}'; os.makedirs(ev, exist_ok=True)
        r = subprocess.run(['python3', '/verif/check.py', c], cwd='/verif', capture_output=True, text=True,
                           env=dict(os.environ, VP_REPO=d, VP_EVID=ev))
        ok = r.returncode == 0
        out.append(f'{name} {c} {"quiet" if ok else "FALSE ALARM"} {time.time()-t:.0f}s' + ('' if ok else '\n' + (r.stdout + r.stderr)[:1500]))
        print(out[-1], flush=True)
    subprocess.run(['rm', '-rf', f'/tmp/rf/ev-{name}', d])
    return '\n'.join(out) if False else ''

if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or list(R)
    ids = [i for a in ids for i in R if i == a or i.startswith(a)]
    os.makedirs('/tmp/rf', exist_ok=True)
    with ThreadPoolExecutor(int(os.environ.get('PAR', '3'))) as ex:
        for x in ex.map(lambda n: run(n, False), ids):
            if x: print(x, flush=True)
