#!/usr/bin/env python3
"""seedtest.py [--checks] [ids..]: validate planted bugs in a scratch copy of /repo (build, tests, demo both ways);
with --checks also run the check of the property against the patched copy (VP_REPO)."""
import sys, os, subprocess, json, shutil, tempfile, concurrent.futures as cf
V = '/verif'
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
checks = '--checks' in sys.argv
only = '--only-checks' in sys.argv
allc = '--all' in sys.argv

def sh(c, cwd, env=None, t=600):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=t)
    return r.returncode, r.stdout.decode('utf8', 'replace')

def one(i):
    d = V + '/seeded/' + i
    meta = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='seed')
    out = []
    try:
        sh('git -C /repo archive HEAD | tar x -C %s' % w, '/')
        shutil.copytree(d, w + '.demo')
        sh('cp -a /repo/Cargo.lock %s 2>/dev/null' % w, '/')
        if not only:
            rc, o = sh('sed "s#/repo#%s#g" demo.sh > demo2.sh; cd %s; bash %s.demo/demo2.sh' % (w, w, w), w + '.demo')
            if rc: out.append('demo fails on unchanged tree: ' + o[-300:])
        rc, o = sh('patch -p1 -s < %s/patch.diff' % d, w)
        if rc: return i, ['patch does not apply ' + o[-200:]]
        if not only:
            env = {'CARGO_TARGET_DIR': w + '/target'}
            rc, o = sh('cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E "^test .*FAILED|error(\\[|:)|test result"', w, env)
            bad = [l for l in o.splitlines() if 'FAILED' in l and l.startswith('test ')] + [l for l in o.splitlines() if l.startswith('error')]
            if bad: out.append('tests fail: ' + '; '.join(bad[:5]))
            rc, o = sh('cd %s; bash %s.demo/demo2.sh' % (w, w), w)
            if rc == 0: out.append('demo passes with the patch')
        if checks or only:
            pids = [meta['property']]
            if allc:
                pids = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
            res = []
            for p in pids:
                rc, o = sh('python3 check.py %s' % p, V, {'VP_REPO': w, 'VP_EVID': w + '.demo'}, 900)
                if rc == 1 and 'VIOLATION property=' + p in o:
                    res.append('%s CAUGHT' % p + ('' if allc else ' ' + o.strip().splitlines()[0][:160]))
                elif rc != 0: res.append('%s rc=%d %s' % (p, rc, o[-200:]))
                elif not allc: res.append('%s MISSED' % p)
            out.append(' '.join(res))
        return i, out
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(w + '.demo', ignore_errors=True)

with cf.ThreadPoolExecutor(4) as ex:
    for i, o in ex.map(one, ids):
        print(i, '|', ' | '.join(o) if o else 'ok', flush=True)
