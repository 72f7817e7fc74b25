"""mkseed: create /verif/seeded/<id>/ from edits.  Used by tools/seeds_*.py"""
import os, subprocess, tempfile, shutil, json
V = '/verif'

def mkseed(id, prop, edits, needs, breaks, demo):
    w = tempfile.mkdtemp(prefix='mk')
    try:
        subprocess.check_call('git -C /repo archive HEAD | tar x -C %s/ --one-top-level=b; cp -r %s/b %s/a' % (w, w, w), shell=True)
        for f, old, new in edits:
            p = '%s/b/%s' % (w, f)
            s = open(p).read()
            n = s.count(old)
            assert n == 1, (id, f, old, n)
            open(p, 'w').write(s.replace(old, new))
        d = V + '/seeded/' + id
        os.makedirs(d, exist_ok=True)
        r = subprocess.run('git diff --no-index --no-prefix a b', shell=True, cwd=w, stdout=subprocess.PIPE)
        out = r.stdout.decode()
        open(d + '/patch.diff', 'w').write(out)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        shutil.copy(V + '/tools/demo_template.sh', d + '/demo.sh')
        open(d + '/demo.rs', 'w').write(demo)
    finally:
        shutil.rmtree(w)
