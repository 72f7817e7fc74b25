"""Effect scan of the three library crates (C34): no unsafe code, no shared mutable state, no ambient inputs."""
import json, os, re, shutil, tempfile
from engine.extract import DEPS, SRC, flags, REPO, WORK, ExtractError, driver, edition, run, sysroot

# std API through which a computation can see something other than its arguments
AMBIENT = re.compile(
    r'^(std|core|alloc)::(env|time|thread|process|fs|net|os|backtrace|random|arch|alloc|sys)::'
    r'|^(std|core|alloc)::io::(stdin|stdout|stderr|Stdin|Stdout|Stderr|_print|_eprint|stdio)'
    r'|::RandomState::|::rt::Argument.*new_pointer|::Pointer::fmt'
    r'|^(std|core)::panic::(set_hook|take_hook|catch_unwind|Location)'
    r'|^std::thread_local|LocalKey|^(std|core)::ptr::(addr_of|from_exposed|with_exposed)'
    r'|::expose_provenance|::addr$')
# order of a hash container depends on a random seed
HASHITER = re.compile(r'hash_(map|set)::(Iter|IterMut|Keys|Values|ValuesMut|Drain|IntoIter|IntoKeys|IntoValues|ExtractIf|Union|Difference|Intersection|SymmetricDifference)\b')
HASHITER2 = re.compile(r'(HashMap|HashSet)(::)?<.*::(iter|iter_mut|keys|values|values_mut|drain|retain|into_iter|into_keys|into_values)$')
CELLS = re.compile(r'\b(UnsafeCell|Cell|RefCell|OnceCell|LazyCell|Mutex|RwLock|OnceLock|LazyLock|Once|Atomic\w+|LocalKey|Condvar)\b')
SHARED = re.compile(r'\b(Rc|Arc|Weak)<')


def scan(crate, tmp):
    """(scan of the crate, sites of unsafe code)"""
    d = driver()
    ext = []
    for c in DEPS[crate][:-1]:
        ext += ['--extern', 'httlib_%s=%s/libhttlib_%s.rlib' % (c, tmp, c)]
    src = os.path.join(REPO, SRC[crate])
    base = ['--edition', edition(crate), '--crate-name', 'httlib_' + crate, '--out-dir', tmp, '-L', tmp, [f for f in flags() if 'debug-assertions' in f][0]] + ext
    rc, o = run(['rustc', '+nightly'] + base + ['-Zalways-encode-mir', '-Awarnings', '--crate-type', 'rlib', src])
    if rc:
        raise ExtractError('crate %s does not compile: %s' % (crate, o[-1500:]))
    # rejection of unsafe code by the compiler itself
    rc, o = run(['rustc', '+nightly'] + base + ['-Awarnings', '-F', 'unsafe_code', '--error-format', 'json', '--crate-type', 'rlib',
                                                '--emit', 'metadata=%s/unsafe.rmeta' % tmp, src])
    unsafe = []
    if rc:
        for l in o.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get('level') == 'error':
                for sp in m.get('spans', []):
                    unsafe.append((os.path.relpath(sp['file_name'], REPO), sp['text'][0]['text'].strip()[:80] if sp.get('text') else '', m['message']))
        if not unsafe:
            unsafe.append((SRC[crate], '', o[-300:]))
    out = os.path.join(tmp, crate + '.scan')
    rc, o = run([d, '--sysroot', sysroot()] + base + ['-Awarnings', '-Zmir-opt-level=0', '--crate-type', 'lib', '--emit', 'metadata', src],
                {'VP_OUT': out, 'VP_SCAN': '1'})
    if rc or not os.path.exists(out):
        raise ExtractError('scan of %s failed: %s' % (crate, o[-1500:]))
    return json.load(open(out)), unsafe


def C34(rep):
    tmp = tempfile.mkdtemp(prefix='scan', dir=WORK) if os.path.isdir(WORK) else None
    if tmp is None:
        os.makedirs(WORK, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix='scan', dir=WORK)
    try:
        for crate in ('huffman', 'hpack', 'protos'):
            d, unsafe = scan(crate, tmp)
            rep.count('bodies of httlib_%s' % crate, len(d['bodies']))
            rep.ob('the crate contains no unsafe code', not unsafe, 'httlib_%s' % crate)
            for f, t, m in unsafe:
                rep.fail('the crate contains no unsafe code', '%s: %s' % (f, t), m)
            for n, t, mut, tls, freeze in d['statics']:
                rep.ob('a static is immutable and has no interior mutability', not mut and freeze and not tls, 'static %s' % n,
                       'type %s%s%s%s' % (t, ', static mut' if mut else '', ', thread local' if tls else '', '' if freeze else ', interior mutability'),
                       sample='%s: %s' % (n, t))
            own = {s[0] for s in d['statics']}
            for b in d['bodies']:
                calls = [f for f in b['fns'] if AMBIENT.search(f[0])]
                rep.ob('no ambient input is consulted (environment, clock, randomness, threads, files, addresses)', not calls, b['name'],
                       'uses ' + ', '.join(sorted({f[0] for f in calls})), sample='%s: %d callees' % (b['name'], len(b['fns'])))
                bad = [k for k, l in b['casts'] if 'Expose' in k or 'PointerExpose' in k]
                rep.ob('no address is turned into a number', not bad, b['name'], ', '.join(bad))
                rep.ob('no thread-local is accessed', not b['tls'], b['name'])
                ext = [s for s, l in b['statics'] if s not in own and not s.startswith('httlib_')]
                rep.ob('no foreign static is accessed', not ext, b['name'], ', '.join(ext))
                it = [t for t in b['types'] if HASHITER.search(t)] + [f[0] for f in b['fns'] if HASHITER2.search(f[0])]
                rep.ob('no result depends on the iteration order of a hash container', not it, b['name'], ', '.join(it[:3]))
                sh = [t for t in b['types'] if SHARED.search(t) and CELLS.search(t)]
                rep.ob('no shared mutable cell is used', not sh, b['name'], ', '.join(sh[:3]))
        rep.floor('no ambient input is consulted (environment, clock, randomness, threads, files, addresses)', 100)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
