"""HPACK: product analyses of the indexing table, the decoder and the encoder with reference machines."""
import json, os
from engine.extract import extract, V
from engine.interp import *
from engine.models import *
from engine.ghost import *
from engine.loops import weight, elweight

STATIC = json.load(open(os.path.join(V, 'data', 'rfc7541.json')))['static']
JS = [[{'r': list(n.encode('latin1'))}, {'r': list(v.encode('latin1'))}] for n, v in STATIC]


def first(seq):
    return seq[0] if seq else None


class TableHook:
    """reference index table: static entries of RFC 7541, then the dynamic sequence D (newest first), its maximum"""
    keepsym = True
    live = (('g', 'max'),)

    def __init__(self, ops=None):
        self.ops = ops
        self.n = 0
        self.root = None
        self.checks = {}
        self.ety = None

    def fork(self, I, st, alts):
        return None

    # -------------------------------------------------------------- entries and weights
    def isentry(self, I, t):
        if t is None:
            return False
        r = self.memo.get(t)
        if r is None:
            d = I.T[t]
            fs = d['f'] if d['k'] == 'tuple' else [f[1] for f in d['v'][0]['f']] if d['k'] == 'adt' and d['adt'] == 'struct' else []
            r = len(fs) == 2 and all(I.vecty(f) is not None and I.bits_of(I.vecty(f)) == 8 for f in fs)
            self.memo[t] = r
        return r

    memo = None

    def on_el(self, I, st, base, i, v):
        """weight of the prefix that ends with this element"""
        if not isinstance(v, tuple) or v[0] != 'agg' or len(v[1]) != 2 or any(not (isinstance(x, tuple) and x[0] == 'vec') for x in v[1]):
            return
        a = atom(('wsum', map_name(base, st.norm), st.norm(i + 1)), 64, 0, LENMAX, 'len')
        lhs = st.norm(av(a))
        rhs = st.norm(W(st, base, i) + elweight(v))
        if st.norm(lhs - rhs) is ZERO:
            return
        if len(lhs.t) == 1 and lhs.t[0] == (a, 1) and lhs.c == 0:
            ok = st.set_eq(a, rhs)
        else:
            ok = st.add_eq(lhs - rhs)
        if not ok:
            st.dead = True

    def seqs(self, I, st):
        """the entry sequences held by the object under analysis"""
        out = []

        def walk(v):
            if not isinstance(v, tuple) or not v:
                return
            if v[0] == 'vec':
                if self.isentry(I, v[3]):
                    out.append(v)
            elif v[0] == 'agg':
                for x in v[1]:
                    walk(x)
            elif v[0] == 'enum':
                for x in v[2]:
                    walk(x)
        if self.root is not None:
            v = st.mem.get(self.root)
            if v is not None:
                walk(v)
        return out

    def virtuals(self, I, st):
        out = []
        for v in self.seqs(I, st):
            f = weight(st, v[1])
            if f.t:
                out.append(f)
        return out

    def candidates(self, I, fix, g):
        """what the last eviction removed did not fit"""
        out = []
        c = st_get(g.A0, 'C')
        d = st_get(g.A0, 'D')
        if d is not None and d[1] and st_get(g.A0, 'busy') is ZERO:
            n = slen(canon_seq(g.A0, d[1]))
            for a in g.cells:
                for k in (61, 62):
                    q = ('ge', n + k - av(a))
                    if fix.holds(g, q):
                        out.append(q)
                        break
        if c is None or st_get(g.A0, 'busy') is not ONE:
            return out
        mx = st_get(g.A0, 'max')
        for v in self.seqs(I, g.A0):
            for f in self.over(g.A0, c[1], v[1]):
                q = ('ge', f - mx - 1)
                if fix.holds(g, q):
                    out.append(q)
        return out

    def over(self, st, C, seq):
        """weights of the candidate prefix that is one entry longer than the current sequence"""
        out = []
        n = slen(canon_seq(st, seq))
        for c in (C, self.tail(st, C)):
            if c is None:
                continue
            try:
                t = st.copy()
                if not t.assume(ge(slen(c) - n - 1)):
                    continue
                a, b = split(t, c, n)
                if not b:
                    continue
                a2, b2 = split(t, b, ONE)
                f = weight(t, tuple(a) + tuple(a2))
                if c is not C:
                    f = f + weight(t, split(t, C, ONE)[0])
                out.append(t.norm(f))
            except (Fork, Unsupported):
                continue
        return out

    def tail(self, st, C):
        if C and C[0][0] == 'L':
            return joinsegs((('L', C[0][1][1:]),) if len(C[0][1]) > 1 else (), C[1:])
        return None

    # -------------------------------------------------------------- lockstep
    def sync(self, I, st):
        if st_get(st, 'busy') is not ONE:
            return
        # has anything been evicted since the operation began?
        D = canon_seq(st, gget(st, 'D')[1])
        C = canon_seq(st, gget(st, 'C')[1])
        new = gget(st, 'new') is ONE
        k = 0
        for v in self.seqs(I, st):
            q = canon_seq(st, v[1])
            m = slen(q)
            pushed = new and q and q[0][0] == 'L' and q[0][1][0] == C[0][1][0]
            if st.truth(ge(slen(D) + (1 if pushed else 0) - m - 1)):
                k = 1
            elif new and not q:
                k = 3
        gset(st, 'popped', const(k))

    # -------------------------------------------------------------- operations
    def start(self, st):
        St.LOW = True
        gset(st, 'D', ('vec', (), None, None))
        gset(st, 'C', ('vec', (), None, None))
        gset(st, 'max', ZERO)
        gset(st, 'busy', ZERO)
        gset(st, 'popped', ZERO)
        gset(st, 'new', ZERO)
        gset(st, 'fi', ZERO)
        gset(st, 'fn', ('enum', 0, ()))
        gset(st, 'fq', ZERO)
        gset(st, 'N', ('vec', (), None, None))
        gset(st, 'V', ('vec', (), None, None))

    def models(self):
        return {'@vp_u32': self.arb32, '@vp_u8': self.arb8, '@vp_op': self.op, '@vp_bytes': self.bytes,
                '@vp_t_new': self.new, '@vp_t_insert': self.insert, '@vp_t_max': self.setmax, '@vp_t_done': self.done,
                '@vp_t_get': self.get, '@vp_t_iter': self.iter, '@vp_t_find': self.find, '@vp_t_found': self.found,
                '@vp_t_sizes': self.sizes}

    def ob(self, what):
        self.checks[what] = self.checks.get(what, 0) + 1

    def fresh(self, w):
        self.n += 1
        return fv(('arb', self.n), w)

    def arb32(self, I, st, a, c):
        return self.fresh(32)

    def arb8(self, I, st, a, c):
        return self.fresh(8)

    def op(self, I, st, a, c):
        return Multi([(st.copy(), const(k)) for k in self.ops])

    def bytes(self, I, st, a, c):
        self.n += 1
        return ('vec', S(('arb', self.n)), None, I.u8())

    def new(self, I, st, a, c):
        self.root = a[0][1]
        self.memo = {}
        gset(st, 'max', st.norm(a[1]))
        q = self.seqs(I, st)
        self.ob('a new table is empty')
        if len(q) != 1:
            raise Unsupported('the dynamic entries are not held in one sequence of name/value pairs')
        if not st.truth(eq(slen(q[0][1]))):
            raise Viol(('C09', 'C10', 'C12'), 'a new table is not empty')
        gset(st, 'D', ('vec', (), None, q[0][3]))
        gset(st, 'C', ('vec', (), None, q[0][3]))
        self.ety = q[0][3]
        return UNIT

    def val(self, I, st, r):
        v = I.read(st, r[1], r[2])
        return ('vec', canon_seq(st, v[1]), None, I.u8())

    def insert(self, I, st, a, c):
        e = ('agg', (self.val(I, st, a[0]), self.val(I, st, a[1])))
        D = gget(st, 'D')
        gset(st, 'C', ('vec', joinsegs((('L', (e,)),), D[1]), None, D[3]))
        gset(st, 'new', ONE)
        gset(st, 'busy', ONE)
        return UNIT

    def setmax(self, I, st, a, c):
        gset(st, 'C', gget(st, 'D'))
        gset(st, 'max', st.norm(a[0]))
        gset(st, 'busy', ONE)
        return UNIT

    def evicted(self, I, st):
        """the dynamic sequence after the operation must be the longest prefix of C that fits"""
        C = canon_seq(st, gget(st, 'C')[1])
        mx = st.norm(gget(st, 'max'))
        q = self.seqs(I, st)
        self.ob('eviction leaves the longest prefix that fits')
        if len(q) != 1:
            raise Unsupported('the dynamic entries are not held in one sequence of name/value pairs')
        seq = canon_seq(st, q[0][1])
        n = st.norm(slen(seq))
        if not st.truth(ge(slen(C) - n)):
            raise Viol(('C09', 'C10', 'C04'), 'the table holds more entries than were ever added')
        pre, post = split(st, C, n)
        if not seq_same(I, st, seq, pre, self.ety):
            raise Viol(('C10', 'C04', 'C14'), 'the dynamic entries are not the newest entries in order, the new one first')
        if st.decide(ge(mx - weight(st, seq))) is not True:
            raise Viol(('C09',), 'the entries may exceed the maximum size after the operation')
        if not st.truth(eq(slen(C) - n)):
            a, b = split(st, post, ONE)
            x = I.segelem(st, a[0], ZERO, self.ety)
            w = st.norm(weight(st, seq) + elweight(x))
            if st.decide(ge(w - mx - 1)) is not True:
                if os.environ.get('VP_LOOPDBG'): print('EV', w, mx, st.ges, st.iv, st.sub, st_get(st,'popped'),seq)
                raise Viol(('C09', 'C10'), 'an entry that fits is evicted')
        gset(st, 'D', ('vec', seq, None, self.ety))
        gset(st, 'C', ('vec', (), None, self.ety))
        gset(st, 'busy', ZERO)
        gset(st, 'popped', ZERO)
        gset(st, 'new', ZERO)

    def done(self, I, st, a, c):
        self.evicted(I, st)
        return UNIT

    def sizes(self, I, st, a, c):
        D = canon_seq(st, gget(st, 'D')[1])
        self.ob('reported sizes')
        if st.decide(eq(a[1] - slen(D))) is not True or st.decide(eq(a[0] - slen(D) - 61)) is not True:
            raise Viol(('C10',), 'the reported number of entries is wrong')
        if st.decide(eq(a[2] - weight(st, D))) is not True:
            raise Viol(('C09',), 'the reported size is not the sum of the entry sizes')
        if st.decide(eq(a[3] - gget(st, 'max'))) is not True:
            raise Viol(('C09', 'C05'), 'the reported maximum size is not the one that was set')
        if st.decide(ge(a[3] - a[2])) is not True:
            raise Viol(('C09',), 'the reported size may exceed the reported maximum')
        return UNIT

    # -------------------------------------------------------------- the entry at an index
    def entry(self, I, st, i):
        """None or (name, value) as segment lists; forks into index 0 / static / dynamic / beyond"""
        i = st.norm(i)
        D = canon_seq(st, gget(st, 'D')[1])
        if not st.truth(ge(i - 1)):
            return None
        if not st.truth(ge(i - 62)):
            t = self.sty(I)
            j = st.norm(i - 1)
            x = I.resolve_tel(st, ('tel', tabid_content(t), (j if j.t else j.c,)), t[1])
            return tuple(slice_segs(I, st, s) for s in x[1])
        j = st.norm(i - 62)
        if not st.truth(lt(j - slen(D))):
            return None
        x = I.elem(st, ('vec', D, None, self.ety), j)
        return tuple(v[1] for v in x[1])

    def sty(self, I):
        """type of the static table: a sequence of pairs of byte slices"""
        if not hasattr(self, '_sty'):
            for i, t in enumerate(I.T):
                if t['k'] == 'tuple' and len(t['f']) == 2 and all(I.T[f]['k'] == 'ref' and I.T[I.T[f]['e']]['k'] == 'slice'
                                                                 and I.bits_of(I.T[I.T[f]['e']]['e']) == 8 for f in t['f']):
                    self._sty = ('seq', i)
                    break
            else:
                raise Unsupported('no type for static entries')
        return self._sty

    def optpair(self, I, st, r):
        r = I.expand(st, I.read(st, r[1], r[2]))
        if r[1] == 0:
            return None
        return tuple(slice_segs(I, st, s) for s in r[2][0][1])

    def same_entry(self, I, st, got, want, i):
        if (got is None) != (want is None):
            return False
        if got is None:
            return True
        for x, y in zip(got, want):
            if not seq_same_static(I, st, x, y, i):
                return False
        return True

    def get(self, I, st, a, c):
        i = st.norm(a[0])
        self.ob('entry at an index')
        got = self.optpair(I, st, a[1])
        want = self.entry(I, st, i)
        if not self.same_entry(I, st, got, want, i):
            raise Viol(('C10',), 'get: %s' % self.where(st, i))
        return UNIT

    def where(self, st, i):
        if st.decide(eq(i)) is True:
            return 'index 0 yields an entry'
        if st.decide(lt(i - 62)) is True:
            return 'a static index does not yield its static entry'
        if st.decide(lt(i - 62 - slen(gget(st, 'D')[1]))) is True:
            return 'index 62+k does not yield the k-th newest dynamic entry'
        return 'an index beyond the table yields an entry'

    def iter(self, I, st, a, c):
        i = st.norm(a[0])
        self.ob('entry yielded by iteration')
        got = self.optpair(I, st, a[1])
        want = self.entry(I, st, i)
        if not self.same_entry(I, st, got, want, i):
            raise Viol(('C10',), 'iter: %s' % self.where(st, i))
        return UNIT

    # -------------------------------------------------------------- reference search
    def find(self, I, st, a, c):
        """start scanning entry by entry; 'fi' entries are done, 'fn' is the first with the name"""
        gset(st, 'N', self.val(I, st, a[0]))
        gset(st, 'V', self.val(I, st, a[1]))
        gset(st, 'fi', ZERO)
        gset(st, 'fn', ('enum', 0, ()))
        gset(st, 'fq', ONE)
        return UNIT

    def on_eq(self, I, st, x, y, r):
        """a comparison by the code under analysis: when it settles the next entry, the scan moves on"""
        if self.quiet or st_get(st, 'fq') is not ONE:
            return
        if self.seen(I, st, x, y, r):
            return
        t = st.copy()
        self.quiet = True
        try:
            N, V = canon_seq(t, gget(t, 'N')[1]), canon_seq(t, gget(t, 'V')[1])
            x, y = canon_seq(t, x), canon_seq(t, y)
            i = t.norm(gget(t, 'fi') + 1)
            e = self.entry(I, t, i)
            if e is None:
                return
            n, v = canon_seq(t, e[0]), canon_seq(t, e[1])
            if not ({x, y} <= {N, n} or {x, y} <= {V, v}):
                return
            if not seq_eq0(I, t, N, n):
                f = q = None
            elif seq_eq0(I, t, V, v):
                f, q = i, const(3)
            else:
                f, q = i, None
        except Fork:
            return
        finally:
            self.quiet = False
        gset(st, 'fi', i)
        if f is not None and gget(st, 'fn')[1] == 0:
            gset(st, 'fn', ('enum', 1, (f,)))
        if q is not None:
            gset(st, 'fq', q)

    def seen(self, I, st, x, y, r):
        """a second look at the name of an entry the scan has passed: the answer is already known"""
        N = canon_seq(st, gget(st, 'N')[1])
        x, y = canon_seq(st, x), canon_seq(st, y)
        z = y if x == N else x if y == N else None
        if z is None:
            return False
        fn = gget(st, 'fn')
        if all(q[0] == 'L' and all(isinstance(v, Form) and not v.t for v in q[1]) for q in z):
            txt = ''.join(chr(v.c) for q in z for v in q[1])
            idx = [k + 1 for k, (n, _) in enumerate(STATIC) if n == txt and st.decide(ge(gget(st, 'fi') - k - 1)) is True]
            if not idx:
                return False
            if r:
                if fn[1] == 0 or not st.truth(ge(const(idx[0]) - fn[2][0])):
                    st.dead = True
            elif fn[1] and any(st.truth(eq(fn[2][0] - k)) for k in idx):
                st.dead = True
            return False
        if len(z) != 1 or z[0][0] != 'S':
            return False
        j = None
        for f in deps_of_index(z[0][1]):
            for k in (f + 1, f + 62):
                t = st.copy()
                self.quiet = True
                try:
                    e = self.entry(I, t, k)
                    if e is not None and canon_seq(t, e[0]) == z:
                        j = st.norm(k)
                except Fork:
                    pass
                finally:
                    self.quiet = False
        if j is None or st.decide(ge(gget(st, 'fi') - j)) is not True:
            return False
        if fn[1] == 0:
            known = False
        elif st.truth(lt(j - fn[2][0])):
            known = False
        elif st.truth(eq(j - fn[2][0])):
            known = True
        else:
            return True
        if known != r:
            st.dead = True
        return True

    quiet = False

    def found(self, I, st, a, c):
        self.ob('result of a search')
        q = st.norm(gget(st, 'fq')).c
        if q == 1 and self.entry(I, st, gget(st, 'fi') + 1) is None:
            q = 2
        r = I.expand(st, I.read(st, a[2][1], a[2][2]))
        got = None
        if r[1] == 1:
            i, full = r[2][0][1]
            got = (st.norm(i), full if isinstance(full, bool) else st.truth(full))
        fn = gget(st, 'fn')
        if q == 3:
            if got is None:
                raise Viol(('C12',), 'nothing is found although an entry matches completely')
            if not got[1]:
                raise Viol(('C12',), 'a name-only match although an entry matches completely')
            if st.decide(eq(got[0] - gget(st, 'fi'))) is not True:
                raise Viol(('C12',), 'the index of a full match is not the smallest one')
        elif q == 2:
            if fn[1] == 0:
                if got is not None:
                    raise Viol(('C12',), 'a match although no entry has the name')
            else:
                if got is None:
                    raise Viol(('C12',), 'nothing is found although an entry has the name')
                if got[1]:
                    raise Viol(('C12',), 'a full match although no entry matches completely')
                if st.decide(eq(got[0] - fn[2][0])) is not True:
                    raise Viol(('C12',), 'the index of a name match is not the smallest one')
        elif got is None:
            raise Viol(('C12',), 'nothing is found before the whole table has been searched')
        elif not got[1]:
            raise Viol(('C12',), 'a name-only match before the whole table has been searched')
        else:
            raise Viol(('C12',), 'a full match is reported for an entry that was not compared')
        gset(st, 'fq', ZERO)
        gset(st, 'fi', ZERO)
        gset(st, 'fn', ('enum', 0, ()))
        gset(st, 'N', ('vec', (), None, None))
        gset(st, 'V', ('vec', (), None, None))
        return UNIT


def deps_of_index(n):
    """the index expressions in the name of a table element"""
    out, stack = [], [n]
    while stack:
        x = stack.pop()
        if isinstance(x, Form):
            out.append(x)
        elif isinstance(x, tuple):
            stack += list(x)
    return out


def st_get(st, n):
    return st.mem.get(('g', n))


def tabid_content(t):
    i = tabid(JS, t)
    return TABPAIRS[i][2]


def seq_same_static(I, st, x, y, i):
    """equality of contents; splits on the index when a static entry is compared with something else"""
    x, y = canon_seq(st, x), canon_seq(st, y)
    if x == y:
        return True

    def tab(q):
        return any(s[0] == 'S' and isinstance(s[1], tuple) and s[1][0] == 'tabs' and deps_of(s[1]) for s in q)
    if tab(x) or tab(y):
        vs = st.values(i, 70)
        if vs and len(vs) > 1:
            raise Fork([[eq(i - v)] for v in vs])
    return seq_same(I, st, x, y, I.u8())


def table_session(d, root, ops):
    h = TableHook(ops)
    I = Interp(d, Models(h.models()), hook=h, max_steps=8000000)
    I.opts['maxconst'] = 8
    I.opts['nounroll'] = ('vp_hpack::' + root, 'vp_hpack::table_session')
    st = St()
    h.start(st)
    outs = I.run_root(root, [fv(('arg', 'n'), 32)] if not root.endswith('def') else [], st)
    return I, h, outs
