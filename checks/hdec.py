"""HPACK decoder: product analysis with a reference decoder over arbitrary sequences of calls.

The indexing table is abstract here: a token T that identifies its contents, and its maximum size. The operations of
Table have the contract that C09, C10 and C12 establish for the real one: insert and update_max_dynamic_size lead to
the token of the operation, get gives entry i of T exactly for 1 <= i <= 61 + (number of dynamic entries of T)."""
import os, re
from engine.interp import *
from engine.models import *
from engine.ghost import *

TAG = const(0x7ab1e7ab1e)
METHOD = re.compile(r"(?:^|::)Table(?:::)?(?:<[^<>]*>)?::(\w+)$")


def tabop(inst):
    """name of the operation of the public Table type that inst is, or None"""
    if inst['crate'] != 'httlib_hpack':
        return None
    p = inst['path']
    if re.search(r"\bTable<[^<>]*> as [\w:]*Default>::default$", p):
        return 'default'
    m = METHOD.search(p)
    return m.group(1) if m else None


def content(T, i, what):
    """octets of the name or value of entry i of table T"""
    return S((what, T, i))


class TabAbs:
    keepsym = True
    moves = True
    live = ()

    def __init__(self, ops=None):
        self.ops = ops
        self.n = 0
        self.checks = {}
        self.tops = {}

    def fork(self, I, st, alts):
        return None

    def ob(self, what):
        self.checks[what] = self.checks.get(what, 0) + 1

    def fresh(self, w):
        self.n += 1
        return fv(('arb', self.n), w)

    def arb32(self, I, st, a, c):
        return self.fresh(32)

    def arb8(self, I, st, a, c):
        return self.fresh(8)

    def op(self, I, st, a, c):
        return Multi([(st.copy(), const(k)) for k in self.ops])

    def bytes(self, I, st, a, c):
        self.n += 1
        return ('vec', S(('arb', self.n)), None, I.u8())

    # -------------------------------------------------------------- the abstract table
    def preds(self):
        def pred(n):
            return lambda inst: tabop(inst) == n
        return [(pred(n), getattr(self, 't_' + n)) for n in
                ('with_dynamic_size', 'default', 'len', 'dynamic_len', 'max_dynamic_size', 'update_max_dynamic_size', 'get', 'insert', 'find')]

    def used(self, n):
        self.tops[n] = self.tops.get(n, 0) + 1

    def mk(self, T, mx):
        return ('agg', (T, mx, TAG))

    def tab(self, I, st, r):
        v = I.read(st, r[1], r[2])
        if not (isinstance(v, tuple) and v[0] == 'agg' and len(v[1]) == 3 and v[1][2] is TAG):
            raise Unsupported('not the abstract table: %r' % (v,))
        return st.norm(v[1][0]), st.norm(v[1][1])

    def t_with_dynamic_size(self, I, st, a, c):
        return self.mk(fv(('tnew',), 64), st.norm(a[0]))

    def t_default(self, I, st, a, c):
        return self.mk(fv(('tnew',), 64), const(4096))

    def dlen(self, T):
        return fv(('dlen', T), 64, 0, 1 << 27, 'len')

    def t_len(self, I, st, a, c):
        return st.norm(self.dlen(self.tab(I, st, a[0])[0]) + 61)

    def t_dynamic_len(self, I, st, a, c):
        return st.norm(self.dlen(self.tab(I, st, a[0])[0]))

    def t_max_dynamic_size(self, I, st, a, c):
        return self.tab(I, st, a[0])[1]

    def t_update_max_dynamic_size(self, I, st, a, c):
        self.used('resize')
        T, mx = self.tab(I, st, a[0])
        n = st.norm(a[1])
        I.write(st, a[0][1], a[0][2], self.mk(self.resized(st, T, n), n))
        return UNIT

    def resized(self, st, T, n):
        return fv(('tmax', st.norm(T), st.norm(n)), 64)

    def inserted(self, st, T, name, val):
        return fv(('tins', st.norm(T), canon_seq(st, name), canon_seq(st, val)), 64)

    def t_insert(self, I, st, a, c):
        self.used('insert')
        T, mx = self.tab(I, st, a[0])
        I.write(st, a[0][1], a[0][2], self.mk(self.inserted(st, T, a[1][1], a[2][1]), mx))
        return UNIT

    def entry(self, I, st, T, i):
        """None or (name, value) of entry i of table T; forks"""
        i, T = st.norm(i), st.norm(T)
        if not st.truth(ge(i - 1)) or not st.truth(ge(self.dlen(T) + 61 - i)):
            return None
        return content(T, i, 'en'), content(T, i, 'ev')

    def t_get(self, I, st, a, c):
        T, mx = self.tab(I, st, a[0])
        e = self.entry(I, st, T, a[1])
        if e is None:
            return ('enum', 0, ())
        u8 = I.u8()
        out = []
        for x in e:
            out.append(('slice', ('sym', x[0][1], ('seq', u8)), (), ZERO, slen(x)))
        return ('enum', 1, (('agg', tuple(out)),))

    def t_find(self, I, st, a, c):
        raise Unsupported('Table::find in a decoder')

    def real(self, I, st):
        """token and maximum of the tables in memory"""
        out = []

        def walk(v):
            if isinstance(v, tuple) and v:
                if v[0] == 'agg' and len(v[1]) == 3 and v[1][2] is TAG:
                    out.append((st.norm(v[1][0]), st.norm(v[1][1])))
                elif v[0] == 'agg':
                    for x in v[1]:
                        walk(x)
                elif v[0] == 'enum':
                    for x in v[2]:
                        walk(x)
                elif v[0] in ('ref', 'box') and len(seen) < 50 and v[1:] not in seen:
                    seen.append(v[1:])
                    walk(I.read(st, v[1], v[2]))
        seen = []
        walk(I.read(st, self.root[1], self.root[2]))
        if len(out) != 1:
            raise Unsupported('%d indexing tables' % len(out))
        return out[0]

    def tablematch(self, I, st):
        T, mx = self.real(I, st)
        return T is st.norm(gget(st, 'T')) and mx is st.norm(gget(st, 'max'))


# ---------------------------------------------------------------- the decoder
def huffman(pred):
    return lambda inst: inst['crate'] == 'httlib_huffman' and pred(inst['path'].rsplit('::', 1)[-1])


def huff_dec(I, st, a, c):
    """contract of httlib_huffman::decode (decided by C21-C23): appends the decoded octets or fails"""
    src = canon_seq(st, segs_any(I, st, a[0]))
    segs, cap, e = seqval(I, st, a[1])
    key = ('huffok', src)
    r = st.lookup(key)
    if r is None:
        raise Fork([[('is', key, True)], [('is', key, False)]])
    if r:
        setseq(I, st, a[1], tuple(segs) + S(('hd', src)))
        return ('enum', 0, (UNIT,))
    I.huffn = getattr(I, 'huffn', 0) + 1
    setseq(I, st, a[1], tuple(segs) + S(('hgarbage', I.huffn)))
    ert = I.T[c.dty]['args'][1]
    return ('enum', 1, (('enum', variant(I, ert, 'InvalidInput'), ()),))


KINDS = {'under': 'IntegerUnderflow', 'over': 'IntegerOverflow', 'index': 'InvalidIndex', 'huff': 'InvalidInput', 'size': 'InvalidMaxDynamicSize'}
ERRCAT = {'under': ('C07', 'C08'), 'over': ('C07',), 'index': ('C03',), 'huff': ('C08',), 'size': ('C05',),
          'IntegerUnderflow': ('C07', 'C08'), 'IntegerOverflow': ('C07',), 'InvalidIndex': ('C03',), 'InvalidInput': ('C08', 'C03'),
          'InvalidMaxDynamicSize': ('C05',), 'InvalidPrefix': ('C07', 'C03')}
TEXT = {'under': 'a truncated integer or string', 'over': 'an integer of more than five octets', 'index': 'an index that is not in the table',
        'huff': 'an invalid Huffman string', 'size': 'a size update above the limit', 'end': 'a complete header block',
        'more': 'a block with further complete fields'}


class Stop(Exception):
    def __init__(self, kind):
        self.kind = kind


def spec_int(I, st, segs, n):
    """RFC 7541 5.1 with the five octet limit: (octets used, value)"""
    ln = st.norm(slen(segs))
    if not st.truth(ge(ln - 1)):
        raise Stop('under')
    u8 = I.u8()
    b = st.norm(seq_at(I, st, segs, ZERO, u8))
    m = (1 << n) - 1
    v = st.frombits(st.cut(st.bits(b, 8), 0, n))
    if st.truth(ge(-v + (m - 1))):
        return ONE, v
    parts = []
    for k in range(1, 5):
        if not st.truth(ge(ln - k - 1)):
            raise Stop('under')
        b = st.norm(seq_at(I, st, segs, const(k), u8))
        parts += st.cut(st.bits(b, 8), 0, 7)
        if not st.truth(ge(b - 128)):
            return const(k + 1), st.norm(st.frombits(parts) + m)
    raise Stop('over')


CODES = [None, 'under', 'over', 'index', 'huff', 'size']


class DecHook(TabAbs):
    """reference decoder of RFC 7541 section 6: P unread octets, O delivered fields, lim the configured limit"""
    live = (('g', 'max'), ('g', 'lim'), ('g', 'T'))

    def __init__(self, ops=None):
        TabAbs.__init__(self, ops)
        self.buf = self.dst = None
        self.fty = None
        self.ends = {}

    def start(self, st):
        St.LOW = True
        gset(st, 'T', ZERO)
        gset(st, 'max', ZERO)
        gset(st, 'P', ('vec', (), None, None))
        gset(st, 'B', ('vec', (), None, None))
        gset(st, 'O', ('vec', (), None, None))
        gset(st, 'lim', ZERO)
        gset(st, 'on', ZERO)
        gset(st, 'md', ZERO)
        self.idle(st)

    def models(self):
        m = {'@vp_u32': self.arb32, '@vp_u8': self.arb8, '@vp_op': self.op, '@vp_bytes': self.bytes,
             '@vp_fields': self.fields, '@vp_d_new': self.dnew, '@vp_d_setmax': self.dset, '@vp_d_max': self.dmax,
                  '@vp_d_begin': self.begin, '@vp_d_end': self.end}
        return m

    def fields(self, I, st, a, c):
        self.n += 1
        return ('vec', S(('arb', self.n)), None, I.vecty(c.dty))

    def dnew(self, I, st, a, c):
        gset(st, 'lim', st.norm(a[1]))
        self.root = a[0]
        T, mx = self.real(I, st)
        if st.decide(eq(mx - a[1])) is not True:
            raise Viol(('C04', 'C05'), 'a new decoder has another table size than its limit')
        gset(st, 'T', T)
        gset(st, 'max', mx)
        return UNIT

    def dset(self, I, st, a, c):
        gset(st, 'lim', st.norm(a[0]))
        return UNIT

    def dmax(self, I, st, a, c):
        self.ob('reported limit')
        if st.decide(eq(a[0] - gget(st, 'lim'))) is not True:
            raise Viol(('C05',), 'the reported limit is not the configured one')
        return UNIT

    def begin(self, I, st, a, c):
        self.buf, self.dst = a[0], a[1]
        b = I.read(st, a[0][1], a[0][2])
        d = I.read(st, a[1][1], a[1][2])
        self.fty = d[3]
        gset(st, 'B', ('vec', b[1], None, b[3]))
        gset(st, 'P', ('vec', b[1], None, b[3]))
        gset(st, 'O', ('vec', d[1], None, d[3]))
        gset(st, 'md', st.norm(a[2]))
        gset(st, 'on', ONE)
        return UNIT

    # -------------------------------------------------------------- one field
    joins = 3

    def wantjoin(self, I, E):
        return self.buf is not None and E.mem.get(('g', 'on')) is ONE

    def joindemote(self, I, xs):
        """constants that count the octets of the integer just read"""
        if len({c for _, c in xs}) < 2:
            return False
        for n in ('ik', 'sk'):
            d = set()
            for s, c in xs:
                f = s.norm(gget(s, n))
                d.add(None if f.t else f.c - c)
            if len(d) == 1 and None not in d:
                return True
        return False

    def sync_return(self, I, st):
        """read ahead as far as the path has already determined the input"""
        if st.norm(gget(st, 'on')) is not ONE:
            return False
        self.sync(I, st)
        if not self.tablematch(I, st):
            return False
        if st.norm(gget(st, 'er')).c:
            return True
        while True:
            t = st.copy()
            try:
                if not self.micro(I, t):
                    return True
            except (Fork, Viol) as e:
                if os.environ.get('VP_EV'):
                    R=[v for k,v in st.mem.items() if k[0]=='l' and k[2]==0]
                    print('NOREAD', gget(st,'ph'), gget(st,'kd'), repr(getattr(e,'alts',e))[:400], '|R', str(R[-1])[:200])
                return True
            except Stop as e:
                if e.kind != 'end':
                    gset(st, 'er', const(CODES.index(e.kind)))
                return True
            adopt(st, t)

    def micro(self, I, st):
        """one transition of the parser; False when a whole representation has been read"""
        P = canon_seq(st, gget(st, 'P')[1])
        u8 = I.u8()
        ph = st.norm(gget(st, 'ph')).c
        er = st.norm(gget(st, 'er')).c
        if er:
            raise Stop(CODES[er])
        if ph == 0:
            if not st.truth(ge(slen(P) - 1)):
                raise Stop('end')
            b = st.norm(seq_at(I, st, P, ZERO, u8))
            if st.truth(ge(b - 128)):
                k, n = 0, 7
            elif st.truth(ge(b - 64)):
                k, n = 1, 6
            elif st.truth(ge(b - 32)):
                k, n = 2, 5
            else:
                k, n = 3, 4  # never indexed or not indexed: told apart when the field is delivered
            used, v = spec_int(I, st, P, n)
            gset(st, 'kd', const(k))
            gset(st, 'ik', used)
            gset(st, 'iv', v)
            gset(st, 'ph', ONE)
            return True
        if ph == 1:
            if st.norm(gget(st, 'kd')).c in (0, 2):
                return False
            i = gget(st, 'iv')
            if st.truth(eq(i)):
                gset(st, 'ph', const(2))
            else:
                e = self.entry(I, st, gget(st, 'T'), i)
                if e is None:
                    raise Stop('index')
                gset(st, 'nm', ('vec', canon_seq(st, e[0]), None, u8))
                gset(st, 'ph', const(4))
            return True
        if ph in (2, 4):
            rest = drop_front(st, P, gget(st, 'ik'))
            if not st.truth(ge(slen(rest) - 1)):
                raise Stop('under')
            b = st.norm(seq_at(I, st, rest, ZERO, u8))
            h = st.norm(st.frombits(st.cut(st.bits(b, 8), 7, 1)))
            k, n = spec_int(I, st, rest, 7)
            gset(st, 'sh', h)
            gset(st, 'sk', k)
            gset(st, 'sl', n)
            gset(st, 'ph', const(ph + 1))
            return True
        if ph in (3, 5):
            k = st.norm(gget(st, 'ik') + gget(st, 'sk'))
            rest = drop_front(st, P, k)
            n = st.norm(gget(st, 'sl'))
            if not st.truth(ge(slen(rest) - n)):
                raise Stop('under')
            x = canon_seq(st, take(st, rest, n))
            if st.truth(ge(gget(st, 'sh') - 1)):
                if not st.truth(('is', ('huffok', x), True)):
                    raise Stop('huff')
                x = S(('hd', x))
            gset(st, 'nm' if ph == 3 else 'vl', ('vec', x, None, u8))
            gset(st, 'ik', st.norm(k + n))
            gset(st, 'sk', ZERO)
            gset(st, 'sl', ZERO)
            gset(st, 'ph', const(ph + 1))
            return True
        return False

    def step(self, I, st):
        """consume one representation; raises Stop with the reason when there is none"""
        while self.micro(I, st):
            pass
        P = canon_seq(st, gget(st, 'P')[1])
        u8 = I.u8()
        k = st.norm(gget(st, 'kd')).c
        v = st.norm(gget(st, 'iv'))
        n = st.norm(gget(st, 'ik'))
        if k == 0:
            e = self.entry(I, st, gget(st, 'T'), v)
            if e is None:
                raise Stop('index')
            self.deliver(I, st, e[0], e[1], 0)
            return self.advance(st, P, n)
        if k == 2:
            if not st.truth(ge(gget(st, 'lim') - v)):
                raise Stop('size')
            self.advance(st, P, n)
            gset(st, 'T', self.resized(st, gget(st, 'T'), v))
            gset(st, 'max', v)
            return
        name, val = gget(st, 'nm')[1], gget(st, 'vl')[1]
        fl = 4
        if k == 3:
            b = st.norm(seq_at(I, st, P, ZERO, u8))
            fl = 8 if st.truth(('ge', st.norm(st.frombits(st.cut(st.bits(b, 8), 4, 1))) - 1)) else 0
        self.deliver(I, st, name, val, fl)
        self.advance(st, P, n)
        if k == 1:
            gset(st, 'T', self.inserted(st, gget(st, 'T'), name, val))

    def idle(self, st):
        for n in ('ph', 'kd', 'ik', 'iv', 'sh', 'sk', 'sl', 'er'):
            gset(st, n, ZERO)
        for n in ('nm', 'vl'):
            gset(st, n, ('vec', (), None, None))

    def advance(self, st, P, n):
        self.idle(st)
        gset(st, 'P', ('vec', canon_seq(st, drop_front(st, P, st.norm(n))), None, gget(st, 'P')[3]))

    def deliver(self, I, st, name, val, fl):
        O = gget(st, 'O')
        u8 = I.u8()
        f = ('agg', (('vec', canon_seq(st, name), None, u8), ('vec', canon_seq(st, val), None, u8), const(fl)))
        gset(st, 'O', ('vec', joinsegs(O[1], (('L', (f,)),)), None, O[3]))

    # -------------------------------------------------------------- lockstep
    def bufmatch(self, I, st):
        b = I.read(st, self.buf[1], self.buf[2])
        return 1 if canon_seq(st, b[1]) == canon_seq(st, gget(st, 'P')[1]) else 0

    def sync(self, I, st):
        if self.buf is not None and st.norm(gget(st, 'on')) is ONE:
            best = None
            t = st
            for k in range(4):
                if k:
                    t = t.copy()
                    try:
                        self.step(I, t)
                    except (Fork, Stop, Viol) as e:
                        if os.environ.get('VP_EV'): print('NOSTEP', k, best[0], 'ph', gget(t, 'ph'), 'kd', gget(t, 'kd'), repr(e)[:300], getattr(e,'kind',''))
                        break
                m = (self.tablematch(I, t), self.bufmatch(I, t))
                if best is None or m > best[0]:
                    best = (m, t, k)
            if best[2]:
                adopt(st, best[1])

    # -------------------------------------------------------------- the verdict
    def end(self, I, st, a, c):
        self.ob('end of a call')
        r = I.expand(st, I.read(st, a[0][1], a[0][2]))
        okr = r[1] == 0
        exact = st.norm(gget(st, 'md')) is ONE
        buf = I.read(st, a[1][1], a[1][2])
        dst = I.read(st, a[2][1], a[2][2])
        left = slen(buf[1])
        why = None
        for k in range(6):
            if okr and exact and st.truth(eq(slen(gget(st, 'P')[1]) - left)):
                why = 'end'
                break
            if k and os.environ.get('VP_EV'): print('END', k, okr, exact, 'P', gget(st,'P')[1], 'buf', buf[1], 'er', gget(st,'er'), 'ph', gget(st,'ph'), flush=True)
            try:
                self.step(I, st)
            except Stop as e:
                why = e.kind
                break
        else:
            why = 'more'
        err = None
        if not okr:
            et = I.T[I.T[c.argtys[0]]['e']]['args'][1]
            err = I.T[et]['v'][I.expand(st, r[2][0])[1]]['n']
        self.ends[why if okr or why not in KINDS else KINDS[why]] = self.ends.get(why if okr or why not in KINDS else KINDS[why], 0) + 1
        if okr and why != 'end':
            raise Viol(ERRCAT.get(why, ('C06', 'C03')), 'success for %s' % TEXT[why])
        if not okr and why in ('end', 'more'):
            raise Viol(ERRCAT.get(err, ('C03',)), 'the error %s for %s' % (err, TEXT[why]))
        if not okr and err != KINDS[why]:
            raise Viol(ERRCAT[why] + ERRCAT.get(err, ()), 'the error %s for %s' % (err, TEXT[why]))
        P = gget(st, 'P')
        if not st.truth(eq(slen(P[1]) - left)) or not seq_same(I, st, buf[1], P[1], I.u8()):
            raise Viol(('C06',) if okr else ('C02',), 'the buffer %s' % (
                'is not the rest of the input after the decoded fields' if okr else 'does not start at the failing field (%s)' % TEXT[why]))
        if okr and not st.truth(eq(r[2][0] + slen(P[1]) - slen(gget(st, 'B')[1]))):
            raise Viol(('C06',), 'the returned count is not the number of octets consumed')
        O = gget(st, 'O')
        if not seq_same(I, st, dst[1], O[1], self.fty):
            cats = ('C02', 'C03', 'C15') if not okr else ('C03', 'C15', 'C08', 'C07')
            if st.decide(eq(slen(dst[1]) - slen(O[1]))) is not True:
                cats = ('C02',) if not okr else ('C03', 'C06')
            raise Viol(cats, 'the fields delivered are not those of the input' + ('' if okr else ' before the failing field'))
        T, mx = self.real(I, st)
        if st.decide(eq(T - gget(st, 'T'))) is not True or st.decide(eq(mx - gget(st, 'max'))) is not True:
            raise Viol(('C04', 'C14', 'C15') if okr else ('C04', 'C02'), 'the indexing table is not the one the input commands')
        self.finish(I, st, a)
        return UNIT

    def finish(self, I, st, a):
        for n in ('B', 'P', 'O'):
            gset(st, n, ('vec', (), None, None))
        gset(st, 'on', ZERO)
        gset(st, 'md', ZERO)
        self.idle(st)


def dec_session(d, root, ops):
    h = DecHook(ops)
    ms = Models(h.models())
    ms.preds = [(huffman(lambda n: n == 'decode'), huff_dec)] + h.preds()
    I = Interp(d, ms, hook=h, max_steps=20000000)
    I.opts['maxconst'] = 8
    I.opts['nounroll'] = ('vp_hpack::' + root, 'vp_hpack::dec_session')
    I.opts['unroll_steps'] = 10000
    st = St()
    h.start(st)
    outs = I.run_root(root, [fv(('arg', 'n'), 32)] if not root.endswith('def') else [], st)
    return I, h, outs
