"""Protobuf encoder and typed conversions against the wire format (C24, C27-C33)."""
from engine.extract import extract
from engine.interp import *
from engine.models import *
from engine.ghost import *

# kind -> (rust type, wire type, size in bits of the rust type, encoding)
KINDS = {
    'bool': ('bool', 0, 1, 'bool'), 'int32': ('i32', 0, 32, 'sext'), 'int64': ('i64', 0, 64, 'id'),
    'uint32': ('u32', 0, 32, 'id'), 'uint64': ('u64', 0, 64, 'id'), 'sint32': ('i32', 0, 32, 'zig'),
    'sint64': ('i64', 0, 64, 'zig'), 'float': ('f32', 5, 32, 'fix'), 'double': ('f64', 1, 64, 'fix'),
    'fixed32': ('u32', 5, 32, 'fix'), 'fixed64': ('u64', 1, 64, 'fix'), 'sfixed32': ('i32', 5, 32, 'fix'),
    'sfixed64': ('i64', 1, 64, 'fix')}
VAR = ('bool', 'sext', 'id', 'zig')
LITNAME = {'bool': 'Bool', 'int32': 'Int32', 'int64': 'Int64', 'uint32': 'UInt32', 'uint64': 'UInt64', 'sint32': 'SInt32',
           'sint64': 'SInt64', 'float': 'Float', 'double': 'Double', 'fixed32': 'Fixed32', 'fixed64': 'Fixed64',
           'sfixed32': 'SFixed32', 'sfixed64': 'SFixed64', 'bytes': 'Bytes'}


class Split(Fork):
    """a case split the reference asks for even at loop headers"""


# ------------------------------------------------------------------ wire format
def leb128(I, st, v):
    """minimal LEB128 bytes of the 64-bit form v (forks on its magnitude)"""
    v = st.norm(v)
    segs = st.bits(v, 64)
    n = 1
    while n < 10:
        a = ge(v - (1 << (7 * n)))
        r = st.decide(a)
        if r is None:
            b = ge(st.frombits(st.cut(segs, 7 * n, 64 - 7 * n)) - 1)
            r = st.decide(b)
            if r is None:
                raise Fork([[a, b], [neg(a), neg(b)]])
        if not r:
            break
        n += 1
    out = []
    for i in range(n):
        g = st.frombits(st.cut(segs, 7 * i, 7 if i < 9 else 1))
        out.append(g + 128 if i < n - 1 else g)
    return out


def wireval(I, st, kind, v):
    """64-bit number whose varint represents the value v of that kind"""
    ty, wt, B, enc = KINDS[kind]
    if enc == 'bool':
        if isinstance(v, Form):
            return v
        if isinstance(v, tuple) and v[0] == 'eq' and len(v[1].t) == 1 and v[1].t[0][0].w == 1 and v[1].c == -1 and v[1].t[0][1] == 1:
            return st.norm(v[1] + 1)
        return const(1 if st.truth(v) else 0)
    if enc == 'id':
        return v
    h = 1 << (B - 1)
    if enc == 'sext':
        return st.norm(v + ((1 << 64) - (1 << 32))) if st.truth(ge(v - h)) else v
    # zigzag: n >= 0 -> 2n, n < 0 -> -2n-1
    if st.truth(ge(v - h)):
        n = st.norm(v - (1 << B))
        return st.norm(n * -2 - 1)
    return st.norm(v * 2)


def encbytes(I, st, kind, v):
    ty, wt, B, enc = KINDS[kind]
    if enc == 'fix':
        s = st.bits(v, B)
        return [st.frombits(st.cut(s, i, 8)) for i in range(0, B, 8)]
    return leb128(I, st, wireval(I, st, kind, v))


def fromwire(I, st, kind, w):
    """value of that kind denoted by the 64-bit varint w"""
    ty, wt, B, enc = KINDS[kind]
    if enc == 'bool':
        return st.truth(ge(w - 1))
    if enc == 'zig':
        if B == 32:
            c = ge(-w + 0xffffffff)
            d = st.decide(c)
            if d is None:
                raise Split([[c], [neg(c)]])
            if d is False:
                raise Split([])           # not the encoding of a 32-bit value: outside the property
        b = st.bits(w, 64)
        m = st.frombits(st.cut(b, 1, B - 1))
        low = st.frombits(st.cut(b, 0, 1))
        c = ge(low - 1)
        if st.truth(c):
            return st.norm(const((1 << B) - 1) - m)
        return m
    if B == 64:
        return w
    return st.frombits(st.cut(st.bits(w, 64), 0, B))


# ------------------------------------------------------------------ writer
class Writer:
    def __init__(self):
        self.n = 0

    def guard(self, st, what):
        if gget(st, 'failed').c:
            raise Viol(('C33',), 'the encoder goes on writing after the writer failed (%s)' % what)

    def fail(self, I, st):
        self.n += 1
        t = st.copy()
        gset(t, 'failed', ONE)
        return t, err(('opq', 'ioerror', self.n))

    def put(self, I, st, w, segs):
        v = I.read(st, w[1], w[2])
        d = v[1][0]
        I.write(st, w[1], w[2], ('agg', (('vec', joinsegs(d[1], segs), None, d[3]),) + v[1][1:]))

    def write_all(self, I, st, a, c):
        self.guard(st, 'write_all')
        segs = segs_any(I, st, a[1])
        f = self.fail(I, st)
        self.put(I, st, a[0], segs)
        return Multi([(st, ok(UNIT)), f])

    def write(self, I, st, a, c):
        self.guard(st, 'write')
        segs = segs_any(I, st, a[1])
        n = st.norm(slen(segs))
        f = self.fail(I, st)
        if not n.t and n.c == 0:
            return Multi([(st, ok(ZERO)), f])
        if not n.t and n.c <= 16:
            out = [f]
            for i in range(1, n.c + 1):
                t = st.copy()
                self.put(I, t, a[0], take(t, segs, const(i)))
                out.append((t, ok(const(i))))
            return Multi(out)
        # the name must be the same when a case split repeats the call
        w = gget(st, 'writes')
        gset(st, 'writes', w + 1)
        k = fv(('wrote', w), 64, 0, LENMAX, 'len')
        if not (st.assume(ge(n - k)) and st.assume(ge(k - 1))):
            return Multi([f])
        self.put(I, st, a[0], take(st, segs, k))
        return Multi([(st, ok(k)), f])

    def flush(self, I, st, a, c):
        self.guard(st, 'flush')
        f = self.fail(I, st)
        return Multi([(st, ok(UNIT)), f])

    def over(self):
        return {'@vp_write': self.write, '@vp_write_all': self.write_all, '@vp_flush': self.flush}


# ------------------------------------------------------------------ lockstep over a list
class ListHook:
    """two copies of a reference that walks a list and accumulates its encoding (or the reverse)"""
    def __init__(self, step, nghost=2, total=None):
        self.stepfn = step
        self.names = [('i%d' % k, 'q%d' % k) for k in range(nghost)]
        self.on = False

    def fork(self, I, st, alts):
        return None

    def start(self, st, ety):
        self.on = True
        for i, q in self.names:
            gset(st, i, ZERO)
            gset(st, q, ('vec', (), None, ety))

    def step(self, I, st, k):
        return self.stepfn(I, st, self.names[k])

    def match(self, I, st, k):
        i, q = self.names[k]
        pos = st.norm(gget(st, i))
        want = canon_seq(st, gget(st, q)[1])
        if not want:
            return False
        n = st.norm(slen(want))
        for key, v in st.mem.items():
            if key[0] == 'g':
                continue
            for x in deepvecs(v, 0):
                got = canon_seq(st, x[1])
                if endswith(got, want):
                    return True
            if k == 0 and isinstance(v, Form) and n.t and st.norm(v) is n:
                return True
        return False

    def sync(self, I, st):
        if not self.on:
            return
        for k in range(len(self.names)):
            best = None
            t = st
            for n in range(3):
                t = t.copy()
                try:
                    if self.step(I, t, k) is not None:
                        break
                except Split:
                    raise
                except Fork:
                    break
                if self.match(I, t, k):
                    best = t
            if best is not None:
                adopt(st, best)

    def virtuals(self, I, st):
        return []

    def finish(self, I, st, k, lim=4):
        """run copy k to the end of the list; None when it does not end soon"""
        for n in range(lim + 1):
            r = self.step(I, st, k)
            if r is not None:
                return r
        return None


def deepvecs(v, d):
    if isinstance(v, tuple) and v:
        if v[0] == 'vec':
            yield v
        elif v[0] in ('agg',) and d < 3:
            for x in v[1]:
                yield from deepvecs(x, d + 1)


def endswith(got, want):
    """does a canonical sequence end with another"""
    if len(got) < len(want):
        return False
    if tuple(got[len(got) - len(want):]) == tuple(want):
        return True
    g, w = got[len(got) - len(want)], want[0]
    if g[0] == 'L' and w[0] == 'L' and len(g[1]) > len(w[1]) and g[1][len(g[1]) - len(w[1]):] == w[1]:
        return tuple(got[len(got) - len(want) + 1:]) == tuple(want[1:])
    return False


# ------------------------------------------------------------------ encoder roots
def variant_named(I, t, i):
    return I.T[t]['v'][i]['n']


def deref_ty(I, t):
    while I.T[t]['k'] in ('ref', 'ptr'):
        t = I.T[t]['e']
    return t


def enc_root(d, root, kind, vecq):
    """analyse one encoding entry point; list of (cats, key, text), counts"""
    w = Writer()
    out = []
    hook = None

    def enc_step(I, st, names):
        i = st.norm(gget(st, names[0]))
        q = gget(st, names[1])
        if not st.truth(ge(nvals - i - 1)):
            return 'end'
        e = I.elem(st, src, i)
        b = encbytes(I, st, kind, e)
        gset(st, names[1], ('vec', joinsegs(q[1], (('L', tuple(b)),)), None, q[3]))
        gset(st, names[0], i + 1)
        return None
    if vecq:
        hook = ListHook(enc_step)
    I = Interp(d, Models(w.over()), hook=hook, max_steps=6000000)
    I.opts['maxconst'] = 8
    inst = I.insts[d['roots'][root]]
    b = inst['body']
    tys = b['locals']
    st = St()
    gset(st, 'failed', ZERO)
    gset(st, 'writes', ZERO)
    tag = fv('tag', 32)
    st.mem[('h', 'enc')] = I.sym('encoder', deref_ty(I, tys[1]))
    st.mem[('h', 'tag')] = tag
    vty = deref_ty(I, tys[3])
    src = I.sym('val', vty)
    st.mem[('h', 'val')] = src
    u8 = I.u8()
    w0 = (('S', 'w0', ZERO, lenv(('len', 'w0'))),)
    st.mem[('h', 'w')] = ('agg', (('vec', w0, None, u8),))
    nvals = None
    if vecq:
        nvals = slen(src[1])
        hook.start(st, u8)
    args = [('ref', ('h', x), ()) for x in ('enc', 'tag', 'val', 'w')]
    outs = I.run_root(root, args, st)
    rty = inst['body']['locals'][0]
    ety = I.T[rty]['args'][1]
    checks = [0]

    def verdict(st, v):
        checks[0] += 1
        v = I.expand(st, v)
        data = I.read(st, ('h', 'w'), ())[1][0][1]
        failed = gget(st, 'failed').c
        valid = st.truth(ge(tag - 1)) and st.truth(ge(-tag + (1 << 29) - 1))
        if v[1] == 1:
            e = I.expand(st, v[2][0])
            en = variant_named(I, ety, e[1])
            if failed:
                if en != 'Interrupted':
                    raise Viol(('C33',), 'a writer failure is reported as %s' % en)
                if not valid:
                    raise Viol(('C27',), 'something is written for an invalid tag')
                return 'writer failure'
            if valid:
                raise Viol(('C27', 'C30', 'C31', 'C32', 'C33'), 'error %s for a valid field and a working writer' % en)
            if en != 'InvalidTag':
                raise Viol(('C27',), 'an invalid tag gives error %s' % en)
            if not seq_same(I, st, data, w0, u8):
                raise Viol(('C27',), 'something is written although the tag is invalid')
            return 'invalid tag'
        if failed:
            raise Viol(('C33',), 'success is reported although the writer failed')
        if not valid:
            raise Viol(('C27',), 'a field with an invalid tag is written')
        wt = 2 if (vecq or kind == 'bytes') else KINDS[kind][1]
        key = leb128(I, st, tag * 8 + wt)
        body = []
        n0 = st.norm(slen(data) - slen(w0))
        if kind == 'bytes':
            segs = src[1]
            ln = leb128(I, st, st.norm(slen(segs)))
            body = (('L', tuple(ln)),) + tuple(segs)
            cat = 'C28'
        elif vecq:
            k = len(hook.names) - 1
            if st.decide(eq(nvals - gget(st, hook.names[k][0]))) is not True:
                k = 0
            r = hook.finish(I, st, k)
            if r != 'end':
                raise Viol(('C31',), 'the encoder stops before the end of the list')
            pay = gget(st, hook.names[k][1])[1]
            ln = leb128(I, st, st.norm(slen(pay)))
            body = (('L', tuple(ln)),) + tuple(pay)
        else:
            body = (('L', tuple(encbytes(I, st, kind, src if isinstance(src, Form) else src))),)
        want = joinsegs(w0, (('L', tuple(key)),), body)
        if not seq_same(I, st, data, want, u8):
            # which part differs?
            head = joinsegs(w0, (('L', tuple(key)),))
            cats = ['C30' if not vecq else 'C31']
            what = 'value'
            if not st.truth(ge(n0 - len(key))) or not seq_same(I, st, take(st, data, slen(head)), head, u8):
                cats += ['C27', 'C28', 'C30']
                what = 'key'
            elif vecq or kind == 'bytes':
                cats += ['C28']
                what = 'length or payload'
            elif KINDS[kind][3] in VAR:
                cats += ['C28']
            if st.decide(eq(slen(data) - slen(want))) is not True:
                cats += ['C32', 'C33']
            raise Viol(cats, 'the bytes written are not key%s and value of the field (%s differs)' % (', length' if vecq or kind == 'bytes' else '', what))
        if not isinstance(v[2][0], Form) or not st.truth(eq(v[2][0] - n0)):
            raise Viol(('C32',), 'the returned size is not the number of bytes written')
        return 'success'
    kinds = {}
    for s, v in outs:
        work = [s]
        while work:
            s = work.pop()
            t = s.copy()
            try:
                r = verdict(t, v)
                kinds[r] = kinds.get(r, 0) + 1
            except Fork as e:
                I.fork(e, s, work.append)
            except Viol as e:
                if s.consistent():
                    out.append((e.kind[1], '%s: %s' % (entry(root), e.kind[2]), describe(s)))
    for p in I.panics:
        cats, text = panic_text(p)
        out.append((cats or ('C27', 'C28', 'C30', 'C31', 'C32', 'C33'), '%s: %s' % (entry(root), text), describe(p[3])))
    for n in I.nonterm:
        out.append((('C27', 'C28', 'C30', 'C31', 'C32', 'C33'), '%s: no progress in a loop (%s)' % (entry(root), n[0]), ''))
    for need in ('success', 'invalid tag', 'writer failure'):
        if not kinds.get(need) and not out:
            out.append((('C27', 'C30', 'C31', 'C32', 'C33'), '%s: no path ends in %s' % (entry(root), need), ''))
    return out, kinds, len(outs)


def entry(root):
    for p, q in (('root_p_enc_', 'Encoder::encode_'), ('root_p_lenc_', 'Encoder::encode with EncoderLit '), ('root_p_lit_', 'conversion of DecoderLit '),
                 ('root_p_conv_', 'conversion of any DecoderLit to '), ('root_p_from_', 'EncoderLit::from ')):
        if root.startswith(p):
            return q + root[len(p):]
    return root


def panic_text(p):
    """(cats or None, text) of a recorded panic"""
    k = p[0]
    if isinstance(k, tuple) and k[0] == 'viol':
        return k[1], k[2] + ' in ' + p[2]
    return None, 'panic %s in %s' % (k, p[2])


def describe(st):
    try:
        f = ['%r >= 0' % x for x in list(st.ges)[:6]]
        s = ['%r = %r' % (a, x) for a, x in list(st.sub.items())[:8]]
        return 'path facts: ' + '; '.join(s + f)
    except Exception:
        return ''


# ------------------------------------------------------------------ conversions
def lit_root(d, root, kind, vecq, mode):
    """mode 'any': arbitrary bytes; 'trip': the encoding of an arbitrary value"""
    out = []
    hook = None
    ty, wt, B, enc = KINDS[kind]
    u8 = None

    def dec_step(I, st, names):
        pos = st.norm(gget(st, names[0]))
        q = gget(st, names[1])
        rest = drop_front(st, src, pos)
        n = slen(rest)
        if not st.truth(ge(n - 1)):
            return 'end'
        if enc == 'fix':
            if not st.truth(ge(n - B // 8)):
                return 'bad'
            e = I.from_bytes(st, [seq_at(I, st, rest, const(k), u8) for k in range(B // 8)])
            k = const(B // 8)
        else:
            r = spec_varint(I, st, rest)
            if r[0] != 'ok':
                return 'bad'
            k = r[1]
            e = fromwire(I, st, kind, r[2])
        gset(st, names[1], ('vec', joinsegs(q[1], (('L', (e,)),)), None, q[3]))
        gset(st, names[0], st.norm(pos + k))
        return None
    if vecq:
        hook = ListHook(dec_step, 1)
    I = Interp(d, Models({}), hook=hook, max_steps=6000000)
    I.opts['maxconst'] = 8
    u8 = I.u8()
    inst = I.insts[d['roots'][root]]
    st0 = St()
    val = None
    starts = []
    src = (('S', 'bytes', ZERO, lenv(('len', 'bytes'))),)
    rty = inst['body']['locals'][0]
    if mode == 'any':
        starts.append((st0, src, None))
    else:
        val = I.sym('val', rty)
        work = [st0]
        while work:
            s = work.pop()
            t = s.copy()
            try:
                b = encbytes(I, t, kind, val)
            except Fork as e:
                I.fork(e, s, work.append)
                continue
            starts.append((t, (('L', tuple(b)),), None))
    kinds = {}
    for st, sg, _ in starts:
        if vecq:
            hook.start(st, rty)
        outs = I.run_root(root, [('vec', sg, slen(sg), u8)], st)

        def verdict(st, v):
            if mode == 'trip':
                if not same(I, st, v, val):
                    raise Viol(('C30',), 'the encoding of a value does not convert back to it')
                return 'round trip'
            if vecq:
                if enc == 'fix' and B > 8 and st.decide(ge(I.divrem(st, 'Rem', st.norm(slen(src)), const(B // 8), 64) - 1)):
                    r = 'bad'         # no whole number of elements
                else:
                    r = hook.finish(I, st, 0)
                if r is None:
                    raise Viol(('C31',), 'the conversion stops before the end of the payload')
                got = v[1]
                if r == 'bad':
                    if not st.truth(eq(slen(got))):
                        raise Viol(('C31', 'C29') if enc in VAR else ('C31',), 'a malformed payload does not give the empty list')
                    return 'malformed'
                if not seq_same(I, st, got, gget(st, hook.names[0][1])[1], v[3]):
                    raise Viol(('C31', 'C29') if enc in VAR else ('C31',), 'the converted list is not the list the payload encodes')
                return 'list'
            n = slen(src)
            if enc == 'fix':
                if st.truth(ge(n - B // 8)):
                    want = I.from_bytes(st, [seq_at(I, st, src, const(k), u8) for k in range(B // 8)])
                    if not same(I, st, v, want):
                        raise Viol(('C30',), 'the fixed-width value is not the little-endian value of its bytes')
                    return 'value'
                return 'malformed'
            r = spec_varint(I, st, src)
            if r[0] == 'ok':
                want = fromwire(I, st, kind, r[2])
                if not same(I, st, v, want):
                    raise Viol(('C29', 'C30'), 'the converted value is not the one the varint denotes')
                return 'value'
            z = False if enc == 'bool' else ZERO
            if not same(I, st, v, z):
                raise Viol(('C29',), 'a value is produced from a varint that is %s' % ('over-long' if r[0] == 'over' else 'truncated'))
            return 'malformed'
        for s, v in outs:
            work = [s]
            while work:
                s = work.pop()
                t = s.copy()
                try:
                    r = verdict(t, v)
                    kinds[r] = kinds.get(r, 0) + 1
                except Fork as e:
                    I.fork(e, s, work.append)
                except Viol as e:
                    if s.consistent():
                        out.append((e.kind[1], '%s: %s' % (entry(root), e.kind[2]), describe(s)))
    allc = ('C24', 'C29', 'C30') if not vecq else ('C24', 'C29', 'C31')
    for p in I.panics:
        cats, text = panic_text(p)
        out.append((cats or allc, '%s: %s' % (entry(root), text), describe(p[3])))
    for n in I.nonterm:
        out.append((allc, '%s: no progress in a loop (%s)' % (entry(root), n[0]), ''))
    return out, kinds, len(starts)
