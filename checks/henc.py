"""HPACK encoder: product analysis with a reference encoder over arbitrary sequences of calls (table abstract as in hdec)."""
import os
from engine.interp import *
from engine.models import *
from engine.ghost import *
from .hdec import TabAbs, content, huffman

KIND = {1: 'update_max_dynamic_size', 2: 'encode_indexed', 3: 'encode_indexed_name', 4: 'encode_literal',
        5: 'encode (index)', 6: 'encode (indexed name)', 7: 'encode (name and value)'}


def huff_enc(I, st, a, c):
    """contract of httlib_huffman::encode (decided by C20): appends the code of the octets"""
    src = canon_seq(st, segs_any(I, st, a[0]))
    segs, cap, e = seqval(I, st, a[1])
    setseq(I, st, a[1], joinsegs(tuple(segs) + S(('hc', src))))
    return ('enum', 0, (UNIT,))


def spec_int(I, st, v, pat, n):
    """RFC 7541 5.1 representation of v as a list of octets"""
    v = st.norm(v)
    m = (1 << n) - 1
    if st.truth(ge(-v + (m - 1))):
        return [st.norm(v + pat)]
    out = [const(pat + m)]
    w = st.norm(v - m)
    bits = st.bits(w, 32)
    for k in range(5):
        g = st.frombits(st.cut(bits, 7 * k, 7 if k < 4 else 4))
        if k == 4 or st.truth(ge(-w + ((1 << 7 * (k + 1)) - 1))):
            out.append(st.norm(g))
            return out
        out.append(st.norm(g + 128))


class Refused(Exception):
    pass


class EncHook(TabAbs):
    """reference encoder of RFC 7541 section 6"""
    live = (('g', 'max'), ('g', 'T'))

    def __init__(self, ops=None):
        TabAbs.__init__(self, ops)
        self.ends = {}

    def start(self, st):
        gset(st, 'T', ZERO)
        gset(st, 'max', ZERO)
        self.idle(st)

    def idle(self, st):
        for n in ('k', 'i', 'fl'):
            gset(st, n, ZERO)
        for n in ('n', 'v', 'B'):
            gset(st, n, ('vec', (), None, None))

    def models(self):
        return {'@vp_u32': self.arb32, '@vp_u8': self.arb8, '@vp_op': self.op, '@vp_bytes': self.bytes,
                '@vp_e_new': self.enew, '@vp_e_max': self.emax, '@vp_e_begin': self.begin, '@vp_e_end': self.end}

    def enew(self, I, st, a, c):
        self.root = a[0]
        T, mx = self.real(I, st)
        if st.decide(eq(mx - a[1])) is not True:
            raise Viol(('C14',), 'a new encoder has another table size than the one requested')
        gset(st, 'T', T)
        gset(st, 'max', mx)
        return UNIT

    def emax(self, I, st, a, c):
        self.ob('reported maximum')
        if st.decide(eq(a[0] - gget(st, 'max'))) is not True:
            raise Viol(('C14',), 'the reported maximum size is not the one in force')
        return UNIT

    def begin(self, I, st, a, c):
        gset(st, 'k', st.norm(a[0]))
        gset(st, 'i', st.norm(a[1]))
        for n, r in (('n', a[2]), ('v', a[3]), ('B', a[5])):
            v = I.read(st, r[1], r[2])
            gset(st, n, ('vec', canon_seq(st, v[1]), None, v[3]))
        gset(st, 'fl', st.norm(a[4]))
        return UNIT

    # -------------------------------------------------------------- the table search
    def t_find(self, I, st, a, c):
        self.used('find')
        T, mx = self.tab(I, st, a[0])
        n = canon_seq(st, segs_any(I, st, a[1]))
        v = canon_seq(st, segs_any(I, st, a[2]))
        r = self.found(st, T, n, v)
        if r is None:
            return ('enum', 0, ())
        return ('enum', 1, (('agg', (r[0], r[1])),))

    def found(self, st, T, n, v):
        """outcome of the search that C12 describes; forks"""
        key = (T, n, v)
        i = fv(('fidx',) + key, 64, 1, (1 << 27) + 61)
        k = st.lookup(('found',) + key)
        if k is None:
            raise Fork([[('is', ('found',) + key, True), ge(self.dlen(T) + 61 - i)], [('is', ('found',) + key, False)]])
        if not k:
            return None
        f = st.lookup(('full',) + key)
        if f is None:
            raise Fork([[('is', ('full',) + key, True)], [('is', ('full',) + key, False)]])
        return st.norm(i), f

    # -------------------------------------------------------------- the reference
    def string(self, I, st, x, h):
        x = canon_seq(st, x)
        if h:
            x = S(('hc', x))
        n = st.norm(slen(x))
        if not st.truth(ge(-n + ((1 << 32) - 1))):
            raise Refused('IntegerOverflow')
        return (('L', tuple(spec_int(I, st, n, 128 if h else 0, 7))),) + tuple(x)

    def bit(self, st, fl, b):
        return st.truth(ge(st.frombits(st.cut(st.bits(fl, 8), b, 1)) - 1))

    def expect(self, I, st):
        """(octets, tables that may result, maximum); raises Refused"""
        T, mx = st.norm(gget(st, 'T')), st.norm(gget(st, 'max'))
        k = st.norm(gget(st, 'k')).c
        i, fl = st.norm(gget(st, 'i')), st.norm(gget(st, 'fl'))
        n, v = gget(st, 'n')[1], gget(st, 'v')[1]
        L = lambda x: (('L', tuple(x)),)
        if k == 1:
            return L(spec_int(I, st, i, 0x20, 5)), [self.resized(st, T, i)], i
        if k in (2, 5):
            return self.indexed(I, st, T, i), [T], mx
        if k in (3, 6):
            if self.entry(I, st, T, i) is None:
                raise Refused('InvalidIndex')
            names = [content(T, i, 'en')]
        elif k == 4 or not self.bit(st, fl, 4):
            i = None
            names = [n]
        else:
            r = self.found(st, T, n, v)
            if r is None:
                i = None
                names = [n]
            else:
                i = r[0]
                if r[1] and (self.bit(st, fl, 2) or not self.bit(st, fl, 3)):
                    return self.indexed(I, st, T, i), [T], mx
                names = [content(T, i, 'en'), n]
        ins = self.bit(st, fl, 2)
        never = not ins and self.bit(st, fl, 3)
        pat, pre = (0x40, 6) if ins else (0x10, 4) if never else (0, 4)
        if i is None:
            out = L([const(pat)]) + self.string(I, st, n, self.bit(st, fl, 0))
        else:
            out = L(spec_int(I, st, i, pat, pre))
        out += self.string(I, st, v, self.bit(st, fl, 1))
        return out, [self.inserted(st, T, x, v) for x in names] if ins else [T], mx

    def indexed(self, I, st, T, i):
        if self.entry(I, st, T, i) is None:
            raise Refused('InvalidIndex')
        return (('L', tuple(spec_int(I, st, i, 0x80, 7))),)

    # -------------------------------------------------------------- the verdict
    def end(self, I, st, a, c):
        k = st.norm(gget(st, 'k')).c
        what = KIND[k]
        r = I.expand(st, I.read(st, a[0][1], a[0][2]))
        okr = r[1] == 0
        dst = I.read(st, a[1][1], a[1][2])
        B = gget(st, 'B')
        T0, m0 = st.norm(gget(st, 'T')), st.norm(gget(st, 'max'))
        want = None
        try:
            out, Ts, mx = self.expect(I, st)
            why = 'emitted'
        except Refused as e:
            why = str(e)
            Ts, mx = [T0], m0
        err = None
        if not okr:
            et = I.T[I.T[c.argtys[0]]['e']]['args'][1]
            err = I.T[et]['v'][I.expand(st, r[2][0])[1]]['n']
        self.ob('end of a call')
        self.ends['%s: %s' % (what, why)] = self.ends.get('%s: %s' % (what, why), 0) + 1
        if okr and why != 'emitted':
            raise Viol(('C17', 'C13') if why == 'InvalidIndex' else ('C16',), '%s: success instead of %s' % (what, why))
        if not okr and err != why:
            raise Viol(('C17', 'C13') if 'InvalidIndex' in (err, why) else ('C16', 'C17', 'C13'),
                       '%s: the error %s instead of %s' % (what, err, why if why != 'emitted' else 'success'))
        fl = st.norm(gget(st, 'fl'))
        never = k not in (1, 2, 5) and not self.bit(st, fl, 2) and self.bit(st, fl, 3)
        extra = ('C15',) if never else ()
        T, m = self.real(I, st)
        if not any(T is st.norm(x) or st.decide(eq(T - x)) is True for x in Ts) or st.decide(eq(m - mx)) is not True:
            raise Viol((('C17', 'C14') if why == 'InvalidIndex' else ('C14',)) + extra,
                       '%s: the table afterwards is not the one a decoder of the output would have (%s)' % (what, why))
        if why == 'InvalidIndex' and not seq_same(I, st, dst[1], B[1], I.u8()):
            raise Viol(('C17',), '%s: octets are written for an invalid index' % what)
        if okr:
            n = slen(B[1])
            if not st.truth(ge(slen(dst[1]) - n - 1)) or not seq_same(I, st, take(st, dst[1], n), B[1], I.u8()):
                raise Viol(('C13',), '%s: the output is not extended by a field' % what)
            got = st.norm(seq_at(I, st, dst[1], n, I.u8()))
            exp = st.norm(out[0][1][0])
            for pos in (7, 6, 5, 4):
                x, y = [st.frombits(st.cut(st.bits(f, 8), pos, 1)) for f in (got, exp)]
                y = st.norm(y)
                if st.decide(eq(x - y)) is not True:
                    raise Viol(('C13', 'C14') + extra, '%s: the octet pattern is not that of the requested representation' % what)
                if not y.t and y.c:
                    break
            if not seq_same(I, st, dst[1], joinsegs(tuple(B[1]) + tuple(out)), I.u8()):
                raise Viol(('C16', 'C13') + (('C14',) if k == 1 else ()), '%s: the octets of the field are not its representation' % what)
        self.idle(st)
        gset(st, 'T', T)
        gset(st, 'max', m)
        return UNIT


def enc_session(d, root, ops):
    h = EncHook(ops)
    ms = Models(h.models())
    ms.preds = [(huffman(lambda n: n == 'encode'), huff_enc)] + h.preds()
    I = Interp(d, ms, hook=h, max_steps=20000000)
    I.opts['maxconst'] = 8
    I.opts['nounroll'] = ('vp_hpack::' + root, 'vp_hpack::enc_session')
    st = St()
    St.LOW = True
    h.start(st)
    outs = I.run_root(root, [fv(('arg', 'n'), 32)] if not root.endswith('def') else [], st)
    return I, h, outs
