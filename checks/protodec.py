"""Protobuf decoder: product analysis of Decoder::decode with a reference reader (C24-C27, C29)."""
from engine.extract import extract
from engine.interp import *
from engine.models import *
from engine.ghost import *

KEYCATS = ('C27',)


class DecHook:
    """reference reader: phase 0 key, 1 value (varint / 4 / 8 bytes), 2 length, 3 payload"""
    def __init__(self):
        self.buf = self.dst = None
        self.typs = None
        self.n = 0
        self.checks = 0
        self.steps = {}

    def fork(self, I, st, alts):
        return None

    # -------------------------------------------------------------- set-up
    def start(self, st):
        gset(st, 'on', ZERO)
        gset(st, 'ph', ('agg', (ZERO, ZERO, ZERO, ZERO)))
        gset(st, 'in', ('vec', (), None, None))
        gset(st, 'pos', ZERO)
        gset(st, 'out', ('vec', (), None, None))

    def arb(self, I, st, a, c):
        self.buf, self.dst = a[0], a[1]
        self.u8 = I.u8()
        ity = I.vecty(I.T[c.argtys[1]]['e'])
        self.typs = I.T[ity]['f'][1]
        self.wire = {v['d']: i for i, v in enumerate(I.T[self.typs]['v'])}
        self.n += 1
        b = S(('buf', self.n))
        d = S(('dst', self.n))
        I.write(st, a[0][1], a[0][2], ('vec', b, None, self.u8))
        I.write(st, a[1][1], a[1][2], ('vec', d, None, ity))
        gset(st, 'in', ('vec', b, None, self.u8))
        gset(st, 'out', ('vec', d, None, ity))
        gset(st, 'pos', ZERO)
        gset(st, 'on', ONE)
        return UNIT

    # -------------------------------------------------------------- the reference
    def rest(self, st):
        return drop_front(st, gget(st, 'in')[1], gget(st, 'pos'))

    def step(self, I, st):
        """None after progress, else why there is none"""
        ph, tag, typ, ln = gget(st, 'ph')[1]
        ph = st.norm(ph).c
        segs = self.rest(st)
        pos = gget(st, 'pos')
        out = gget(st, 'out')
        if ph in (0, 2) or (ph == 1 and typ.c == 0):
            r = spec_varint(I, st, segs)
            if r[0] == 'under':
                return 'under'
            if r[0] == 'over':
                return 'over%d' % ph
            n, v = r[1], r[2]
            if ph == 0:
                if not st.truth(ge(-v + 0xffffffff)):
                    return 'key32'
                b = st.bits(v, 64)
                w = st.frombits(st.cut(b, 0, 3))
                t = st.frombits(st.cut(b, 3, 29))
                if not st.truth(ge(t - 1)):
                    return 'tag0'
                wt = None
                for k in (0, 1, 2, 5):
                    if st.truth(eq(w - k)):
                        wt = k
                        break
                if wt is None:
                    return 'wire'
                gset(st, 'ph', ('agg', (const(2 if wt == 2 else 1), t, const(wt), ZERO)))
                gset(st, 'pos', st.norm(pos + n))
                return None
            if ph == 2:
                gset(st, 'ph', ('agg', (const(3), tag, typ, v)))
                gset(st, 'pos', st.norm(pos + n))
                return None
        else:
            n = st.norm(ln) if ph == 3 else const(8 if typ.c == 1 else 4)
            if not st.truth(ge(slen(segs) - n)):
                return 'under'
        item = ('agg', (tag, ('enum', self.wire[typ.c], ()), ('vec', canon_seq(st, take(st, segs, n)), None, self.u8)))
        gset(st, 'out', ('vec', joinsegs(out[1], (('L', (item,)),)), None, out[3]))
        gset(st, 'pos', st.norm(pos + n))
        gset(st, 'ph', ('agg', (ZERO, ZERO, ZERO, ZERO)))
        return None

    # -------------------------------------------------------------- lockstep
    def match(self, I, st):
        pos = st.norm(gget(st, 'pos'))
        try:
            buf = canon_seq(st, I.read(st, self.buf[1], self.buf[2])[1])
            rest = canon_seq(st, self.rest(st))
        except Fork:
            return 0
        if buf != rest and not (pos.t or pos.c) :
            return 0
        if buf != rest:
            for k, v in st.mem.items():
                if k[0] == 'l' and isinstance(v, Form) and st.norm(v) is pos:
                    break
            else:
                return 0
        o = canon_seq(st, gget(st, 'out')[1])
        d = I.read(st, self.dst[1], self.dst[2])
        return 2 if canon_seq(st, d[1]) == o else 1

    def sync(self, I, st):
        if self.buf is None or not gget(st, 'on').c:
            return
        best = (self.match(I, st), 0, None)
        t = st
        for k in range(1, 5):
            t = t.copy()
            try:
                if self.step(I, t) is not None:
                    break
            except Fork:
                break
            m = self.match(I, t)
            if m and (m, k) > best[:2]:
                best = (m, k, t)
        if best[2] is not None:
            adopt(st, best[2])

    # -------------------------------------------------------------- the verdict
    def check(self, I, st, a, c):
        self.checks += 1
        r = I.expand(st, I.read(st, a[0][1], a[0][2]))
        okr = r[1] == 0
        ety = I.T[I.T[c.argtys[0]]['e']]['args'][1]
        real_pos_ok = None
        res = None
        for k in range(8):
            ph = st.norm(gget(st, 'ph')[1][0]).c
            res = self.step(I, st)
            if res is not None:
                break
            if k == 7:
                raise Viol(('C25', 'C26'), 'decode stops although further complete items follow')
        want = gget(st, 'out')
        got = I.read(st, a[2][1], a[2][2])
        buf = I.read(st, a[1][1], a[1][2])
        pos = st.norm(gget(st, 'pos'))
        self.steps[res] = self.steps.get(res, 0) + 1
        tot = slen(gget(st, 'in')[1])
        left = slen(buf[1])
        where = ('key', 'value', 'length', 'payload')[ph]
        if res == 'under':
            if not okr:
                cats = ('C25',) if not res.startswith('x') else ()
                raise Viol(('C25', 'C26', 'C27', 'C29'), 'error although the items so far are valid and the next %s is incomplete or absent' % where)
        else:
            if okr:
                cats = {'over0': ('C29', 'C27'), 'over1': ('C29',), 'over2': ('C29',), 'key32': ('C27',), 'tag0': ('C27',), 'wire': ('C27',)}[res]
                raise Viol(cats + ('C25',), 'no error for %s' % self.text(res, where))
            if res.startswith('over'):
                e = I.expand(st, r[2][0])
                if I.T[ety]['v'][e[1]]['n'] != 'InvalidInput':
                    raise Viol(('C29',), 'an over-long varint in a %s gives another error than invalid input' % where)
        ext = {'under': (), 'key32': ('C27',), 'tag0': ('C27',), 'wire': ('C27',)}.get(res, ('C29',))
        if not seq_same(I, st, got[1], want[1], got[3]):
            gl, wl = slen(got[1]), slen(want[1])
            if st.decide(eq(gl - wl)) is not True:
                raise Viol(('C25', 'C26') + ext, 'the delivered fields are not exactly the complete fields of the input (number of fields; stopped in %s)' % where)
            raise Viol(('C25', 'C27', 'C29'), 'a delivered field differs from the one in the input (tag, type or bytes)')
        if not st.truth(eq(tot - pos - left)):
            raise Viol(('C25', 'C26') + ext, 'the buffer does not lose exactly the bytes of the complete items (stopped in %s)' % where)
        if not seq_same(I, st, buf[1], self.rest(st), self.u8):
            raise Viol(('C25', 'C26') + ext, 'the remaining buffer is not the untouched rest of the input')
        if res == 'under' and not st.truth(eq(r[2][0] - pos)):
            raise Viol(('C26',), 'the returned count is not the number of bytes consumed')
        gset(st, 'on', ZERO)
        gset(st, 'in', ('vec', (), None, None))
        gset(st, 'out', ('vec', (), None, None))
        gset(st, 'pos', ZERO)
        I.write(st, a[1][1], a[1][2], ('vec', (), None, self.u8))
        I.write(st, a[2][1], a[2][2], ('vec', (), None, got[3]))
        return UNIT

    def text(self, res, where):
        return {'key32': 'a key above 32 bits', 'tag0': 'tag 0', 'wire': 'an unknown wire type'}.get(res, 'a varint of more than ten octets in a ' + where)


def session(d):
    h = DecHook()
    I = Interp(d, Models({'@vp_arb_dec': h.arb, '@vp_check_dec': h.check}), hook=h, max_steps=20000000)
    I.opts['maxconst'] = 8
    I.opts['nounroll'] = ('vp_protos::root_p_session',)
    st = St()
    h.start(st)
    outs = I.run_root('root_p_session', [], st)
    return I, h, outs
