"""Huffman coding: product analyses of encode and decode with reference coders over the code tables (C20-C23)."""
import json
from engine.extract import extract
from engine.interp import *
from engine.models import *
from engine.ghost import *
from engine.par import par
from . import tables
from .protoenc import describe, panic_text

ENDS = {'C20': ('encoded',), 'C21': ('accepted',), 'C22': ('accepted', 'padding', 'eos'), 'C23': ('accepted',)}


class BitHook:
    """keeps the reference coder next to the analysed loop"""
    fields = ()          # ghost places holding a bit field, and the place of its constant width

    def fork(self, I, st, alts):
        return None

    def start(self, I, st, src, dst):
        self.src = src
        gset(st, 'i', ZERO)
        gset(st, 'out', ('vec', (), None, I.u8()))

    # -------------------------------------------------------------- lockstep
    def positions(self, st):
        """positions of iterators over the input"""
        its, sls = [], []

        def walk(v):
            if not isinstance(v, tuple) or not v:
                return
            if v[0] == 'iter' and v[1] == 'slice' and v[2] == self.root:
                its.append(st.norm(v[4]))
            elif v[0] == 'slice' and v[1] == self.root:
                sls.append(st.norm(v[3]))
            elif v[0] == 'agg':
                for x in v[1]:
                    walk(x)
            elif v[0] == 'enum':
                for x in v[2]:
                    walk(x)
        for k, v in st.mem.items():
            if k[0] == 'l':
                walk(v)
        return its or [p for p in sls if p is not ZERO]

    def sync(self, I, st):
        pos = self.positions(st)
        t = st
        best = None
        for k in range(6):
            if pos and any(t.decide(eq(gget(t, 'i') - p)) is True for p in pos):
                best = t
                break
            t = t.copy()
            try:
                if self.step(I, t) is not None:
                    break
            except (Fork, Viol):
                break
            if not pos:
                best = t
        if best is not None and best is not st:
            adopt(st, best)

    def demote(self, I, xs):
        """does a counter follow the position of the reference?"""
        gi = [gget(s, 'i') for s, c in xs]
        if any(g.t for g in gi):
            return None
        gi = [g.c for g in gi]
        if len(set(gi)) < 2:
            return None if len({c for s, c in xs}) > 1 and len(xs) > 3 and len(set(gi)) == 1 and False else False
        return len({c - g for (s, c), g in zip(xs, gi)}) == 1 or len({c + g for (s, c), g in zip(xs, gi)}) == 1

    def candidates(self, I, fix, g):
        """bit-field relations between the real accumulators and the reference"""
        out = []
        ss = g.samples
        gh = []
        for place, width in self.fields:
            cell = g.A0.mem.get(('g', place))
            w = g.A0.norm(g.A0.mem[('g', width)])
            if w.t or w.c == 0 or not isinstance(cell, Form):
                continue
            gh.append((cell, w.c, [s.norm(s.mem[('g', place)]) for s in ss]))
        for a, (forms, place) in g.cells.items():
            if a.kind != 'data' or place[0][0] == 'g' or a.w != 64:
                continue
            try:
                bs = [s.copy() for s in ss]
                bits = [s.bits(f, 64) for s, f in zip(bs, forms)]
            except (Unsupported, Fork):
                continue
            zero = (1 << 64) - 1
            for b in bits:
                p = 0
                for w, k, x in b:
                    m = ((1 << w) - 1) << p
                    if k == 'c':
                        zero &= ~(x << p)
                    else:
                        zero &= ~m
                    p += w
            p = 0
            while p < 64:
                if zero >> p & 1:
                    q = p
                    while q < 64 and zero >> q & 1:
                        q += 1
                    out.append(('ge', -av(slc(a, p, q - p))))
                    p = q
                else:
                    p += 1
            for cell, w, vals in gh:
                for o in range(65 - w):
                    if all(s.frombits(s.cut(b, o, w)) is s.norm(v) for s, b, v in zip(bs, bits, vals)):
                        f = av(slc(a, o, w)) - cell
                        if f.t:
                            out.append(('eq', f))
        return out

    def element(self, I, st):
        """next input byte, None at the end"""
        i = gget(st, 'i')
        if not st.truth(ge(self.n - i - 1)):
            return None
        return st.norm(seq_at(I, st, self.segs, i, I.u8()))

    def push(self, I, st, x):
        o = gget(st, 'out')
        gset(st, 'out', ('vec', joinsegs(o[1], (('L', (x,)),)), None, o[3]))


def byvalue(st, f):
    """the constant value of f (splits over its values)"""
    f = st.norm(f)
    if not f.t:
        return f.c
    vs = st.values(f, 300)
    if vs is None:
        raise Unsupported('too many values of %r' % f)
    raise Fork([[eq(f - v)] for v in vs])


class EncHook(BitHook):
    fields = (('pend', 'np'),)

    def start(self, I, st, tid, ety):
        self.tid, self.ety = tid, ety
        gset(st, 'i', ZERO)
        gset(st, 'pend', ZERO)
        gset(st, 'np', ZERO)
        gset(st, 'out', ('vec', (), None, I.u8()))

    def step(self, I, st):
        b = self.element(I, st)
        if b is None:
            return 'end'
        L, code = I.resolve_tel(st, ('tel', self.tid, (b if b.t else b.c,)), self.ety)[1]
        L = byvalue(st, L)
        np = gget(st, 'np').c
        segs = st.cut(st.bits(code, 32), 0, L) + (st.cut(st.bits(gget(st, 'pend'), 64), 0, np) if np else [])
        n = np + L
        while n >= 8:
            self.push(I, st, st.frombits(st.cut(segs, n - 8, 8)))
            n -= 8
        gset(st, 'pend', st.frombits(st.cut(segs, 0, n)) if n else ZERO)
        gset(st, 'np', const(n))
        gset(st, 'i', st.norm(gget(st, 'i') + 1))
        return None


class DecHook(BitHook):
    fields = (('pend', 'np'), ('rem', 'k'))

    def start(self, I, st, tid, s, ety):
        self.tid, self.s, self.ety = tid, s, ety
        for n in ('i', 'rem', 'k', 'id', 'pend', 'np'):
            gset(st, n, ZERO)
        gset(st, 'out', ('vec', (), None, I.u8()))

    def look(self, I, st, key):
        """(next row or None, symbol or None, unused bits) of the current row"""
        i = st.norm(gget(st, 'id'))
        key = st.norm(key)
        if not st.truth(lt(i - len(TABS[self.tid]))):
            return None, None, 0
        v = I.resolve_tel(st, ('tel', self.tid, (i if i.t else i.c, key if key.t else key.c)), self.ety)[1]
        nxt, sym = I.expand(st, v[0]), I.expand(st, v[1])
        return (nxt[2][0] if nxt[1] else None), (sym[2][0] if sym[1] else None), v[2]

    def chunk(self, I, st, n, pad):
        """consume one table entry from the n + pad oldest bits; None, 'eos', 'nocode' or 'short'"""
        s = self.s
        k = gget(st, 'k').c
        segs = [(pad, 'c', 0)] * (pad > 0) + (st.cut(st.bits(gget(st, 'rem'), 64), 0, k) if k else [])
        key = st.frombits(st.cut(segs, k + pad - s, s))
        nxt, sym, left = self.look(I, st, key)
        if sym is None and nxt is None:
            return 'nocode'
        if sym is None:
            if pad:
                return 'short'
            left = 0
        left = byvalue(st, left) if isinstance(left, Form) else left
        if left < pad:
            return 'short'
        used = s - left
        take = st.cut(segs, k + pad - used, used)
        rest = st.cut(segs, pad, k - used) if k > used else []
        if sym is not None:
            if not st.truth(lt(sym - 256)):
                return 'eos'
            self.push(I, st, st.norm(sym))
            gset(st, 'id', ZERO)
            gset(st, 'pend', ZERO)
            gset(st, 'np', ZERO)
        else:
            np = gget(st, 'np').c
            gset(st, 'id', st.norm(nxt))
            gset(st, 'pend', st.frombits(take + (st.cut(st.bits(gget(st, 'pend'), 64), 0, np) if np else [])))
            gset(st, 'np', const(np + used))
        gset(st, 'rem', st.frombits(rest) if rest else ZERO)
        gset(st, 'k', const(k - used))
        return None

    def step(self, I, st):
        b = self.element(I, st)
        if b is None:
            return 'end'
        k = gget(st, 'k').c
        segs = st.bits(b, 8) + (st.cut(st.bits(gget(st, 'rem'), 64), 0, k) if k else [])
        gset(st, 'rem', st.frombits(segs))
        gset(st, 'k', const(k + 8))
        gset(st, 'i', st.norm(gget(st, 'i') + 1))
        while gget(st, 'k').c >= self.s:
            r = self.chunk(I, st, self.s, 0)
            if r is not None:
                return r
        return None

    def finish(self, I, st):
        """verdict at the end of the input"""
        while 0 < gget(st, 'k').c:
            r = self.chunk(I, st, gget(st, 'k').c, self.s - gget(st, 'k').c)
            if r == 'eos':
                return r
            if r is not None:
                break
        n = gget(st, 'np').c + gget(st, 'k').c
        if n > 7:
            return 'padding'
        k = gget(st, 'k').c
        for f, w in ((gget(st, 'pend'), gget(st, 'np').c), (gget(st, 'rem'), k)):
            if w and not st.truth(eq(st.norm(f) - ((1 << w) - 1))):
                return 'padding'
        return 'accepted'


# ------------------------------------------------------------------ jobs
def prepare(d, root, hook):
    I = Interp(d, Models({}), hook=hook, max_steps=20000000)
    I.opts['maxconst'] = 40
    I.opts['maxgroups'] = 200
    inst = I.insts[d['roots'][root]]
    st = St()
    lt = inst['body']['locals']
    args = [I.sym(('arg', i), lt[i + 1]) for i in range(inst['body']['argc'])]
    hook.root = args[0][1]
    hook.segs = I.get(st, args[0][1])[1]
    hook.n = slen(hook.segs)
    d0 = I.read(st, args[1][1], args[1][2])
    I.write(st, args[1][1], args[1][2], d0)
    return I, st, args, d0


def finish(I, outs, verdict, cats, what, kinds):
    out = []
    for s, v in outs:
        work = [s]
        while work:
            s = work.pop()
            t = s.copy()
            try:
                r = verdict(t, v)
                kinds[r] = kinds.get(r, 0) + 1
            except Fork as e:
                I.fork(e, s, work.append)
            except Viol as e:
                if s.consistent():
                    out.append((e.kind[1], '%s: %s' % (what, e.kind[2]), describe(s)))
    for p in I.panics:
        c, text = panic_text(p)
        out.append((c or cats, '%s: %s' % (what, text), describe(p[3])))
    for n in I.nonterm:
        out.append((cats, '%s: no progress in a loop (%s)' % (what, n[0]), ''))
    kinds['loop partitions'] = sum(l[1] for l in I.loopinfo)
    return out


def enc_job(d):
    h = EncHook()
    I, st, args, d0 = prepare(d, 'root_h_encode', h)
    t = tables.returned_const(d, 'root_h_encode_table')
    ety = pair_type(I, ('u8', 'u32'))
    h.start(I, st, TABPAIRS[I.tab(t, ('seq', ety))][2], ety)
    outs = I.run_root('root_h_encode', args, st)
    kinds = {}

    def verdict(st, v):
        v = I.expand(st, v)
        if v[1] != 0:
            raise Viol(('C20',), 'encoding fails')
        for k in range(8):
            r = h.step(I, st)
            if r is not None:
                break
        else:
            raise Viol(('C20',), 'the encoder stops before the end of the input')
        np = gget(st, 'np').c
        if np:
            h.push(I, st, st.frombits([(8 - np, 'c', (1 << (8 - np)) - 1)] + st.cut(st.bits(gget(st, 'pend'), 64), 0, np)))
        got = I.read(st, args[1][1], args[1][2])
        want = joinsegs(d0[1], gget(st, 'out')[1])
        if not seq_same(I, st, got[1], want, I.u8()):
            raise Viol(('C20',), 'the bytes appended are not the codes of the octets padded with ones')
        return 'encoded'
    return finish(I, outs, verdict, ('C20',), 'huffman encode', kinds), kinds


def pair_type(I, names):
    for i, t in enumerate(I.T):
        if t['k'] == 'tuple' and len(t['f'] or ()) == len(names) and all(tyname(I, f).startswith(n) for f, n in zip(t['f'], names)):
            return i
    raise Unsupported('no type (%s)' % ', '.join(names))


def tyname(I, t):
    n = I.T[t]['n']
    return n.replace('std::option::', '').replace('core::option::', '')


def dec_job(d, s):
    h = DecHook()
    I, st, args, d0 = prepare(d, 'root_h_decode', h)
    t = tables.returned_const(d, 'root_h_dt%d' % s)
    ety = pair_type(I, ('Option<u8', 'Option<u16', 'u8'))
    h.start(I, st, TABPAIRS[I.tab(t, ('rows', s))][2], s, ety)
    sp = I.T[I.insts[d['roots']['root_h_decode']]['body']['locals'][3]]
    vi = [i for i, v in enumerate(sp['v']) if v['d'] == s]
    if len(vi) != 1:
        return [(('C21', 'C22', 'C23'), 'huffman decode: no speed of %d bits' % s, '')], {}
    args[2] = ('enum', vi[0], ())
    outs = I.run_root('root_h_decode', args, st)
    kinds = {}
    what = 'huffman decode at %d bits' % s
    ert = I.insts[d['roots']['root_h_decode']]['body']['locals'][0]
    ert = I.T[ert]['args'][1]

    def verdict(st, v):
        v = I.expand(st, v)
        for k in range(8):
            r = h.step(I, st)
            if r is not None:
                break
        else:
            raise Viol(('C21',), 'the decoder stops before the end of the input')
        if r == 'end':
            r = h.finish(I, st)
        if v[1] == 0:
            if r != 'accepted':
                raise Viol(('C22',) if r != 'nocode' else ('C21', 'C22'), {'eos': 'a sequence containing the EOS code is accepted',
                           'nocode': 'bits that are not a code are accepted',
                           'padding': 'a sequence with more than seven padding bits or with padding other than ones is accepted'}[r])
            got = I.read(st, args[1][1], args[1][2])
            want = joinsegs(d0[1], gget(st, 'out')[1])
            if not seq_same(I, st, got[1], want, I.u8()):
                raise Viol(('C21',), 'the symbols appended are not those of the input bits in order')
            return r
        if r == 'accepted':
            raise Viol(('C21', 'C22'), 'a valid sequence is refused')
        e = I.expand(st, v[2][0])
        if I.T[ert]['v'][e[1]]['n'] != 'InvalidInput':
            raise Viol(('C22',), 'an invalid sequence gives another error than invalid input')
        return r
    return finish(I, outs, verdict, ('C21', 'C22', 'C23'), what, kinds), kinds


RULE = {
    'C20': 'on every path encode appends the codes of the octets in order, padded with ones',
    'C21': 'on every path decode appends exactly the symbols the reference reader finds',
    'C22': 'decode accepts exactly the sequences the reference reader accepts',
    'C23': 'every path of decode returns',
}


def decide(pid, rep):
    d = extract('huffman')
    rep.count('functions in the MIR dump', len(d['insts']))
    jobs = [0] if pid == 'C20' else [1, 2, 3, 4, 5]
    rule = RULE[pid]
    for j, r in zip(jobs, par(lambda j: dec_job(d, j) if j else enc_job(d), jobs, bad=lambda c: pid in c)):
        name = 'huffman decode at %d bits' % j if j else 'huffman encode'
        if r[0] == 'skip':
            rep.count('analyses not completed because another one has an alarm')
            continue
        if r[0] == 'exc':
            rep.ob('the analysis of an entry point completes', False, '%s %s' % (name, r[1].split(':')[0]), r[1])
            continue
        out, kinds = r
        bad = [o for o in out if pid in o[0]]
        for k, v in kinds.items():
            rep.count(k if k == 'loop partitions' else 'paths: ' + k, v)
            if not bad and k != 'loop partitions':
                o = rep.obl.setdefault(rule, [0, 0])
                o[0] += v
                o[1] += v
        for k in ENDS[pid]:
            rep.ob('every kind of ending is reached', bool(kinds.get(k)) or bool(bad), '%s %s' % (name, k))
        rep.count('entry points')
        rep.ob(rule, not bad, bad[0][1] if bad else None, '\n'.join('%s\n   %s' % (o[1], o[2]) for o in bad[:5]),
               sample='%s: %s' % (name, ', '.join('%s %d' % x for x in kinds.items())))
    rep.floor(rule, 5)


def C20(rep):
    decide('C20', rep)
    tables.C18(rep)


def C21(rep):
    decide('C21', rep)
    tables.C19(rep)


def C22(rep):
    decide('C22', rep)
    tables.C19(rep)


def C23(rep):
    decide('C23', rep)
