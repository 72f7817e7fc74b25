"""Loop analysis: bounded unrolling, else a trace-partitioned fixpoint with inferred relational invariants."""
import os, sys
from .terms import *
from .state import *
from .interp import *
from .models import canon_seq, slen

DBG = os.environ.get('VP_LOOPDBG')


class Shape(Exception):
    pass


def forked(I, st, f):
    """run f on (copies of) st, splitting as it demands"""
    work = [st]
    out = []
    while work:
        s = work.pop()
        t = s.copy()
        try:
            r = f(t)
        except Fork as e:
            I.fork(e, s, work.append)
            continue
        if not t.dead:
            out.append((t, r))
    return out


def run_loop(I, fr, st, h):
    loop = (h, fr.fn.loops[h])
    name = '%s loop at bb%d' % (fr.fn.path, h)
    I.loopruns[name] = I.loopruns.get(name, 0) + 1
    prune(fr, st, h)
    mark = (len(I.panics), len(I.nonterm))
    first = []
    r, samples = unroll(I, fr, st, loop, name, first)
    if r is not None:
        I.loopmode.setdefault(name, set()).add('unrolled')
        return r
    if I.PEEL and first and any(d == 1 for d, s in samples):
        # the first iteration is kept apart: the invariant describes the later ones
        del I.panics[first[1]:]
        del I.nonterm[first[2]:]
        I.loopmode.setdefault(name, set()).add('fixpoint after the first iteration')
        return first[0] + Fix(I, fr, st, loop, name, samples, True).run()
    del I.panics[mark[0]:]
    del I.nonterm[mark[1]:]
    I.loopmode.setdefault(name, set()).add('fixpoint')
    return Fix(I, fr, st, loop, name, samples).run()


def prune(fr, st, h):
    live = fr.fn.live[h]
    for k in [k for k in st.mem if k[0] == 'l' and k[1] == fr.d and k[2] not in live]:
        del st.mem[k]
    heap = [k for k in st.mem if k[0] == 'h']
    if heap:
        # temporaries nothing refers to any more
        seen = set()
        work = [v for k, v in st.mem.items() if k[0] != 'h']
        while work:
            v = work.pop()
            if not isinstance(v, tuple) or not v:
                continue
            if v[0] == 'h' and v in st.mem:
                if v not in seen:
                    seen.add(v)
                    work.append(st.mem[v])
            else:
                work.extend(v)
        for k in heap:
            if k not in seen:
                del st.mem[k]


def sync(I, fr, st):
    if I.hook is None or not hasattr(I.hook, 'sync'):
        return [st]
    return [s for s, _ in forked(I, st, lambda t: I.hook.sync(I, t))]


def unroll(I, fr, st, loop, name, first):
    pending = [st]
    outs = []
    samples = [(0, st)]
    s0 = I.steps
    lim = I.opts.get('unroll', 16)
    pend = I.opts.get('pend', 24)
    if name in I.nounroll or any(fr.fn.path == p for p in I.opts.get('nounroll', ())):
        lim = 1
    for it in range(lim):
        nxt = []
        for s in pending:
            for o in I.explore(fr, s.copy(), loop[0], loop):
                if o[0] == 'back':
                    prune(fr, o[1], loop[0])
                    nxt.append(o[1])
                else:
                    outs.append(o)
            if it == 0 and s is pending[-1]:
                first[:] = [list(outs), len(I.panics), len(I.nonterm)]
            if len(nxt) > pend or I.steps - s0 > I.opts.get('unroll_steps', 150000):
                samples += [(it + 1, s) for s in nxt]
                I.nounroll.add(name)
                return None, samples
        samples += [(it + 1, s) for s in nxt]
        pending = nxt
        if not pending:
            return outs, None
    I.nounroll.add(name)
    return None, samples


class Group:
    pass


class Fix:
    asker = 'demote'

    def __init__(self, I, fr, E, loop, name, samples, peeled=False):
        self.I, self.fr, self.loop, self.name = I, fr, loop, name
        E = E.copy()
        es = sync(I, fr, E)
        self.E = es[0] if len(es) == 1 else E
        self.entries = es
        self.demoted = set()
        self.consts = {}        # place -> list of sets of constants per round
        self.modes = {}         # sequence place -> mode
        self.rounds = 0
        self.mycells = set()
        self.init = list(es)
        lim = I.opts.get('fix_samples', 6)
        k = 0
        if peeled:
            # every state that ends the first iteration enters
            self.init = [t for d, s in samples if d == 1 for t in sync(I, fr, s.copy())]
            self.entries = list(self.init)
            samples = [x for x in samples if x[0] != 1]
        for d, s in samples[1:]:
            if k >= lim or d > 3:
                break
            k += 1
            self.init += sync(I, fr, s.copy())

    # ------------------------------------------------------------ walking states
    def roots(self, st):
        out = []
        for k, v in st.mem.items():
            w = self.E.mem.get(k)
            if w is None and k[0] != 'l':
                w = self.E.mem[k] = self.I.default(self.E, k)
            if v is not w and v != w:
                out.append(k)
        return out

    def mat(self, st):
        """make the implicit (never written) roots explicit"""
        for k in self.E.mem:
            if k not in st.mem and k[0] != 'l':
                st.mem[k] = self.I.default(st, k)

    def settle(self, st, roots):
        """decide the conditions stored in changed places (may fork)"""
        def walk(v):
            if isinstance(v, tuple):
                if v and v[0] in ('ge', 'eq', 'ne', 'is', 'isnot') and len(v) in (2, 3):
                    return st.truth(v)
                if v and v[0] in ('agg',):
                    return ('agg', tuple(walk(x) for x in v[1]))
                if v and v[0] == 'enum':
                    return ('enum', v[1], tuple(walk(x) for x in v[2]))
                if v and v[0] == 'sym':
                    r = st.lookup(('var', v[1]))
                    if r is not None:
                        return walk(self.I.expand(st, v))
            return v
        for k in roots:
            if k in st.mem:
                st.mem[k] = walk(st.mem[k])

    def leaves(self, st, roots):
        """place -> ('k', x) discrete, ('i', Form), ('q', segs)"""
        out = {}

        def walk(v, p):
            if isinstance(v, Form):
                out[p] = ('i', st.norm(v))
                return
            if v is True or v is False:
                out[p] = ('k', v)
                return
            t = v[0]
            if t == 'agg':
                for i, x in enumerate(v[1]):
                    walk(x, p + (i,))
                out[p] = ('k', ('agg', len(v[1])))
            elif t == 'enum':
                out[p] = ('k', ('enum', v[1]))
                for i, x in enumerate(v[2]):
                    walk(x, p + (i,))
            elif t == 'ref':
                out[p] = ('k', ('ref', v[1], pathshape(v[2])))
                for i, e in enumerate(v[2]):
                    if e[0] == 'idx':
                        out[p + ('p', i)] = ('i', st.norm(e[1]))
            elif t == 'slice':
                out[p] = ('k', ('slice', v[1], pathshape(v[2])))
                for i, e in enumerate(v[2]):
                    if e[0] == 'idx':
                        out[p + ('p', i)] = ('i', st.norm(e[1]))
                out[p + ('s',)] = ('i', st.norm(v[3]))
                out[p + ('n',)] = ('i', st.norm(v[4]))
            elif t == 'vec':
                out[p] = ('k', 'vec')
                out[p + ('q',)] = ('q', canon_seq(st, v[1]))
            elif t == 'iter':
                if v[1] == 'vec':
                    out[p] = ('k', ('iter', 'vec'))
                    out[p + ('q',)] = ('q', canon_seq(st, v[2]))
                else:
                    out[p] = ('k', ('iter', v[1], v[2], pathshape(v[3])))
                    for i, e in enumerate(v[3]):
                        if e[0] == 'idx':
                            out[p + ('p', i)] = ('i', st.norm(e[1]))
                    for i, x in enumerate(v[4:]):
                        out[p + ('x', i)] = ('i', st.norm(x))
            elif t in ('ge', 'eq', 'ne', 'is', 'isnot'):
                out[p] = ('k', v)
            elif t == 'sym':
                out[p] = ('s', v)
            elif t == 'opq':
                out[p] = ('o', v)
            else:
                out[p] = ('k', v)
        for k in roots:
            if k in st.mem:
                walk(st.mem[k], (k,))
        return out

    # ------------------------------------------------------------ driver
    def run(self):
        I = self.I
        samples = self.init
        I.nesting += 1
        try:
            restart = True
            tries = 0
            while restart:
                tries += 1
                if tries > 12:
                    raise Unsupported('no loop invariant found for %s' % self.name)
                restart = not self.fix(samples)
            return self.outs
        finally:
            I.nesting -= 1

    def prep(self, states):
        """settle conditions of the changed roots"""
        out = []
        for s in states:
            rs = self.roots(s)
            for t, _ in forked(self.I, s, lambda x: self.settle(x, rs)):
                out.append(t)
        return out

    def fix(self, init):
        I = self.I
        self.pool = self.prep(init)
        if not self.setup():
            return False
        groups = {}
        for s in self.pool:
            g = groups.get(self.key(s))
            if g is None:
                g = groups[self.key(s)] = Group()
                g.key = self.key(s)
                g.samples = []
                g.dropped = set()
                g.vsets = {}
                g.dirty = True
            g.samples.append(s)
        for g in groups.values():
            self.generalise(g)
        while True:
            self.rounds += 1
            if self.rounds > 40:
                raise Unsupported('loop fixpoint does not converge in %s' % self.name)
            todo = [g for g in groups.values() if g.dirty]
            if not todo:
                break
            if DBG:
                print('%s[%s] round %d: %d groups, %d dirty' % ('  ' * I.nesting, self.name, self.rounds, len(groups), len(todo)), file=sys.stderr)
            newsamples = []
            for g in todo:
                g.dirty = False
                self.execute(g)
                if DBG:
                    print('%s  group %s cells %d inv %d -> %d backs %d outs' % ('  ' * I.nesting, short(g.key), len(g.cells), len(g.inv), len(g.backs), len(g.outs)), file=sys.stderr)
            ch = False
            for g in list(groups.values()):
                for b in g.backs:
                    k = self.key(b)
                    if k is None:
                        ch = True
                        newsamples.append(b)
                        continue
                    t = groups.get(k)
                    if t is None:
                        newsamples.append(b)
                        continue
                    r = self.cover(t, b)
                    if r is True:
                        continue
                    if r == 'inv':
                        t.dirty = True
                        continue
                    newsamples.append(b)
            if newsamples:
                if DBG:
                    print('%s  %d new samples' % ('  ' * I.nesting, len(newsamples)), file=sys.stderr)
                # shapes or constants changed: extend the pool and regroup what is affected
                before = (dict(self.modes), set(self.demoted), set(self.changed))
                lim = {}
                add = []
                for b in newsamples:
                    k = self.key(b)
                    if lim.get(k, 0) < 4:
                        lim[k] = lim.get(k, 0) + 1
                        add.append(b)
                self.pool += add
                if not self.setup() or before != (self.modes, self.demoted, set(self.changed)):
                    self.init2 = self.pool
                    return self.fix_again(init, add)
                for b in add:
                    k = self.key(b)
                    t = groups.get(k)
                    if t is None:
                        t = groups[k] = Group()
                        t.key = k
                        t.samples = []
                        t.dropped = set()
                        t.vsets = {}
                    t.samples.append(b)
                    t.regen = True
                for t in groups.values():
                    if getattr(t, 'regen', False):
                        t.regen = False
                        t.dirty = True
                        self.generalise(t)
                if len(groups) > I.opts.get('maxgroups', 64):
                    raise Unsupported('too many loop partitions in %s' % self.name)
        # final: every group was executed from its final abstraction
        outs = []
        for g in groups.values():
            outs += g.outs
        mark = []
        for g in groups.values():
            mark += g.panics
            I.nonterm += g.nonterm
        I.panics += mark
        self.outs = outs
        self.terminates(groups)
        inv = sum(len(g.inv) for g in groups.values())
        I.loopinfo.append((self.name, len(groups), inv, [fmtinv(g) for g in groups.values()][:4]))
        return True

    def fix_again(self, init, add):
        init += add[:8]
        return False

    def execute(self, g):
        I = self.I
        mark = (len(I.panics), len(I.nonterm))
        outs = I.explore(self.fr, g.A.copy(), self.loop[0], self.loop)
        g.outs = []
        g.backs = []
        backs = []
        for o in outs:
            if o[0] == 'back':
                prune(self.fr, o[1], self.loop[0])
                backs += sync(I, self.fr, o[1])
            else:
                g.outs.append(o)
        g.backs = self.prep(backs)
        g.panics = I.panics[mark[0]:]
        g.nonterm = I.nonterm[mark[1]:]
        del I.panics[mark[0]:]
        del I.nonterm[mark[1]:]

    # ------------------------------------------------------------ partitioning
    def setup(self):
        """decide, from all samples, which places are keys, cells, and how sequences are abstracted"""
        E = self.E
        roots = []
        seen = set()
        for s in self.pool:
            self.roots(s)
        for s in self.pool:
            self.mat(s)
            for k in self.roots(s):
                if k not in seen:
                    seen.add(k)
                    roots.append(k)
            for k in E.mem:
                if k not in s.mem and k not in seen:
                    seen.add(k)
                    roots.append(k)
        # a root that some sample lacks carries no information
        for k in getattr(self.I.hook, 'live', ()):
            if k not in seen:
                seen.add(k)
                roots.append(k)
        self.dead = {k for k in roots if any(k not in s.mem for s in self.pool)}
        self.changed = [k for k in roots if k not in self.dead]
        self.chset = set(self.changed)
        vals = {}
        whose = {}
        for s in self.pool:
            for p, x in self.leaves(s, self.changed).items():
                vals.setdefault(p, []).append(x)
                whose.setdefault(p, []).append(s)
        ask = getattr(self.I.hook, self.asker, None)
        self.vals = vals
        self.intplaces = {}
        for p, xs in vals.items():
            if xs[0][0] == 'i':
                cs = [x[1] for x in xs if x[0] == 'i']
                if any(c.t for c in cs):
                    self.demoted.add(p)
                elif ask is not None:
                    # the hook knows which counters follow its own position
                    if p not in self.demoted and (len({c.c for c in cs}) > self.I.opts.get('maxconst', 24)
                                                  or ask(self.I, [(s, x[1].c) for s, x in zip(whose[p], xs) if x[0] == 'i'])):
                        self.demoted.add(p)
                else:
                    new = {c.c for c in cs}
                    h = self.consts.setdefault(p, [])
                    if not h or new - set().union(*h):
                        if h and min(new - set().union(*h)) > max(set().union(*h)):
                            self.consts[p + ('inc',)] = self.consts.get(p + ('inc',), 0) + 1
                        h.append(new)
                    if self.consts.get(p + ('inc',), 0) >= 2 or len(new) > self.I.opts.get('maxconst', 24):
                        self.demoted.add(p)
                    elif len(new) >= 4 and self.increasing(p, cs):
                        self.demoted.add(p)
        modes = {}
        for p, xs in vals.items():
            if xs[0][0] == 'q':
                modes[p] = self.seqmode(p, [x[1] for x in xs])
        self.modes = modes
        return True

    def increasing(self, p, cs):
        """constants that only grow along the unrolled prefix"""
        v = [c.c for c in cs]
        return all(a < b for a, b in zip(v, v[1:]))

    def seqmode(self, p, qs):
        E = self.leaves(self.E, [p[0]]).get(p)
        eq_ = E[1] if E and E[0] == 'q' else ()
        sh = {seqshape(q) for q in qs}
        if len(sh) == 1:
            return ('same',)
        bases = {s[1] for q in qs for s in q if s[0] == 'S'}
        if len(bases) == 1 and all(len(q) <= 1 and all(s[0] == 'S' for s in q) for q in qs):
            ref = [q[0] for q in qs if q]
            e = eq_[0] if eq_ and eq_[0][0] == 'S' else ref[0]
            front = all(s[2] is e[2] for s in ref)
            return ('window', ref[0][1], e[2] if front else self.E.norm(e[2] + e[3]))
        el = [v for s in eq_ if s[0] == 'L' for v in s[1]]
        eb = {s[1] for s in eq_ if s[0] == 'S'}
        if len(sh) <= 4 and all(all((s[0] == 'S' and s[1] in eb) or (s[0] == 'L' and all(v in el for v in s[1])) for s in q) for q in qs):
            return ('shapes',)
        if DBG: print('APPEND', short(p), [str(x)[:200] for x in qs], 'E', str(eq_)[:300], file=sys.stderr)
        # common prefix
        pre = list(qs[0])
        for q in qs[1:]:
            n = 0
            while n < len(pre) and n < len(q) and pre[n] == q[n]:
                n += 1
            if n < len(pre) and n < len(q) and pre[n][0] == 'L' and q[n][0] == 'L':
                a, b = pre[n][1], q[n][1]
                m = 0
                while m < len(a) and m < len(b) and a[m] == b[m]:
                    m += 1
                pre = pre[:n] + ([('L', a[:m])] if m else [])
            else:
                pre = pre[:n]
        return ('append', tuple(pre))

    def key(self, st):
        k = []
        self.roots(st)
        self.mat(st)
        lv = self.leaves(st, self.changed)
        for p, x in lv.items():
            if x[0] == 'k':
                k.append((p, x[1]))
            elif x[0] == 'i':
                if p not in self.demoted and not x[1].t:
                    k.append((p, x[1].c))
            elif x[0] == 'q':
                if self.modes.get(p, ('same',))[0] == 'shapes':
                    k.append((p, seqshape(x[1])))
        return frozenset(k)

    # ------------------------------------------------------------ generalisation
    def generalise(self, g):
        I, E = self.I, self.E
        g.cells = {}       # atom -> tuple of forms
        g.bykey = {}
        g.hv = {}          # suffix tuple -> base name
        g.hvb = {}         # base -> length cell form
        g.fresh = {}
        g.tm = {}
        g.lm = {}
        A = E.copy()
        for k in self.dead:
            A.mem.pop(k, None)
        for k in list(A.mem):
            if any(k not in s.mem for s in g.samples):
                del A.mem[k]
        A.ev = E.ev
        ss = g.samples
        for k in self.changed:
            if all(k in s.mem for s in ss):
                try:
                    A.mem[k] = self.gen(g, ss, [s.mem[k] for s in ss], (k,))
                except Shape as e:
                    raise Unsupported('loop %s: %s' % (self.name, e))
        g.A0 = A
        g.virt = self.virtuals(A)
        g.cand = self.candidates(g)
        self.build(g)

    def virtuals(self, st):
        if self.I.hook is not None and hasattr(self.I.hook, 'virtuals'):
            return self.I.hook.virtuals(self.I, st)
        return []

    def build(self, g):
        g.inv = [c for c in g.cand if c not in g.dropped]
        A = g.A0.copy()
        for c in g.inv:
            if not A.assume(c):
                raise Unsupported('contradictory loop candidates in %s' % self.name)
        g.A = A

    def cell(self, g, forms, place, kind='data'):
        f0 = forms[0]
        if all(f is f0 for f in forms) and (place not in self.demoted or (f0.t and getattr(self.I.hook, 'keepsym', False))):
            if not f0.t:
                return f0
            s = set()
            form_atoms(f0, s)
            if not (s & self.mycells):
                return f0
        key = tuple(forms)
        c = g.bykey.get(key)
        if c is None:
            self.I.cellno += 1
            if kind == 'len':
                a = atom(('cell', self.I.cellno), 64, 0, LENMAX, 'len')
            else:
                a = atom(('cell', self.I.cellno), 64)
            c = av(a)
            self.mycells.add(a)
            g.bykey[key] = c
            g.cells[a] = (key, place)
        return c

    def gen(self, g, ss, vs, p):
        v0 = vs[0]
        if all(isinstance(v, Form) for v in vs):
            return self.cell(g, [s.norm(v) for s, v in zip(ss, vs)], p)
        if not (isinstance(v0, tuple) and v0[0] in ('agg', 'enum', 'vec', 'iter', 'ref', 'slice')) and all(v == v0 for v in vs):
            return v0
        if not all(isinstance(v, tuple) for v in vs) or any(v[0] != v0[0] for v in vs):
            raise Shape('different kinds of value at %s' % (p,))
        t = v0[0]
        if t == 'agg':
            return ('agg', tuple(self.gen(g, ss, [v[1][i] for v in vs], p + (i,)) for i in range(len(v0[1]))))
        if t == 'enum':
            return ('enum', v0[1], tuple(self.gen(g, ss, [v[2][i] for v in vs], p + (i,)) for i in range(len(v0[2]))))
        if t in ('ref', 'slice', 'iter') and not (t == 'iter' and v0[1] == 'vec'):
            o = 2 if t == 'iter' else 1
            path = []
            for i, e in enumerate(v0[o + 1]):
                if e[0] == 'idx':
                    e = ('idx', self.cell(g, [s.norm(v[o + 1][i][1]) for s, v in zip(ss, vs)], p + ('p', i), 'len'))
                path.append(e)
            rest = tuple(self.cell(g, [s.norm(v[j]) for s, v in zip(ss, vs)], p + ('x', j), 'len') for j in range(o + 2, len(v0)))
            return v0[:o + 1] + (tuple(path),) + rest
        if t == 'vec':
            segs = self.genseq(g, ss, [canon_seq(s, v[1]) for s, v in zip(ss, vs)], p + ('q',), v0[3])
            cap = v0[2] if all(v[2] is v0[2] for v in vs) and self.modes.get(p + ('q',), ('same',))[0] != 'append' else None
            return ('vec', segs, cap, v0[3])
        if t == 'iter':
            segs = self.genseq(g, ss, [canon_seq(s, v[2]) for s, v in zip(ss, vs)], p + ('q',), v0[3])
            return ('iter', 'vec', segs, v0[3])
        if t == 'sym':
            key = tuple(vs)
            r = g.fresh.get(key)
            if r is None:
                self.I.cellno += 1
                r = g.fresh[key] = ('sym', ('cellv', self.I.cellno), v0[2])
            return r
        if t == 'opq':
            key = tuple(vs)
            r = g.fresh.get(key)
            if r is None:
                self.I.cellno += 1
                r = g.fresh[key] = ('opq', 'cellv', self.I.cellno)
            return r
        raise Shape('value %s at %s' % (t, p))

    def genseq(self, g, ss, qs, p, ety):
        q0 = qs[0]
        m = self.modes.get(p)
        if m is None:
            m = ('same',) if len({seqshape(q) for q in qs}) == 1 else ('append', ())
            g.lm[p] = m
        if all(q == q0 for q in qs) and m[0] not in ('append', 'window'):
            return q0
        if m[0] in ('same', 'shapes'):
            out = []
            for i, s in enumerate(q0):
                if s[0] == 'L':
                    out.append(('L', tuple(self.gen(g, ss, [q[i][1][j] for q in qs], p + (i, j)) for j in range(len(s[1])))))
                elif s[0] == 'S':
                    out.append(('S', s[1], self.cell(g, [q[i][2] for q in qs], p + (i, 's'), 'len'),
                                self.cell(g, [q[i][3] for q in qs], p + (i, 'n'), 'len')))
                else:
                    out.append(('R', self.gen(g, ss, [q[i][1] for q in qs], p + (i, 'r')),
                                self.cell(g, [q[i][2] for q in qs], p + (i, 'n'), 'len')))
            return tuple(out)
        if m[0] == 'window':
            st = self.cell(g, [q[0][2] if q else m[2] for q in qs], p + ('s',), 'len')
            ln = self.cell(g, [q[0][3] if q else ZERO for q in qs], p + ('n',), 'len')
            g.tm[p] = m
            return (('S', m[1], st, ln),)
        # append: unchanged prefix, then an unknown sequence shared between equal places
        sufs = tuple(suffix(q, m[1]) for q in qs)
        base = g.hv.get(sufs)
        if base is None:
            for other, b in g.hv.items():
                if all(seqs_equal(self.I, s, x, y, ety) for s, x, y in zip(ss, sufs, other)):
                    base = b
                    break
        if base is None:
            self.I.cellno += 1
            base = g.hv[sufs] = ('hv', self.I.cellno)
            forms = [s.norm(slen(x)) for s, x in zip(ss, sufs)]
            g.hvb[base] = self.cell(g, forms, p + ('hn',), 'len')
        return joinsegs(m[1], (('S', base, ZERO, g.hvb[base]),))

    # ------------------------------------------------------------ coverage
    def cover(self, g, b):
        """True, 'inv' (candidates were dropped) or 'shape'"""
        mp, hv, fresh = {}, {}, {}
        self.mat(b)
        for k in self.roots(b):
            if k not in self.chset and k[0] != 'l':
                return 'shape'
        try:
            for k, v in g.A0.mem.items():
                if k not in b.mem:
                    raise Shape('missing root')
                x = b.mem[k]
                if x is v:
                    continue
                self.match(g, b, v, x, mp, hv, fresh, (k,))
        except Shape as e:
            if DBG:
                print('%s    not covered: %s' % ('  ' * self.I.nesting, e), file=sys.stderr)
            return 'shape'
        drop = []
        for c in g.inv:
            if c[0] == 'tabc':
                f = subst(b, c[1][0], mp)
                if b.decide(('tabc', (f,), c[2])) is not True:
                    drop.append(c)
                    v = b.vset(f)
                    if v is not None and len(v) <= 4096:
                        # widen the value set
                        new = ('tabc', c[1], c[2] | frozenset((x,) for x in v))
                        if new != c and new not in g.cand:
                            g.cand.append(new)
                            g.vsets[g.cells[c[1][0].t[0][0]][1]] = new[2]
                continue
            try:
                f = subst(b, c[1], mp, hv)
            except Fork:
                drop.append(c)
                continue
            if b.decide((c[0], f)) is not True:
                drop.append(c)
        if drop:
            g.dropped |= set(drop)
            if DBG:
                for c in drop:
                    if c[0] == 'tabc':
                        print('%s    widen %r' % ('  ' * self.I.nesting, c[1]), file=sys.stderr)
                    else:
                        print('%s    drop %s %r' % ('  ' * self.I.nesting, c[0], c[1]), file=sys.stderr)
            self.build(g)
            return 'inv'
        return True

    def mint(self, g, b, t, f, mp, p):
        f = b.norm(f)
        if len(t.t) == 1 and t.c == 0 and t.t[0][1] == 1 and t.t[0][0] in g.cells:
            a = t.t[0][0]
            if a in mp:
                if b.decide(eq(mp[a] - f)) is not True:
                    raise Shape('unequal values for a shared cell at %s: %r / %r' % (short(p), mp[a], f))
            else:
                mp[a] = f
            return
        if t is f or b.decide(eq(t - f)) is True:
            return
        raise Shape('%s: %r is not %r' % (short(p), f, t))

    def match(self, g, b, t, v, mp, hv, fresh, p):
        if isinstance(t, Form):
            if not isinstance(v, Form):
                raise Shape('kind')
            return self.mint(g, b, t, v, mp, p)
        if t is v:
            return
        if not isinstance(t, tuple) or not isinstance(v, tuple) or t[0] != v[0]:
            if t == v:
                return
            raise Shape('%s: kind' % short(p))
        k = t[0]
        if k == 'agg':
            if len(t[1]) != len(v[1]):
                raise Shape('size')
            for i, (x, y) in enumerate(zip(t[1], v[1])):
                self.match(g, b, x, y, mp, hv, fresh, p + (i,))
        elif k == 'enum':
            if t[1] != v[1]:
                raise Shape('%s: variant' % short(p))
            for i, (x, y) in enumerate(zip(t[2], v[2])):
                self.match(g, b, x, y, mp, hv, fresh, p + (i,))
        elif k in ('ref', 'slice') or (k == 'iter' and t[1] != 'vec'):
            o = 2 if k == 'iter' else 1
            if t[:o + 1] != v[:o + 1] or pathshape(t[o + 1]) != pathshape(v[o + 1]):
                raise Shape('%s: reference' % short(p))
            for e, f in zip(t[o + 1], v[o + 1]):
                if e[0] == 'idx':
                    self.mint(g, b, e[1], f[1], mp, p)
            for x, y in zip(t[o + 2:], v[o + 2:]):
                self.mint(g, b, x, y, mp, p)
        elif k in ('vec', 'iter'):
            ts, vs = (t[1], v[1]) if k == 'vec' else (t[2], v[2])
            if k == 'vec' and t[2] is not None and t[2] is not v[2]:
                raise Shape('capacity')
            self.mseq(g, b, ts, canon_seq(b, vs), mp, hv, fresh, p + ('q',))
        elif k == 'sym' or k == 'opq':
            if t == v:
                return
            if t in g.fresh.values():
                if t in fresh and fresh[t] != v:
                    raise Shape('%s: unequal opaque values' % short(p))
                fresh[t] = v
                return
            raise Shape('%s: opaque' % short(p))
        elif t != v:
            raise Shape('%s: %r' % (short(p), v[0]))

    def mseq(self, g, b, ts, vs, mp, hv, fresh, p):
        m = self.modes.get(p) or g.lm.get(p, ('same',))
        if m[0] == 'append':
            base = ts[-1][1] if ts and ts[-1][0] == 'S' and ts[-1][1] in g.hvb else None
            if base is not None:
                suf = suffix(vs, m[1])
                if suf is None:
                    raise Shape('%s: prefix changed' % short(p))
                if base in hv:
                    if hv[base] != suf and not seqs_equal(self.I, b, hv[base], suf, None):
                        raise Shape('%s: sequences differ: %s / %s' % (short(p), hv[base], suf))
                else:
                    hv[base] = suf
                    self.mint(g, b, g.hvb[base], slen(suf), mp, p)
                return
        if m[0] == 'window' and not vs:
            self.mint(g, b, ts[0][2], m[2], mp, p)
            self.mint(g, b, ts[0][3], ZERO, mp, p)
            return
        if not vs and len(ts) == 1 and ts[0][0] == 'S':
            self.mint(g, b, ts[0][3], ZERO, mp, p)
            a = ts[0][2]
            if len(a.t) == 1 and a.t[0][0] in g.cells and a.t[0][0] not in mp:
                raise Shape('%s: empty window' % short(p))
            return
        if len(ts) != len(vs):
            raise Shape('%s: sequence shape' % short(p))
        for i, (x, y) in enumerate(zip(ts, vs)):
            if x[0] != y[0]:
                raise Shape('%s: sequence shape' % short(p))
            if x[0] == 'L':
                if len(x[1]) != len(y[1]):
                    raise Shape('%s: sequence shape' % short(p))
                for j, (u, w) in enumerate(zip(x[1], y[1])):
                    self.match(g, b, u, w, mp, hv, fresh, p + (i, j))
            elif x[0] == 'S':
                if x[1] != y[1]:
                    raise Shape('%s: sequence base' % short(p))
                self.mint(g, b, x[2], y[2], mp, p)
                self.mint(g, b, x[3], y[3], mp, p)
            else:
                self.match(g, b, x[1], y[1], mp, hv, fresh, p + (i, 'r'))
                self.mint(g, b, x[2], y[2], mp, p)

    # ------------------------------------------------------------ candidates
    def candidates(self, g):
        ss = g.samples
        cells = list(g.cells.items())
        out = []
        n = len(ss)

        def add(c):
            if c not in out:
                out.append(c)
        exprs = [(av(a), key) for a, (key, place) in cells]
        # values of virtual terms in every sample
        if g.virt:
            for f in g.virt:
                key = self.virt_values(g, f)
                if key is not None:
                    exprs.append((f, key))
        # value sets of places that hold table values
        for a, (key, place) in cells:
            if a.kind == 'len' or not any(istab(f) for f in key):
                continue
            vs = [s.vset(f) for s, f in zip(ss, key)]
            if all(v is not None for v in vs):
                new = frozenset((x,) for v in vs for x in v)
                if len(new) <= 4096:
                    new |= g.vsets.get(place, frozenset())
                    add(('tabc', (av(a),), new))
        # intervals
        for f, key in exprs:
            lo = min(s.interval(k)[0] for s, k in zip(ss, key))
            hi = max(s.interval(k)[1] for s, k in zip(ss, key))
            l0, h0 = g.A0.interval(f)
            if lo > l0:
                add(('ge', f - lo))
            if hi < h0:
                add(('ge', -f + hi))
            for t in (8, 16, 32):
                m = (1 << t) - 1
                if hi <= m < h0:
                    add(('ge', -f + m))
                    break
        consts = self.anchors(g)
        # what the path has learned about the values from before
        for c in consts:
            iv = [s.interval(s.norm(c)) for s in ss]
            l0, h0 = g.A0.interval(c)
            lo, hi = min(v[0] for v in iv), max(v[1] for v in iv)
            if lo > l0:
                add(('ge', c - lo))
            if hi < h0:
                add(('ge', -c + hi))
        # affine equalities
        for i in range(len(exprs)):
            f, kf = exprs[i]
            for j in range(i + 1, len(exprs)):
                h, kh = exprs[j]
                d = [s.norm(x - y) for s, x, y in zip(ss, kf, kh)]
                if all(x is d[0] for x in d) and n > 1:
                    add(('eq', f - h - d[0]))
                    continue
                e = [s.norm(x + y) for s, x, y in zip(ss, kf, kh)]
                if all(x is e[0] for x in e) and n > 1:
                    add(('eq', f + h - e[0]))
                    continue
                r = self.ratio(ss, kf, kh)
                if r is not None:
                    k, c = r
                    add(('eq', f - h * k - c))
                    continue
                r = self.ratio(ss, kh, kf)
                if r is not None:
                    k, c = r
                    add(('eq', h - f * k - c))
        # order relations
        if len(exprs) <= 14:
            for i in range(len(exprs)):
                f, kf = exprs[i]
                for j in range(len(exprs)):
                    if i != j:
                        h, kh = exprs[j]
                        if all(s.decide(ge(y - x)) is True for s, x, y in zip(ss, kf, kh)):
                            add(('ge', h - f))
                for c in consts:
                    if all(s.decide(ge(c - x)) is True for s, x in zip(ss, kf)):
                        add(('ge', c - f))
                        if all(s.decide(ge(c - x - 1)) is True for s, x in zip(ss, kf)):
                            add(('ge', c - f - 1))
        if getattr(self.I.hook, 'moves', False):
            out += self.moved(g)
        for x in (self.I.hook.candidates(self.I, self, g) if self.I.hook is not None and hasattr(self.I.hook, 'candidates') else []):
            add(x)
        return out

    def moved(self, g):
        """cells that differ from what was there before"""
        out = []
        before = []
        for k in self.changed:
            v = self.E.mem.get(k)
            if isinstance(v, tuple) and v and v[0] == 'vec':
                before += [self.E.norm(x[2]) for x in v[1] if x[0] == 'S']
        before = [c for c in Fix.anchors(self, g) + list(dict.fromkeys(before)) if c.t]
        for a, (key, place) in g.cells.items():
            if a.kind == 'data' and a.w != 64:
                continue
            for c in before:
                if c in key:
                    continue
                if all(s.decide(ge(x - c - 1)) is True for s, x in zip(g.samples, key)):
                    out.append(('ge', av(a) - c - 1))
                elif all(s.decide(ge(c - x - 1)) is True for s, x in zip(g.samples, key)):
                    out.append(('ge', c - av(a) - 1))
        return out

    def anchors(self, g):
        """entry values that may bound the cells"""
        out = []
        E = self.E
        for k, v in E.mem.items():
            if k[0] == 'l' and k[1] < self.fr.d - 1:
                continue
            stack = [v]
            while stack:
                x = stack.pop()
                if isinstance(x, Form):
                    x = E.norm(x)
                    if x.t and x not in out:
                        out.append(x)
                elif isinstance(x, tuple) and x:
                    if x[0] == 'slice':
                        stack += [x[3] + x[4], x[4]]
                    elif x[0] == 'iter' and x[1] == 'slice':
                        stack += [x[5]]
                    elif x[0] == 'vec':
                        stack += [slen(x[1])]
                    elif x[0] in ('agg',):
                        stack += list(x[1])
                    elif x[0] == 'enum':
                        stack += list(x[2])
        return out[:12]

    def virt_values(self, g, f):
        key = []
        for i, s in enumerate(g.samples):
            mp = {a: k[0][i] for a, k in g.cells.items()}
            hv = {b: sufs[i] for sufs, b in g.hv.items()}
            try:
                key.append(s.norm(subst(s, f, mp, hv)))
            except Fork:
                return None
        return tuple(key)

    def holds(self, g, c):
        """does a candidate hold in every sample"""
        key = self.virt_values(g, c[1])
        return key is not None and all(s.decide((c[0], k)) is True for s, k in zip(g.samples, key))

    def ratio(self, ss, kx, ky):
        """integers k, c with x = k*y + c in every sample"""
        k = c = None
        for s, x, y in zip(ss, kx, ky):
            if y.t:
                a, m = y.t[0]
                cx = dict(x.t).get(a)
                if cx is None or cx % m:
                    return None
                kk = cx // m
                d = s.norm(x - y * kk)
                if d.t:
                    return None
                if k is None:
                    k, c = kk, d.c
                elif (k, c) != (kk, d.c):
                    return None
        if k is None:
            pts = sorted({(y.c, x.c) for x, y in zip(kx, ky) if not x.t and not y.t})
            if len(pts) < 3 or len(pts) != len({p[0] for p in pts}):
                return None
            (y0, x0), (y1, x1) = pts[:2]
            if (x1 - x0) % (y1 - y0):
                return None
            k = (x1 - x0) // (y1 - y0)
            c = x0 - k * y0
        for s, x, y in zip(ss, kx, ky):
            d = s.norm(x - y * k - c)
            if d.t or d.c:
                return None
        if abs(k) > 1 << 64:
            return None
        return k, c

    # ------------------------------------------------------------ termination
    def terminates(self, groups):
        """every cycle of the final transition graph must make progress"""
        edges = []
        for g in groups.values():
            for b in g.backs:
                edges.append((g, groups[self.key(b)], b))
        lv = {id(g): self.leaves(g.A, self.changed) for g in groups.values()}
        lb = [self.leaves(b, self.changed) for _, _, b in edges]
        alive = list(range(len(edges)))
        while alive:
            comp = scc([(id(edges[i][0]), id(edges[i][1])) for i in alive])
            alive = [i for i in alive if comp[id(edges[i][0])] == comp[id(edges[i][1])]]
            if not alive:
                return
            done = set()
            groups_of = {}
            for i in alive:
                groups_of.setdefault(comp[id(edges[i][0])], []).append(i)
            for c, es in groups_of.items():
                places = None
                for i in es:
                    ps = {p for p, x in lb[i].items() if measure(x) is not None and measure(lv[id(edges[i][0])].get(p)) is not None}
                    places = ps if places is None else places & ps
                best = set()
                for p in places or ():
                    for sign in (1, -1):
                        strict = set()
                        ok_ = True
                        for i in es:
                            g, t, b = edges[i]
                            d = (measure(lb[i][p]) - measure(lv[id(g)][p])) * sign
                            if b.decide(ge(d - 1)) is True:
                                strict.add(i)
                            elif b.decide(ge(d)) is not True:
                                ok_ = False
                                break
                        if ok_ and len(strict) > len(best):
                            best = strict
                if not best:
                    if DBG or os.environ.get('VP_NT'):
                        for i in es:
                            g, t, b = edges[i]
                            print('NOPROGRESS', self.name, [(short(p), b.norm(measure(lb[i][p]) - measure(lv[id(g)][p])), b.interval(b.norm(measure(lb[i][p]) - measure(lv[id(g)][p])))) for p in places], file=sys.stderr)
                    self.I.nonterm.append((self.name, self.fr.chain))
                    return
                done |= best
            alive = [i for i in alive if i not in done]


class Join(Fix):
    """states returned by one call, joined per partition with the relations that hold in all of them"""
    asker = 'joindemote'

    def __init__(self, I, fr, E, states, name):
        self.I, self.fr, self.loop, self.name = I, fr, None, name
        self.E = E
        self.demoted = set()
        self.consts = {}
        self.modes = {}
        self.mycells = set()
        self.pool = self.prep(states)

    def partition(self, pool):
        self.pool = pool
        self.demoted = set()
        self.modes = {}
        self.setup()
        groups = {}
        for s in pool:
            groups.setdefault(self.key(s), []).append(s)
        return groups

    def anchors(self, g):
        """also what all the joined states have in common"""
        out = Fix.anchors(self, g)
        for k in self.changed:
            for p, x in self.leaves(g.A0, [k]).items():
                if x[0] == 'i' and x[1].t:
                    s = set()
                    form_atoms(x[1], s)
                    if not s & self.mycells and x[1] not in out:
                        out.append(x[1])
        return out

    def join(self):
        I = self.I
        if not self.pool:
            return []
        out = []
        least = I.hook.joins
        for ss in list(self.partition(self.pool).values()):
            if len(ss) < least:
                out += ss
                continue
            for k, ss2 in self.partition(ss).items():
                if len(ss2) < least:
                    out += ss2
                    continue
                g = Group()
                g.key, g.samples, g.dropped, g.vsets = k, ss2, set(), {}
                try:
                    self.generalise(g)
                    r = 'inv'
                    while r == 'inv':
                        for b in ss2:
                            r = self.cover(g, b)
                            if r is not True:
                                break
                except Unsupported:
                    r = None
                if r is True:
                    I.joined = getattr(I, 'joined', 0) + len(ss2)
                    out.append(g.A)
                else:
                    if DBG:
                        print('%sno join at %s' % ('  ' * I.nesting, self.name), file=sys.stderr)
                    out += ss2
        return out


def join_returns(I, fr, E, res):
    """join what a call returned; E is the state before the call"""
    if E is None or len(res) < I.hook.joins or not I.hook.wantjoin(I, E):
        return res
    R = ('l', fr.d, 0)
    states = []
    for s, v in res:
        s.mem[R] = v
        for t, r in forked(I, s, lambda t: I.hook.sync_return(I, t)):
            if r is not True:
                for s, v in res:
                    s.mem.pop(R, None)
                return res
            states.append(t)
    J = Join(I, fr, E, states, 'return of %s' % fr.fn.path)
    out = []
    for s in J.join():
        if R not in s.mem:
            raise Unsupported('join lost the result of %s' % fr.fn.path)
        out.append((s, s.mem.pop(R)))
    return out


def seqs_equal(I, st, x, y, ety):
    """are two sequences certainly equal (never forks)"""
    if x == y:
        return True
    from .ghost import seq_same
    try:
        t = st.copy()
        return seq_same(I, t, x, y, ety) and not t.dead
    except (Fork, Unsupported):
        return False


def measure(x):
    if x is None:
        return None
    if x[0] == 'i':
        return x[1]
    if x[0] == 'q':
        return slen(x[1])
    return None


def scc(edges):
    adj = {}
    nodes = set()
    for a, b in edges:
        adj.setdefault(a, set()).add(b)
        nodes |= {a, b}
    # reachability is enough at this size
    reach = {}
    for n in nodes:
        seen = set()
        st = [n]
        while st:
            x = st.pop()
            for y in adj.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        reach[n] = seen
    comp = {}
    for n in nodes:
        comp[n] = min([m for m in reach[n] if n in reach[m]] + [n]) if n in reach[n] else ('single', n)
    return comp


def suffix(q, pre):
    """q without the prefix pre (None when it is not a prefix)"""
    i = 0
    for s in pre:
        if i >= len(q):
            return None
        if q[i] == s:
            i += 1
            continue
        if s[0] == 'L' and q[i][0] == 'L' and q[i][1][:len(s[1])] == s[1] and s is pre[-1]:
            return (('L', q[i][1][len(s[1]):]),) + tuple(q[i + 1:])
        return None
    return tuple(q[i:])


def seqshape(q):
    out = []
    for s in q:
        if s[0] == 'L':
            out.append(('L', len(s[1])))
        elif s[0] == 'S':
            out.append(('S', s[1]))
        else:
            out.append(('R',))
    return tuple(out)


def pathshape(p):
    return tuple(e if e[0] != 'idx' else 'idx' for e in p)


def subst(st, f, mp, hv=None):
    """simultaneous replacement of cell atoms in a form"""
    d = {}
    c = f.c
    for a, k in f.t:
        b = a.base if a.base is not None else a
        if b in mp:
            v = mp[b]
            if a.base is not None:
                v = st.frombits(st.cut(st.bits(v, b.w), a.off, a.w))
        elif hv and isinstance(b.name, tuple) and b.name[0] == 'wsum' and b.name[1] in hv:
            v = weight(st, split(st, hv[b.name[1]], subst(st, b.name[2], mp, hv))[0])
        elif b.deps:
            n2 = map_name(b.name, lambda x: st.norm(subst(st, x, mp, hv)))
            n2 = resolve_name(n2)
            if isinstance(n2, Form):
                v = n2
            else:
                v = av(atom(n2, b.w, b.lo, b.hi, b.kind))
            if a.base is not None:
                v = st.frombits(st.cut(st.bits(v, b.w), a.off, a.w))
        else:
            d[a] = d.get(a, 0) + k
            continue
        c += v.c * k
        for x, j in v.t:
            d[x] = d.get(x, 0) + j * k
    return st.norm(mk(c, d))


def weight(st, segs):
    """sum over a sequence of entries of (length of field 0 + length of field 1 + 32)"""
    f = ZERO
    for s in segs:
        if s[0] == 'S':
            f = f + W(st, s[1], s[2] + s[3]) - W(st, s[1], s[2])
        elif s[0] == 'L':
            for v in s[1]:
                f = f + elweight(v)
        else:
            f = f + st.norm(s[2]) * 0
            raise Unsupported('weight of a repeated entry')
    return st.norm(f)


def elweight(v):
    f = const(32)
    for x in v[1][:2]:
        f = f + slen(x[1])
    return f


def short(p):
    s = str(p)
    return s if len(s) < 160 else s[:160] + '..'


def fmtinv(g):
    return '; '.join('%r in a set of %d' % (c[1][0], len(c[2])) if c[0] == 'tabc' else '%r %s 0' % (c[1], '=' if c[0] == 'eq' else '>=') for c in g.inv)[:300]
