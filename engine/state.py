"""Abstract state: memory of symbolic values plus a conjunction of numeric and boolean facts."""
from .terms import *
from math import gcd
import json


class Fork(Exception):
    """the current step needs a case split; alts: list of lists of conditions"""
    def __init__(self, alts):
        self.alts = alts


class Unsupported(Exception):
    pass


class Panic(Exception):
    def __init__(self, kind, detail=''):
        self.kind = kind
        self.detail = detail


# ------------------------------------------------------------------ conditions
def ge(f):
    return ('ge', f)


def lt(f):
    return ('ge', -f - 1)


def eq(f):
    return ('eq', f)


def ne(f):
    return ('ne', f)


def neg(c):
    if c is True:
        return False
    if c is False:
        return True
    k = c[0]
    if k == 'ge':
        return ('ge', -c[1] - 1)
    if k == 'eq':
        return ('ne', c[1])
    if k == 'ne':
        return ('eq', c[1])
    if k == 'is':
        return ('isnot', c[1], c[2])
    if k == 'isnot':
        return ('is', c[1], c[2])
    raise Unsupported('neg %r' % (c,))


HOLDS = {'ge': lambda v: v >= 0, 'eq': lambda v: v == 0, 'ne': lambda v: v != 0}
TABS = []            # contents of constant tables
TABPAIRS = []        # (content, type, content id)
TABKEY = {}


def tabid(js, t):
    """(typed table, content id) of a constant"""
    k = (id(js), t)
    i = TABKEY.get(k)
    if i is not None and TABPAIRS[i][0] is js:
        return i
    c = json.dumps(js)
    n = TABKEY.get(c)
    if n is None:
        n = TABKEY[c] = len(TABS)
        TABS.append(js)
    i = TABKEY.get((c, t))
    if i is None:
        i = TABKEY[(c, t)] = len(TABPAIRS)
        TABPAIRS.append((js, t, n))
    TABKEY[k] = i
    KEEP.append(js)
    return i


KEEP = []


def tabatom(tid, path, w):
    return atom(('tabv', tid, path), w, 0, (1 << w) - 1, 'tab')


_depth = {}


def tabdepth(n):
    """nesting of table atoms in a structured name"""
    if isinstance(n, Form):
        r = 0
        for a, k in n.t:
            b = a.base if a.base is not None else a
            d = _depth.get(b)
            if d is None:
                d = _depth[b] = (1 if b.kind == 'tab' else 0) + tabdepth(b.name)
            r = max(r, d)
        return r
    if isinstance(n, tuple):
        return max([tabdepth(x) for x in n if isinstance(x, (tuple, Form))] + [0])
    return 0


def istab(f):
    for a, k in f.t:
        if a.kind == 'tab':
            return True
    return False


def step_json(js, p):
    if isinstance(p, tuple):      # ('v', variant, field)
        return js['f'][p[2]] if js['v'] == p[1] else None
    if isinstance(js, dict) and 'f' in js:
        return js['f'][p]
    return js[p]


def tab_at(js, path, forms, t):
    for p in path:
        js = step_json(js, t[forms.index(p)] if isinstance(p, Form) else p)
        if js is None:
            return None
    return js


def tab_paths(js, path, forms, sets):
    """index tuples at which the table has an element"""
    last = max(i for i, p in enumerate(path) if isinstance(p, Form))
    n = len(forms)
    out = []

    def rec(js, i, asg):
        if i > last:
            out.append(tuple(asg))
            return
        p = path[i]
        if isinstance(p, Form):
            j = forms.index(p)
            for v in (sets[j] if asg[j] is None else (asg[j],)):
                if 0 <= v < len(js):
                    b = list(asg)
                    b[j] = v
                    rec(js[v], i + 1, b)
        elif isinstance(p, tuple):
            if js.get('v') == p[1]:
                rec(js['f'][p[2]], i + 1, asg)
        else:
            rec(step_json(js, p), i + 1, asg)
    rec(js, 0, [None] * n)
    return out


STATS = {'simplex': 0, 'forks': 0}


class St:
    LOW = False          # solve equations for the varying part of a loop cell
    __slots__ = ('mem', 'sub', 'part', 'iv', 'ges', 'nes', 'bl', 'gh', 'ev', 'nf', 'nc', 'trail', 'dead')

    def __init__(self):
        self.mem = {}
        self.sub = {}       # atom -> Form
        self.part = {}      # base atom -> tuple of (off, w, Form or None)
        self.iv = {}        # atom -> (lo, hi)
        self.ges = ()       # forms >= 0
        self.nes = ()       # forms != 0
        self.bl = {}        # key -> value (decided opaque predicates and variants)
        self.gh = {}        # ghost values
        self.ev = ()        # events
        self.nf = 0
        self.nc = {}
        self.trail = ()
        self.dead = False

    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.sub = self.sub
        s.part = self.part
        s.iv = self.iv
        s.ges = self.ges
        s.nes = self.nes
        s.bl = self.bl
        s.gh = dict(self.gh)
        s.ev = self.ev
        s.nf = self.nf
        s.nc = self.nc
        s.trail = self.trail
        s.dead = self.dead
        return s

    # -------------------------------------------------------------- normal forms
    def norm(self, f):
        if not f.t:
            return f
        nc = self.nc
        r = nc.get(f)
        if r is not None:
            return r
        same = True
        outs = []
        for a, k in f.t:
            n = self.natom(a)
            if n is None:
                outs.append(((a, k),))
            else:
                same = False
                outs.append((n, k))
        if same:
            r = f
        else:
            d = {}
            c = f.c
            for o in outs:
                if len(o) == 1:
                    a, k = o[0]
                    d[a] = d.get(a, 0) + k
                else:
                    g, k = o
                    c += g.c * k
                    for a, j in g.t:
                        d[a] = d.get(a, 0) + j * k
            r = mk(c, d)
            if r is not f:
                r = self.norm(r)
        nc[f] = r
        return r

    def natom(self, a):
        """None when the atom is already normal, else its form"""
        r = self.nc.get(a, 0)
        if r != 0:
            return r
        r = self._natom(a)
        self.nc[a] = r
        return r

    def _natom(self, a):
        b = a.base
        if a.kind == 'tab':
            t = a if b is None else b
            path, forms, c = self.tabcand(t.name[1], t.name[2])
            js = TABS[t.name[1]]
            v0 = None
            for x in c:
                v = tab_at(js, path, forms, x)
                if v is None:
                    continue
                if b is not None:
                    v = (v >> a.off) & ((1 << a.w) - 1)
                if v0 is None:
                    v0 = v
                elif v != v0:
                    break
            else:
                if v0 is not None:
                    return const(v0)
            if path != t.name[2]:
                n = tabatom(t.name[1], path, t.w)
                return av(n if b is None else slc(n, a.off, a.w))
            return None
        if b is None:
            s = self.sub.get(a)
            if s is not None:
                return self.norm(s)
            if a.deps:
                n2 = map_name(a.name, self.norm)
                n2 = resolve_name(n2)
                if isinstance(n2, Form):
                    return self.norm(n2)
                if n2 != a.name:
                    a2 = atom(n2, a.w, a.lo, a.hi, a.kind)
                    if a in self.iv and a2 not in self.iv:
                        self.iv = dict(self.iv)
                        self.iv[a2] = self.iv[a]
                    r = self.natom(a2)
                    return av(a2) if r is None else r
            if a in self.part:
                return self._expand(a, 0, a.w)
            return None
        # slice
        s = self.sub.get(a)
        if s is not None:
            return self.norm(s)
        s = self.natom(b)
        if s is not None and b not in self.part:
            if not s.t:
                return const((s.c >> a.off) & ((1 << a.w) - 1))
            if len(s.t) == 1 and s.c == 0 and s.t[0][1] == 1 and s.t[0][0].base is None:
                a2 = slc(s.t[0][0], a.off, a.w)
                r = self.natom(a2)
                return av(a2) if r is None else r
            return self.frombits(self.cut(self.bits(s, b.w), a.off, a.w))
        if b in self.part:
            return self._expand(b, a.off, a.w)
        return None

    def _expand(self, b, off, w):
        d = {}
        c = 0
        for o, sw, f in self.part[b]:
            lo = max(o, off)
            hi = min(o + sw, off + w)
            if lo >= hi:
                continue
            if f is None:
                g = av(slc(b, lo, hi - lo))
                n = self.sub.get(g.t[0][0])
                if n is not None:
                    g = self.norm(n)
            elif not f.t:
                g = const((f.c >> (lo - o)) & ((1 << (hi - lo)) - 1))
            else:
                f = self.norm(f)
                g = f if (lo == o and hi == o + sw) else self.frombits(self.cut(self.bits(f, sw), lo - o, hi - lo))
            k = 1 << (lo - off)
            c += g.c * k
            for a, j in g.t:
                d[a] = d.get(a, 0) + j * k
        r = mk(c, d)
        if w == b.w and off == 0:
            if len(r.t) == 1 and r.c == 0 and r.t[0] == (b, 1):
                return None
        elif len(r.t) == 1 and r.c == 0 and r.t[0][1] == 1 and r.t[0][0].base is b and r.t[0][0].off == off and r.t[0][0].w == w:
            return None
        return r

    def bound(self, a):
        if a.kind == 'tab':
            x = self.nc.get('tb')
            if x is None or x[0] is not self.iv:
                x = (self.iv, {})
                self.nc['tb'] = x
            r = x[1].get(a)
            if r is None:
                x[1][a] = (a.lo, a.hi)
                vals = self.tabvals(a)[1].values()
                r = x[1][a] = (min(vals), max(vals)) if vals else (a.lo, a.hi)
            return r
        r = self.iv.get(a)
        if r is None:
            r = (a.lo, a.hi)
        x = self.nc.get('ivx')
        if x is None or x[0] is not self.iv:
            ix = {}
            for b, v in self.iv.items():
                if b.base is not None:
                    ix.setdefault(b.base, []).append((b.off, b.off + b.w, v))
                elif b.w <= 64:
                    ix.setdefault(b, []).append((0, b.w, v))
            x = (self.iv, ix)
            self.nc['ivx'] = x
        fs = x[1].get(a.base if a.base is not None else a)
        if fs is None:
            return r
        lo, hi = r
        p, q = a.off, a.off + a.w
        for o, e, v in fs:
            if o >= p and e <= q:
                # a field of a
                d = o - p
                if v[0] << d > lo:
                    lo = v[0] << d
                if e == q and (v[1] << d) + (1 << d) - 1 < hi:
                    hi = (v[1] << d) + (1 << d) - 1
            elif o <= p and e == q:
                # a is the upper part of a field
                d = p - o
                if v[0] >> d > lo:
                    lo = v[0] >> d
                if v[1] >> d < hi:
                    hi = v[1] >> d
        return (lo, hi)

    def interval(self, f):
        lo = hi = f.c
        for a, k in f.t:
            l, h = self.bound(a)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        return lo, hi

    # -------------------------------------------------------------- bits
    def bits(self, f, W):
        """segments (width, kind, payload) from the least significant bit, kinds c/a/n"""
        f = self.norm(f)
        if not f.t:
            return [(W, 'c', f.c & ((1 << W) - 1))]
        r = self._bits(f, W)
        if r is None:
            g = self.name_form(f, W)
            r = self._bits(g, W)
            if r is None:
                raise Unsupported('bits of %r' % f)
        return r

    def _bits(self, f, W):
        c = f.c
        items = []
        for a, k in f.t:
            s = abs(k)
            if s & (s - 1):
                return None
            e = s.bit_length() - 1
            w = min(a.w, self.bound(a)[1].bit_length())
            if w == 0:
                continue
            if k < 0:
                c -= s * ((1 << w) - 1)
            at = a if w == a.w else slc(a, 0, w)
            items.append((e, w, 'a' if k > 0 else 'n', at))
        if c < 0:
            return None
        items.sort(key=lambda x: x[0])
        segs = []
        pos = 0
        for e, w, kd, at in items:
            if e < pos:
                return None
            if (c >> e) & ((1 << w) - 1):
                return None
            if e > pos:
                segs.append((e - pos, 'c', (c >> pos) & ((1 << (e - pos)) - 1)))
            segs.append((w, kd, at))
            pos = e + w
        if pos > W:
            return None
        if c >> pos and (c >> pos) >= (1 << (W - pos)):
            return None
        if pos < W:
            segs.append((W - pos, 'c', c >> pos))
        return segs

    def name_form(self, f, W):
        """an atom standing for f (0 <= f < 2^W is the caller's invariant)"""
        lo, hi = self.interval(f)
        n = atom(('val', f, W), W, 0, (1 << W) - 1)
        # keep the definition: solve for one unit atom of f when there is one
        best = None
        for a, k in f.t:
            if abs(k) == 1 and a.base is None and a not in self.sub and a not in self.part and a.kind == 'data':
                if not any(a in _fa(d) for b, _ in f.t if b is not a for d in b.deps):
                    best = (a, k)
        lo = max(lo, 0)
        hi = min(hi, (1 << W) - 1)
        if best and best[0].name[0] != 'val':
            a, k = best
            rest = f - av(a) * k
            # av(n) = k*a + rest  ->  a = k*(av(n) - rest)
            # the atom must not mention itself: n's name contains a, so freeze it under an opaque id
            n = atom(('nv', len(NAMED) if f not in NAMED else NAMED[f], W), W, 0, (1 << W) - 1)
            NAMED.setdefault(f, int(n.name[1]))
            l, h = self.bound(a)
            self.set_sub(a, (av(n) - rest) * k)
            self.iv = dict(self.iv)
            self.iv[n] = (lo, hi)
            g = self.norm(av(a)) if False else (av(n) - rest) * k
            self.add_ge(g - l)
            self.add_ge(-g + h)
            self.known_bits(n)
            return self.norm(av(n))
        n = atom(('nv', NAMED.setdefault(f, len(NAMED)), W), W, 0, (1 << W) - 1)
        self.iv = dict(self.iv)
        if n not in self.iv:
            self.iv[n] = (lo, hi)
            self.add_ge(av(n) - f)
            self.add_ge(f - av(n))
            self.known_bits(n)
        return self.norm(av(n))

    def cut(self, segs, off, w):
        out = []
        p = 0
        for sw, k, x in segs:
            lo = max(p, off)
            hi = min(p + sw, off + w)
            if lo < hi:
                if k == 'c':
                    out.append((hi - lo, 'c', (x >> (lo - p)) & ((1 << (hi - lo)) - 1)))
                else:
                    out.append((hi - lo, k, slc(x, lo - p, hi - lo)))
            p += sw
        t = sum(x[0] for x in out)
        if t < w:
            out.append((w - t, 'c', 0))
        return out

    def frombits(self, segs):
        c = 0
        d = {}
        p = 0
        for w, k, x in segs:
            if k == 'c':
                c += x << p
            elif k == 'a':
                d[x] = d.get(x, 0) + (1 << p)
            else:
                c += ((1 << w) - 1) << p
                d[x] = d.get(x, 0) - (1 << p)
            p += w
        return self.norm(mk(c, d))

    # -------------------------------------------------------------- facts
    def _chg(self):
        self.nc = {}

    def set_sub(self, a, f):
        self.sub = dict(self.sub)
        self.sub[a] = f
        self._chg()
        # interval facts about bit fields of a carry over to what a stands for
        for s in [s for s in self.iv if s.base is a]:
            lo, hi = self.iv[s]
            g = self.norm(av(s))
            if len(g.t) == 1 and g.t[0] == (s, 1) and g.c == 0:
                continue
            if lo > 0 and not self.add_ge(g - lo):
                self.dead = True
            if hi < (1 << s.w) - 1 and not self.add_ge(-g + hi):
                self.dead = True

    def set_part(self, b, off, w, f):
        """bits off..off+w of base b are f"""
        cur = self.part.get(b) or ((0, b.w, None),)
        out = []
        for o, sw, g in cur:
            lo = max(o, off)
            hi = min(o + sw, off + w)
            if lo >= hi:
                out.append((o, sw, g))
                continue
            if o < lo:
                out.append((o, lo - o, _subform(self, g, sw, 0, lo - o)))
            if g is None:
                out.append((lo, hi - lo, const((f.c >> (lo - off)) & ((1 << (hi - lo)) - 1)) if not f.t
                            else (f if (lo == off and hi == off + w) else self.frombits(self.cut(self.bits(f, w), lo - off, hi - lo)))))
            else:
                out.append((lo, hi - lo, _subform(self, g, sw, lo - o, hi - lo)))
            if hi < o + sw:
                out.append((hi, o + sw - hi, _subform(self, g, sw, hi - o, o + sw - hi)))
        old = self.part.get(b)
        new = tuple(out)
        if new == old:
            return
        self.part = dict(self.part)
        self.part[b] = new
        self._chg()
        # interval facts about fields of b that are no longer atomic live on as inequalities
        for a in [a for a in self.iv if (a.base is b or a is b) and not (a.off >= off and a.off + a.w <= off + w)
                  and a.off < off + w and off < a.off + a.w]:
            lo, hi = self.iv[a]
            g = self.norm(av(a))
            if len(g.t) == 1 and g.t[0] == (a, 1) and g.c == 0:
                continue
            if lo > 0 and not self.add_ge(g - lo):
                self.dead = True
            if hi < (1 << a.w) - 1 and not self.add_ge(-g + hi):
                self.dead = True

    def known_bits(self, a):
        """propagate the common leading bits of the interval of a"""
        if a.kind == 'len' or a.w > 64:
            lo, hi = self.bound(a)
            if lo == hi and a.base is None and a not in self.sub:
                self.set_sub(a, const(lo))
            return
        lo, hi = self.bound(a)
        k = (lo ^ hi).bit_length()
        if k < a.w:
            b = a.base if a.base is not None else a
            self.set_part(b, a.off + k, a.w - k, const(lo >> k))
            if k > 0:
                s = slc(b, a.off, k)
                m = (1 << k) - 1
                l2, h2 = self.bound(s)
                nl, nh = max(l2, lo & m), min(h2, hi & m)
                if (nl, nh) != (l2, h2):
                    self.iv = dict(self.iv)
                    self.iv[s] = (nl, nh)

    def tighten(self, a, lo, hi):
        """returns False when empty"""
        l, h = self.bound(a)
        nl = l if lo is None or lo < l else lo
        nh = h if hi is None or hi > h else hi
        if nl > nh:
            return False
        if a.kind == 'tab':
            if (nl, nh) != (l, h):
                forms, vals = self.tabvals(a)
                return self.tab_assume(forms, frozenset(t for t, v in vals.items() if nl <= v <= nh))
            return True
        if (nl, nh) != (l, h):
            self.iv = dict(self.iv)
            self.iv[a] = (nl, nh)
            self.known_bits(a)
        return True

    def add_ge(self, f):
        """assume f >= 0; False when infeasible (cheap checks)"""
        f = self.norm(f)
        lo, hi = self.interval(f)
        if hi < 0:
            return False
        if lo >= 0:
            return True
        if len(f.t) == 1:
            a, k = f.t[0]
            if k > 0:
                return self.tighten(a, -(f.c // k), None)
            return self.tighten(a, None, f.c // -k)
        g = 0
        for a, k in f.t:
            g = gcd(g, k)
        if g > 1:
            f = mk(f.c // g, {a: k // g for a, k in f.t})
        if f in self.ges:
            return True
        self.ges = self.ges + (f,)
        for a, k in f.t:
            l, h = self.bound(a)
            rest = hi_of(self, f, a)
            if k > 0:
                b = -(rest // k)      # k*a >= -rest
                if b > l and not self.tighten(a, b, None):
                    return False
            else:
                b = rest // -k
                if b < h and not self.tighten(a, None, b):
                    return False
        return True

    def component(self, fs):
        """facts connected to the atoms of fs"""
        x = self.nc.get('comp')
        if x is None or x[0] is not self.ges:
            x = (self.ges,) + self._components()
            self.nc['comp'] = x
        if x[1] is None:
            return None
        of, comps = x[1], x[2]
        ks = {of[a] for f in fs for a, k in f.t if a in of}
        if len(ks) == 1:
            return comps[ks.pop()]
        return [f for k in sorted(ks) for f in comps[k]]

    def _components(self):
        of = {}
        comps = {}
        for n, f in enumerate(self.ges):
            f = self.norm(f)
            if not f.t:
                if f.c < 0:
                    return None, None
                continue
            ks = sorted({of[a] for a, k in f.t if a in of})
            t = ks[0] if ks else n
            c = comps.setdefault(t, [])
            for k in ks[1:]:
                c.extend(comps.pop(k))
            c.append(f)
            if len(ks) > 1:
                m = set(ks)
                for a, k in of.items():
                    if k in m:
                        of[a] = t
            for a, k in f.t:
                of[a] = t
        return of, comps

    def infeasible_with(self, fs):
        comp = self.component(fs)
        if comp is None:
            return True
        if not comp and len(fs) == 1:
            return self.interval(fs[0])[1] < 0
        STATS['simplex'] += 1
        ax = []
        seen = set()
        for f in fs + comp:
            for a, k in f.t:
                if a not in seen:
                    seen.add(a)
                    ax.extend(AXIOMS(self, a))
        return infeasible(fs + comp + ax, self.bound)

    def decide(self, c):
        """True / False / None"""
        if c is True or c is False:
            return c
        k = c[0]
        if k == 'tabc':
            return self.tab_decide(c[1], c[2])
        if k in ('is', 'isnot'):
            v = self.lookup(c[1])
            if v is None:
                return None
            return (v == c[2]) == (k == 'is')
        f = self.norm(c[1])
        if istab(f):
            r = self.tabeval(f)
            if r is not None:
                h = [HOLDS[k](v) for v in r[1].values()]
                if all(h):
                    return True
                if not any(h):
                    return False
                return None
        if k == 'ge':
            lo, hi = self.interval(f)
            if lo >= 0:
                return True
            if hi < 0:
                return False
            if len(f.t) == 1 and not self.ges:
                return None
            if self.infeasible_with([-f - 1]):
                return True
            if self.infeasible_with([f]):
                return False
            return None
        r = self._deq(f)
        if r is None or k == 'eq':
            return r
        return not r

    def _deq(self, f):
        if not f.t:
            return f.c == 0
        lo, hi = self.interval(f)
        if lo > 0 or hi < 0:
            return False
        g = 0
        for a, k in f.t:
            g = gcd(g, k)
        if f.c % g:
            return False
        for n in self.nes:
            n = self.norm(n)
            if n is f or n is -f:
                return False
        if len(f.t) == 1 and (f.t[0][0].base is not None or not self.ges):
            return None
        if not self.ges:
            return None
        if self.infeasible_with([f]) or self.infeasible_with([-f]):
            return False
        if self.infeasible_with([f - 1]) and self.infeasible_with([-f - 1]):
            return True
        return None

    def lookup(self, key):
        if not key_deps(key):
            return self.bl.get(key)
        k = map_name(key, self.norm)
        v = self.bl.get(k)
        if v is not None:
            return v
        rb = self.nc.get('bl')
        if rb is None:
            rb = {}
            for q, x in self.bl.items():
                if key_deps(q):
                    rb[map_name(q, self.norm)] = x
            self.nc['bl'] = rb
        return rb.get(k)

    def setkey(self, key, v):
        k = map_name(key, self.norm)
        self.bl = dict(self.bl)
        self.bl[k] = v
        if key_deps(k):
            self._chg()

    def assume(self, c):
        """add a condition; False when it is infeasible"""
        d = self.decide(c)
        if d is True:
            return True
        if d is False:
            self.dead = True
            return False
        k = c[0]
        if k == 'tabc':
            ok = self.tab_assume(c[1], c[2])
        elif k in HOLDS and istab(self.norm(c[1])) and self.tabeval(self.norm(c[1])) is not None:
            forms, val = self.tabeval(self.norm(c[1]))
            ok = self.tab_assume(forms, frozenset(x for x, v in val.items() if HOLDS[k](v)))
        elif k == 'is':
            self.setkey(c[1], c[2])
            ok = True
        elif k == 'isnot':
            if isinstance(c[2], bool):
                self.setkey(c[1], not c[2])
            ok = True
        elif k == 'ge':
            ok = self.add_ge(c[1])
            if ok:
                f = self.norm(c[1])
                # f >= 0 and f != 0
                for n in self.nes:
                    n = self.norm(n)
                    if n is f or n is -f:
                        ok = self.add_ge(f - 1)
        elif k == 'eq':
            ok = self.add_eq(self.norm(c[1]))
        else:
            ok = self.add_ne(self.norm(c[1]))
        if not ok:
            self.dead = True
        return ok

    # -------------------------------------------------------------- table values
    # An atom ('tabv', tid, path) is the leaf of a constant table at a path with symbolic indexes; the
    # possible index tuples are kept as a finite set per tuple of index forms.
    def tabix(self):
        x = self.nc.get('tbx')
        if x is None:
            x = {}
            nc = self.nc
            nc['tbx'] = x       # shallow entries serve the normalisation of deeper ones
            ks = [(tabdepth(q[1]), q, s) for q, s in self.bl.items() if isinstance(q, tuple) and q and q[0] == 'tabc']
            if ks:
                ks.sort(key=lambda e: e[0])
                for _, q, s in ks:
                    fs = tuple([self.norm(f) for f in q[1]])
                    keep = [i for i, f in enumerate(fs) if f.t]
                    if len(keep) < len(fs):
                        s = frozenset(tuple([t[i] for i in keep]) for t in s if all(fs[i].t or fs[i].c == t[i] for i in range(len(fs))))
                        fs = tuple([fs[i] for i in keep])
                    if not fs:
                        continue
                    x[fs] = x[fs] & s if fs in x else s
                for k in ('tbf', 'tev', 'tb'):
                    nc.pop(k, None)
        return x

    def tabc(self, forms):
        """known index tuples for normal, non-constant forms (or None)"""
        x = self.nc.get('tbf')
        if x is None or x[0] is not self.iv:
            x = (self.iv, {})
            self.nc['tbf'] = x
        if forms in x[1]:
            return x[1][forms]
        c = self.tabix().get(forms)
        if c is not None:
            iv = [self.rawinterval(f) for f in forms]
            if any(lo > min(t[i] for t in c) or hi < max(t[i] for t in c) for i, (lo, hi) in enumerate(iv)) if c else False:
                c = frozenset(t for t in c if all(lo <= v <= hi for v, (lo, hi) in zip(t, iv)))
        x[1][forms] = c
        return c

    def rawinterval(self, f):
        """interval without consulting the table constraints on f itself"""
        lo = hi = f.c
        for a, k in f.t:
            l, h = self.bound(a)
            lo += k * (l if k > 0 else h)
            hi += k * (h if k > 0 else l)
        return lo, hi

    def tabcand(self, tid, path):
        """(symbolic index forms, possible index tuples) of a table path"""
        path = tuple([self.normidx(p) for p in path])
        forms = []
        for p in path:
            if isinstance(p, Form) and p not in forms:
                forms.append(p)
        forms = tuple(forms)
        if not forms:
            return path, forms, frozenset([()])
        c = self.tabc(forms)
        if c is None:
            sets = []
            for f in forms:
                v = self.vset(f)
                if v is None:
                    lo, hi = self.interval(f)
                    lo, hi = max(lo, 0), min(hi, 4096)
                    v = range(lo, hi + 1)
                sets.append(v)
            c = frozenset(tab_paths(TABS[tid], path, forms, sets))
        return path, forms, c

    def normidx(self, p):
        if isinstance(p, Form):
            p = self.norm(p)
            return p if p.t else p.c
        return p

    def tabvals(self, a):
        """(forms, {index tuple: value}) of a table atom"""
        b = a.base if a.base is not None else a
        path, forms, c = self.tabcand(b.name[1], b.name[2])
        js = TABS[b.name[1]]
        out = {}
        for t in c:
            v = tab_at(js, path, forms, t)
            if v is None:
                continue        # the atom only exists where the element has that variant
            if a.base is not None:
                v = (v >> a.off) & ((1 << a.w) - 1)
            out[t] = v
        return forms, out

    def tabeval(self, f):
        """(forms, {index tuple: value of f}) when f only depends on table atoms over the same indexes"""
        key = ('te', f)
        x = self.nc.get('tev')
        if x is None or x[0] is not self.iv:
            x = (self.iv, {})
            self.nc['tev'] = x
        if key in x[1]:
            return x[1][key]
        r = self._tabeval(f)
        x[1][key] = r
        return r

    def _tabeval(self, f):
        parts = []
        forms = ()
        for a, k in f.t:
            if a.kind != 'tab':
                continue
            fs, vals = self.tabvals(a)
            parts.append((k, fs, vals))
            if len(fs) > len(forms):
                forms = fs
        if not parts or any(fs != forms for k, fs, v in parts):
            return None
        out = None
        for k, fs, vals in parts:
            if out is None:
                out = {t: f.c + k * v for t, v in vals.items()}
            else:
                out = {t: v + k * vals[t] for t, v in out.items() if t in vals}
        rest = [(a, k) for a, k in f.t if a.kind != 'tab']
        for a, k in rest:
            g = av(a)
            if g not in forms:
                return None
            i = forms.index(g)
            for t in out:
                out[t] += k * t[i]
        return forms, out

    def vset(self, f):
        """finite set of the possible values of f, when known from tables"""
        f = self.norm(f)
        if not f.t:
            return frozenset([f.c])
        out = None
        for fs, c in list(self.tabix().items()):
            if f in fs:
                i = fs.index(f)
                v = frozenset(t[i] for t in c)
                out = v if out is None else out & v
        if out is None and istab(f):
            r = self.tabeval(f)
            if r is not None:
                out = frozenset(r[1].values())
        return out

    def values(self, f, limit=70):
        """the possible values of f in order (None when there are too many)"""
        lo, hi = self.interval(f)
        v = self.vset(f)
        if v is not None:
            v = sorted(x for x in v if lo <= x <= hi)
            return v if len(v) <= limit else None
        return list(range(lo, hi + 1)) if hi - lo <= limit else None

    def tab_decide(self, forms, want):
        fs = tuple([self.norm(f) for f in forms])
        if all(not f.t for f in fs):
            return tuple(f.c for f in fs) in want
        keep = [i for i, f in enumerate(fs) if f.t]
        if len(keep) < len(fs):
            want = frozenset(tuple(t[i] for i in keep) for t in want if all(fs[i].t or fs[i].c == t[i] for i in range(len(fs))))
            fs = tuple(fs[i] for i in keep)
        cur = self.tabc(fs)
        if cur is None and len(fs) == 1:
            v = self.vset(fs[0])
            if v is None:
                lo, hi = self.interval(fs[0])
                if hi - lo > 4096:
                    return None
                v = range(lo, hi + 1)
            cur = frozenset((x,) for x in v)
        if not want:
            return False
        if cur is None:
            return None
        if cur <= want:
            return True
        if not (cur & want):
            return False
        return None

    def tab_assume(self, forms, want):
        fs = tuple([self.norm(f) for f in forms])
        keep = [i for i, f in enumerate(fs) if f.t]
        if len(keep) < len(fs):
            want = frozenset(tuple(t[i] for i in keep) for t in want if all(fs[i].t or fs[i].c == t[i] for i in range(len(fs))))
            fs = tuple(fs[i] for i in keep)
        if not want:
            return False
        if not fs:
            return True
        cur = self.tabc(fs)
        new = want if cur is None else cur & want
        if not new:
            return False
        self.bl = dict(self.bl)
        self.bl[('tabc', fs)] = new
        self._chg()
        for i, f in enumerate(fs):
            vals = {x[i] for x in new}
            f = self.norm(f)
            if istab(f) and f.t:
                # restrict the indexes behind a table value
                r = self.tabeval(f)
                if r is not None and r[0] != fs:
                    if not self.tab_assume(r[0], frozenset(x for x, v in r[1].items() if v in vals)):
                        return False
                    continue
            if len(vals) == 1:
                if not self.add_eq(f - next(iter(vals))):
                    return False
            elif not (self.add_ge(f - min(vals)) and self.add_ge(-f + max(vals))):
                return False
        return True

    def add_ne(self, f):
        if not f.t:
            return f.c != 0
        if len(f.t) == 1:
            a, k = f.t[0]
            if f.c % k:
                return True
            v = -f.c // k
            lo, hi = self.bound(a)
            if v == lo:
                return self.tighten(a, lo + 1, None)
            if v == hi:
                return self.tighten(a, None, hi - 1)
        self.nes = self.nes + (f,)
        lo, hi = self.interval(f)
        if lo >= 0 or self.decide(('ge', f)) is True:
            return self.add_ge(f - 1)
        if hi <= 0 or self.decide(('ge', -f)) is True:
            return self.add_ge(-f - 1)
        return True

    def add_eq(self, f):
        """f == 0"""
        if not f.t:
            return f.c == 0
        if len(f.t) == 1:
            a, k = f.t[0]
            if f.c % k:
                return False
            v = -f.c // k
            lo, hi = self.bound(a)
            if not lo <= v <= hi:
                return False
            if a.kind == 'tab':
                return self.tighten(a, v, v)
            return self.set_eq(a, const(v))
        # several disjoint bit fields against a constant
        for g in (f, -f):
            if g.c <= 0 and all(k > 0 for a, k in g.t):
                z = mk(0, dict(g.t))
                w = self.interval(z)[1].bit_length()
                segs = self._bits(z, w)
                if segs is not None and all(a.kind != 'len' for a, k in z.t):
                    t = -g.c
                    if t >> w:
                        return False
                    p = 0
                    for sw, kd, x in segs:
                        v = (t >> p) & ((1 << sw) - 1)
                        p += sw
                        if kd == 'c':
                            if x != v:
                                return False
                        else:
                            n = self.norm(av(x))
                            if not self.add_eq(n - v):
                                return False
                    return True
        # substitute one atom
        cands = []
        for a, k in f.t:
            if abs(k) != 1 or a.kind == 'tab':
                continue
            if a.base is None and a in self.part:
                continue
            deps = set()
            for b, _ in f.t:
                if b is not a:
                    form_atoms(av(b), deps)
            if (a.base or a) in deps:
                continue
            low = St.LOW and a.base is not None and self.lowpart(a)
            cands.append((a.base is None or low, not a.deps, a.id, a, k, 3 if low else PRIO(a)))
        if not cands:
            return self.add_ge(f) and self.add_ge(-f)
        cands.sort(key=lambda x: (x[0], x[5], x[2]))
        a, k = cands[-1][3:5]
        g = (f - av(a) * k) * (-k)
        return self.set_eq(a, g)

    def lowpart(self, a):
        """a is all of a loop cell that is not constant"""
        b = a.base
        return a.off == 0 and isinstance(b.name, tuple) and b.name[0] == 'cell' and \
            all(o == 0 or (g is not None and not g.t) for o, w, g in self.part.get(b, ((0, 0, None), (1, 0, None))))

    def set_eq(self, a, g):
        l, h = self.bound(a)
        if a.base is not None:
            self.set_part(a.base, a.off, a.w, g)
        else:
            self.set_sub(a, g)
        g = self.norm(g)
        return self.add_ge(g - l) and self.add_ge(-g + h)

    def consistent(self):
        """full feasibility of the numeric facts"""
        if self.dead:
            return False
        fs = []
        for f in self.ges:
            f = self.norm(f)
            if f.t:
                fs.append(f)
            elif f.c < 0:
                return False
        for n in self.nes:
            n = self.norm(n)
            if not n.t and n.c == 0:
                return False
        for a, (lo, hi) in self.iv.items():
            if lo > hi:
                return False
        if not fs:
            return True
        ax = []
        seen = set()
        for f in fs:
            for a, k in f.t:
                if a not in seen:
                    seen.add(a)
                    ax.extend(AXIOMS(self, a))
        STATS['simplex'] += 1
        return not infeasible(fs + ax, self.bound)

    def truth(self, c):
        """decide or split"""
        d = self.decide(c)
        if d is None:
            STATS['forks'] += 1
            raise Fork([[c], [neg(c)]])
        return d


NAMED = {}


def _fa(f):
    s = set()
    form_atoms(f, s)
    return s


def _subform(st, g, w, off, n):
    if g is None:
        return None
    if off == 0 and n == w:
        return g
    if not g.t:
        return const((g.c >> off) & ((1 << n) - 1))
    return st.frombits(st.cut(st.bits(g, w), off, n))


def hi_of(st, f, skip):
    h = f.c
    for a, k in f.t:
        if a is not skip:
            lo, hi = st.bound(a)
            h += k * (hi if k > 0 else lo)
    return h


def key_deps(k):
    return bool(deps_of(k))


def PRIO(a):
    """prefer substituting loop/derived atoms over input atoms"""
    n = a.name[0] if isinstance(a.name, tuple) else ''
    return {'cell': 3, 'wsum': -1, 'nv': 2}.get(n, 1)


RESOLVE = []


def resolve_name(n):
    for r in RESOLVE:
        x = r(n)
        if x is not None:
            return x
    return n


AXIOM_FNS = []


def AXIOMS(st, a):
    out = []
    for f in AXIOM_FNS:
        out.extend(f(st, a))
    return out


# ------------------------------------------------------------------ weights of table entries
# ('wsum', base, n): sum over the first n elements of base of (length of field 0 + length of field 1 + 32)
def W(st, base, n):
    n = st.norm(n)
    if not n.t and n.c == 0:
        return ZERO
    base = map_name(base, st.norm)
    return st.norm(av(atom(('wsum', base, n), 64, 0, LENMAX, 'len')))


def _wsum_resolve(n):
    if n and n[0] == 'wsum' and isinstance(n[2], Form) and not n[2].t and n[2].c == 0:
        return ZERO


RESOLVE.append(_wsum_resolve)


def _wsum_axiom(st, a):
    if isinstance(a.name, tuple) and a.name[0] == 'wsum':
        return [av(a) - a.name[2] * 32]
    return []


AXIOM_FNS.append(_wsum_axiom)
