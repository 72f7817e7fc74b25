"""Linear forms over atoms and bit slices of atoms: the numeric abstract values.

An Atom is an unknown integer with type bounds.  A slice atom (base, off, w) is the
unsigned number made of bits off..off+w-1 of its base.  A Form is c + sum(coef*atom)
over the mathematical integers, kept canonical with respect to slices.
"""
ATOMS = {}
_n = [0]
LENMAX = 1 << 48     # no object is larger than the address space (trusted assumption)


class Atom:
    __slots__ = ('id', 'name', 'w', 'lo', 'hi', 'base', 'off', 'kind', 'deps')

    def __repr__(self):
        if self.base is not None:
            return '%r[%d..%d]' % (self.base, self.off, self.off + self.w)
        return fmtname(self.name)

    def __lt__(self, o):
        return self.id < o.id


def fmtname(n):
    if isinstance(n, tuple):
        if not n:
            return '()'
        return '%s(%s)' % (n[0], ','.join(fmtname(x) for x in n[1:])) if len(n) > 1 else str(n[0])
    return str(n)


def atom(name, w=64, lo=0, hi=None, kind='data'):
    if hi is None:
        hi = (1 << w) - 1
    k = (name, w, lo, hi, kind)
    a = ATOMS.get(k)
    if a is None:
        a = Atom()
        _n[0] += 1
        a.id = _n[0]
        a.name = name
        a.w = w
        a.lo = lo
        a.hi = hi
        a.base = None
        a.off = 0
        a.kind = kind
        a.deps = deps_of(name)
        ATOMS[k] = a
    return a


def deps_of(n):
    """the non-constant Forms inside a structured name"""
    if isinstance(n, Form):
        return (n,) if n.t else ()
    if isinstance(n, tuple):
        r = ()
        for x in n:
            if isinstance(x, (tuple, Form)):
                r += deps_of(x)
        return r
    return ()


def map_name(n, f):
    """rebuild a structured name with f applied to every Form in it"""
    if isinstance(n, Form):
        return f(n)
    if isinstance(n, tuple):
        return tuple([map_name(x, f) if isinstance(x, (tuple, Form)) else x for x in n])
    return n


def name_atoms(n, out):
    if isinstance(n, Form):
        form_atoms(n, out)
    elif isinstance(n, tuple):
        for x in n:
            if isinstance(x, (tuple, Form)):
                name_atoms(x, out)


def form_atoms(f, out):
    """base atoms a form depends on, through structured names"""
    for a, k in f.t:
        b = a.base if a.base is not None else a
        if b not in out:
            out.add(b)
            for d in b.deps:
                form_atoms(d, out)


def slc(base, off, w):
    """slice atom of base (base may itself be a slice)"""
    if base.base is not None:
        off += base.off
        base = base.base
    if off == 0 and w == base.w:
        return base
    name = ('slice', base.id, off, w)
    a = ATOMS.get(name)
    if a is None:
        a = Atom()
        _n[0] += 1
        a.id = _n[0]
        a.name = name
        a.w = w
        a.lo = 0
        a.hi = (1 << w) - 1
        a.base = base
        a.off = off
        a.kind = base.kind
        a.deps = ()
        ATOMS[name] = a
    return a


FORMS = {}


class Form:
    __slots__ = ('c', 't', '_h', 'slots')

    def __hash__(self):
        return self._h

    # interned: identity equality
    def __repr__(self):
        s = []
        for a, k in self.t:
            s.append(('%+d*' % k if abs(k) != 1 else ('+' if k > 0 else '-')) + repr(a))
        if self.c or not s:
            s.append('%+d' % self.c)
        r = ' '.join(s)
        return r[1:] if r[0] == '+' else r

    @property
    def const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            if o == 0:
                return self
            return _intern(self.c + o, self.t)
        if not o.t:
            return _intern(self.c + o.c, self.t)
        if not self.t:
            return _intern(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            d[a] = d.get(a, 0) + k
        return mk(self.c + o.c, d)

    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        if isinstance(o, int):
            return self + (-o)
        return self + o * -1

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, k):
        if k == 1:
            return self
        if k == 0:
            return ZERO
        return _intern(self.c * k, tuple((a, c * k) for a, c in self.t))

    __rmul__ = __mul__


def _intern(c, t):
    key = (c, t)
    f = FORMS.get(key)
    if f is None:
        f = Form()
        f.c = c
        f.t = t
        f._h = hash(key)
        FORMS[key] = f
    return f


def mk(c, d):
    """canonical form from const and {atom: coef}"""
    bases = {}
    multi = False
    for a, k in d.items():
        if k:
            b = a.base if a.base is not None else a
            if b in bases:
                multi = True
                bases[b].append((a, k))
            else:
                bases[b] = [(a, k)]
    out = []
    for b, ents in bases.items():
        if len(ents) == 1:
            out.append(ents[0])
        else:
            out.extend(_merge(b, ents))
    out.sort(key=lambda x: x[0].id)
    return _intern(c, tuple(out))


def _merge(b, ents):
    cuts = set()
    for a, k in ents:
        cuts.add(a.off)
        cuts.add(a.off + a.w)
    cuts = sorted(cuts)
    runs = []
    for p, q in zip(cuts, cuts[1:]):
        c = 0
        for a, k in ents:
            if a.off <= p and q <= a.off + a.w:
                c += k << (p - a.off)
        if not c:
            continue
        if runs and runs[-1][1] == p and runs[-1][2] << (p - runs[-1][0]) == c:
            runs[-1][1] = q
        else:
            runs.append([p, q, c])
    return [(slc(b, p, q - p), c) for p, q, c in runs]


def const(n):
    return _intern(n, ())


ZERO = const(0)
ONE = const(1)


def av(a):
    return _intern(0, ((a, 1),))


def fv(name, w=64, lo=0, hi=None, kind='data'):
    return av(atom(name, w, lo, hi, kind))


def lenv(name):
    return av(atom(name, 64, 0, LENMAX, 'len'))


# ---------------------------------------------------------------- linear feasibility
from fractions import Fraction


FEAS = {}


def _div(x, k):
    """exact quotient, an int when it is one"""
    if k == 1:
        return x
    if k == -1:
        return -x
    if type(x) is int and type(k) is int:
        q, r = divmod(x, k)
        if not r:
            return q
    q = Fraction(x) / k
    return q.numerator if q.denominator == 1 else q


def infeasible(cons, bounds):
    """cons: list of Form (each >= 0), bounds: func atom -> (lo, hi).  True if the
    rational relaxation has no solution (general simplex, Bland's rule)."""
    # collect variables
    var = {}
    for f in cons:
        for a, k in f.t:
            if a not in var:
                var[a] = len(var)
    bs = tuple(map(bounds, var))
    key = (tuple(cons), bs)
    r = FEAS.get(key)
    if r is None:
        r = FEAS[key] = _infeasible(cons, var, bs)
    return r


def _infeasible(cons, var, bs):
    lo = [b[0] for b in bs]
    hi = [b[1] for b in bs]
    val = [0 if b is None else b for b in lo]
    rows = {}
    for f in cons:
        if not f.t:
            if f.c < 0:
                return True
            continue
        i = len(lo)
        lo.append(-f.c)
        hi.append(None)
        r = {var[a]: k for a, k in f.t}
        rows[i] = r
        val.append(sum([k * val[j] for j, k in r.items()]))
    it = 0
    while True:
        it += 1
        if it > 400:
            return False
        bi = None
        for i in sorted(rows):
            v = val[i]
            if lo[i] is not None and v < lo[i]:
                bi = i
                need = lo[i]
                up = True
                break
            if hi[i] is not None and v > hi[i]:
                bi = i
                need = hi[i]
                up = False
                break
        if bi is None:
            return False
        r = rows[bi]
        pj = None
        for j in sorted(r):
            if (r[j] > 0) == up:
                ok = hi[j] is None or val[j] < hi[j]
            else:
                ok = lo[j] is None or val[j] > lo[j]
            if ok:
                pj = j
                break
        if pj is None:
            return True
        # pivot bi <-> pj, set val[bi]=need
        k = r[pj]
        theta = _div(need - val[bi], k)
        val[bi] = need
        val[pj] += theta
        del rows[bi]
        nr = {j: _div(-c, k) for j, c in r.items() if j != pj}
        nr[bi] = _div(1, k)
        for i2, r2 in rows.items():
            c2 = r2.pop(pj, None)
            if c2 is not None:
                val[i2] += c2 * theta
                for j, c in nr.items():
                    x = r2.get(j, 0) + c2 * c
                    if x:
                        r2[j] = x
                    else:
                        r2.pop(j, None)
        rows[pj] = nr
