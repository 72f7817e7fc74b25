"""Models of std leaf operations over the abstract values (sequences, iterators, integers)."""
import math
from .terms import *
from .state import *
from .interp import *


class Models:
    preds = ()

    def __init__(self, over=None):
        self.over = dict(over or {})

    def find(self, I, inst):
        p = inst['path']
        m = self.over.get(p)
        if m is not None:
            return m
        for pred, m in self.preds:
            if pred(inst):
                return m
        short = p.rsplit('::', 1)[-1]
        if inst['crate'].startswith('vp_') and ('@' + short) in self.over:
            return self.over['@' + short]
        if inst['intr']:
            return INTR.get(inst['intr'])
        m = M.get(p)
        if m is not None:
            return m
        if short == 'precondition_check' or p.endswith('::precondition_check'):
            return m_unit
        if inst['crate'].startswith('vp_') and short == 'model_to_array':
            return m_to_array
        if inst['crate'].startswith('vp_') and short in COLL:
            return COLL.get(short)
        if PANICS(p):
            return m_panic
        return None

    def find_virtual(self, d):
        return self.over.get(d)


def PANICS(p):
    return (p.startswith('core::panicking::') or p.startswith('std::rt::') or p.endswith('_failed') or p.endswith('_fail')
            or p.startswith('std::panicking') or p.startswith('core::slice::index::RangeError')
            or p in ('alloc::alloc::handle_alloc_error', 'std::process::abort', 'std::intrinsics::abort')
            or p.startswith('core::num::') and p.endswith('panic'))


def m_unit(I, st, a, c):
    return UNIT


def m_panic(I, st, a, c):
    raise Panic(c.inst['path'].split('::')[-1])


# ------------------------------------------------------------------ helpers
def seqval(I, st, r):
    """(segs, cap, ety) of the growable sequence behind a reference"""
    if r[0] == 'slice':
        return slice_segs(I, st, r), None, None
    v = I.read(st, r[1], r[2])
    return val_segs(I, v), v[2] if v[0] == 'vec' else None, v[3] if v[0] == 'vec' else None


def val_segs(I, v):
    if v[0] == 'vec':
        return v[1]
    if v[0] == 'agg':
        return (('L', v[1]),) if v[1] else ()
    if v[0] == 'tab':
        js, t, n = I.tabs[v[1]]
        if len(js) <= 300:
            return (('L', tuple(I.conv(x, t[1]) for x in js)),)
    raise Unsupported('sequence %s' % v[0])


def setseq(I, st, r, segs, cap=None):
    v = I.read(st, r[1], r[2])
    if v[0] != 'vec':
        raise Unsupported('write of a sequence to %s' % v[0])
    I.write(st, r[1], r[2], ('vec', joinsegs(segs), cap, v[3]))


def slen(segs):
    n = ZERO
    for s in segs:
        n = n + seglen(s)
    return n


def to_slice(I, st, r):
    """view of a reference to an array, vector or slice"""
    if r[0] == 'slice':
        return r
    if r[0] == 'ref':
        return ('slice', r[1], r[2], ZERO, I.seqlen(st, I.read(st, r[1], r[2])))
    raise Unsupported('slice of %s' % r[0])


def slice_segs(I, st, r):
    r = to_slice(I, st, r)
    segs = val_segs(I, I.read(st, r[1], r[2]))
    _, b = split(st, segs, r[3])
    if st.norm(slen(b)) is st.norm(r[4]):
        return b
    a, _ = split(st, b, r[4])
    return a


def sub(st, r, start, end):
    return ('slice', r[1], r[2], st.norm(r[3] + start), st.norm(end - start))


def elref(st, r, i):
    return ('ref', r[1], r[2] + (('idx', st.norm(r[3] + i)),))


def rng(I, st, v, ty, n):
    """(start, end) of a range argument over a sequence of length n"""
    d = I.T[ty]
    if d['k'] in ('ref', 'ptr') and I.T[d['e']]['k'] == 'adt':
        d = I.T[d['e']]
        v = I.read(st, v[1], v[2])
    p = d.get('path', '')
    if p == 'std::ops::Range':
        return v[1][0], v[1][1]
    if p == 'std::ops::RangeTo':
        return ZERO, v[1][0]
    if p == 'std::ops::RangeFrom':
        return v[1][0], n
    if p == 'std::ops::RangeFull':
        return ZERO, n
    if p == 'std::ops::RangeInclusive':
        if v[1][2] is not False:
            raise Unsupported('exhausted inclusive range')
        if st.truth(eq(v[1][1] - ((1 << 64) - 1))):
            raise Panic('slice_index')
        return v[1][0], v[1][1] + 1
    if p == 'std::ops::RangeToInclusive':
        if st.truth(eq(v[1][0] - ((1 << 64) - 1))):
            raise Panic('slice_index')
        return ZERO, v[1][0] + 1
    raise Unsupported('range type %s' % d.get('n'))


def isint(I, ty):
    return I.T[ty]['k'] == 'int'


def inrange(st, s, e, n):
    return st.truth(ge(e - s)) and st.truth(ge(n - e))


def fresh(I, hint, w=64, lo=0, hi=None, kind='data'):
    I.freshn = getattr(I, 'freshn', 0) + 1
    return fv(('fresh', hint, I.freshn), w, lo, hi, kind)


# ------------------------------------------------------------------ Vec and VecDeque
def m_new(I, st, a, c):
    return ('vec', (), ZERO, I.vecty(c.dty))


def m_with_capacity(I, st, a, c):
    return ('vec', (), st.norm(a[0]), I.vecty(c.dty))


def m_capacity(I, st, a, c):
    segs, cap, e = seqval(I, st, a[0])
    n = slen(segs)
    if cap is None:
        cap = fresh(I, 'cap', 64, 0, LENMAX, 'len')
        v = I.read(st, a[0][1], a[0][2])
        I.write(st, a[0][1], a[0][2], ('vec', v[1], cap, v[3]))
    if not st.assume(ge(cap - n)):
        raise Fork([])
    return st.norm(cap)


def m_reserve(I, st, a, c):
    segs, cap, e = seqval(I, st, a[0])
    setseq(I, st, a[0], segs, None)
    return UNIT


def m_len(I, st, a, c):
    if a[0][0] == 'slice':
        return st.norm(a[0][4])
    return I.seqlen(st, I.read(st, a[0][1], a[0][2]))


def m_is_empty(I, st, a, c):
    return eq(m_len(I, st, a, c))


def m_deref(I, st, a, c):
    return to_slice(I, st, a[0])


def grow_cap(st, cap, n, k):
    """capacity after adding k elements to n"""
    if cap is None:
        return None
    if st.decide(ge(cap - n - k)) is True:
        return cap
    return None


def settled(st, v):
    """a condition as an element: decided, unless it is the value of one bit"""
    if isinstance(v, tuple) and v and v[0] in ('ge', 'eq', 'ne', 'is', 'isnot') and len(v) in (2, 3):
        if v[0] in ('eq', 'ne') and len(v[1].t) == 1 and v[1].t[0][0].w == 1:
            return v
        return st.truth(v)
    return v


def m_push(I, st, a, c):
    segs, cap, e = seqval(I, st, a[0])
    a = [a[0], settled(st, a[1])]
    setseq(I, st, a[0], segs + (('L', (a[1],)),), grow_cap(st, cap, slen(segs), 1))
    return UNIT


def m_push_front(I, st, a, c):
    segs, cap, e = seqval(I, st, a[0])
    setseq(I, st, a[0], (('L', (settled(st, a[1]),)),) + tuple(segs))
    return UNIT


def pop_at(I, st, ref, pos):
    """remove and return the element at pos"""
    segs, cap, e = seqval(I, st, ref)
    x, y = split(st, segs, pos)
    z, w = split(st, y, ONE)
    v = I.segelem(st, z[0], ZERO, e)
    setseq(I, st, ref, tuple(x) + tuple(w), cap)
    return v


def m_pop(I, st, a, c):
    n = m_len(I, st, a, c)
    if st.truth(eq(n)):
        return NONE
    return some(pop_at(I, st, a[0], n - 1))


def m_pop_front(I, st, a, c):
    n = m_len(I, st, a, c)
    if st.truth(eq(n)):
        return NONE
    return some(pop_at(I, st, a[0], ZERO))


def m_remove(I, st, a, c):
    n = m_len(I, st, a, c)
    if not st.truth(lt(a[1] - n)):
        raise Panic('remove')
    return pop_at(I, st, a[0], a[1])


def m_dq_remove(I, st, a, c):
    n = m_len(I, st, a, c)
    if not st.truth(lt(a[1] - n)):
        return NONE
    return some(pop_at(I, st, a[0], a[1]))


def m_insert(I, st, a, c):
    segs, cap, e = seqval(I, st, a[0])
    if not st.truth(ge(slen(segs) - a[1])):
        raise Panic('insert')
    x, y = split(st, segs, a[1])
    setseq(I, st, a[0], tuple(x) + (('L', (a[2],)),) + tuple(y))
    return UNIT


def m_truncate(I, st, a, c):
    segs, cap, e = seqval(I, st, a[0])
    n = slen(segs)
    if st.truth(ge(a[1] - n)):
        return UNIT
    x, y = split(st, segs, a[1])
    setseq(I, st, a[0], x, cap)
    return UNIT


def m_clear(I, st, a, c):
    segs, cap, e = seqval(I, st, a[0])
    setseq(I, st, a[0], (), cap)
    return UNIT


def m_append(I, st, a, c):
    s1, c1, e = seqval(I, st, a[0])
    s2, c2, _ = seqval(I, st, a[1])
    setseq(I, st, a[0], tuple(s1) + tuple(s2), grow_cap(st, c1, slen(s1), slen(s2)))
    setseq(I, st, a[1], (), c2)
    return UNIT


def m_extend_slice(I, st, a, c):
    s1, c1, e = seqval(I, st, a[0])
    s2 = slice_segs(I, st, a[1])
    setseq(I, st, a[0], tuple(s1) + tuple(s2), grow_cap(st, c1, slen(s1), slen(s2)))
    return UNIT


def m_write_all(I, st, a, c):
    m_extend_slice(I, st, a, c)
    return ok(UNIT)


def m_write(I, st, a, c):
    m_extend_slice(I, st, a, c)
    return ok(st.norm(to_slice(I, st, a[1])[4]))


def m_resize(I, st, a, c):
    segs, cap, e = seqval(I, st, a[0])
    n = slen(segs)
    if st.truth(ge(n - a[1])):
        x, y = split(st, segs, a[1])
        setseq(I, st, a[0], x, cap)
    else:
        setseq(I, st, a[0], tuple(segs) + (('R', a[2], st.norm(a[1] - n)),))
    return UNIT


def m_split_off(I, st, a, c):
    segs, cap, e = seqval(I, st, a[0])
    if not st.truth(ge(slen(segs) - a[1])):
        raise Panic('split_off')
    x, y = split(st, segs, a[1])
    setseq(I, st, a[0], x, cap)
    return ('vec', tuple(y), None, e)


def m_drain(I, st, a, c):
    segs, cap, e = seqval(I, st, a[0])
    n = st.norm(slen(segs))
    s, t = rng(I, st, a[1], c.argtys[1], n)
    if not inrange(st, s, t, n):
        raise Panic('slice_index')
    x, y = split(st, segs, s)
    y, z = split(st, y, st.norm(t - s))
    setseq(I, st, a[0], tuple(x) + tuple(z), cap)
    return ('iter', 'vec', tuple(y), e)


def m_clone_seq(I, st, a, c):
    segs, cap, e = seqval(I, st, a[0])
    return ('vec', tuple(segs), st.norm(slen(segs)), I.vecty(c.dty))


def m_to_vec(I, st, a, c):
    segs = slice_segs(I, st, a[0])
    return ('vec', tuple(segs), st.norm(slen(segs)), I.vecty(c.dty))


def m_vec_identity(I, st, a, c):
    return a[0]


def m_from_elem(I, st, a, c):
    n = st.norm(a[1])
    e = I.vecty(c.dty)
    if not n.t and n.c <= 64:
        return ('vec', (('L', (a[0],) * n.c),) if n.c else (), n, e)
    return ('vec', (('R', a[0], n),), n, e)


def m_swap_remove(I, st, a, c):
    n = m_len(I, st, a, c)
    if not st.truth(lt(a[1] - n)):
        raise Panic('swap_remove')
    last = pop_at(I, st, a[0], n - 1)
    if st.truth(eq(a[1] - (n - 1))):
        return last
    r = elref(st, to_slice(I, st, a[0]), a[1])
    old = I.read(st, r[1], r[2])
    I.write(st, r[1], r[2], last)
    return old


def m_from_utf8(I, st, a, c):
    segs = a[0][1] if a[0][0] == 'vec' else slice_segs(I, st, a[0])
    key = ('utf8', tuple(segs))
    r = st.lookup(key)
    if not segs:
        r = True
    if r is None:
        raise Fork([[('is', key, True)], [('is', key, False)]])
    return ok(a[0]) if r else err(('opq', 'utf8error', a[0]))


def m_utf8_lossy(I, st, a, c):
    raise Unsupported('from_utf8_lossy')


def m_into_bytes(I, st, a, c):
    v = a[0]
    if v[0] == 'opq' and v[1] == 'utf8error':
        return v[2]
    return v


# ------------------------------------------------------------------ slices
def m_get(I, st, a, c):
    r = to_slice(I, st, a[0])
    if isint(I, c.argtys[1]):
        if st.truth(lt(a[1] - r[4])):
            return some(elref(st, r, a[1]))
        return NONE
    s, t = rng(I, st, a[1], c.argtys[1], r[4])
    if inrange(st, s, t, r[4]):
        return some(sub(st, r, s, t))
    return NONE


def m_index(I, st, a, c):
    r = to_slice(I, st, a[0])
    if isint(I, c.argtys[1]):
        if st.truth(lt(a[1] - r[4])):
            return elref(st, r, a[1])
        raise Panic('BoundsCheck')
    s, t = rng(I, st, a[1], c.argtys[1], r[4])
    if inrange(st, s, t, r[4]):
        return sub(st, r, s, t)
    raise Panic('slice_index')


def m_dq_get(I, st, a, c):
    r = to_slice(I, st, a[0])
    if st.truth(lt(a[1] - r[4])):
        return some(elref(st, r, a[1]))
    return NONE


def m_dq_index(I, st, a, c):
    r = to_slice(I, st, a[0])
    if st.truth(lt(a[1] - r[4])):
        return elref(st, r, a[1])
    raise Panic('expect_failed')


def m_first(I, st, a, c):
    r = to_slice(I, st, a[0])
    if st.truth(eq(r[4])):
        return NONE
    return some(elref(st, r, ZERO))


def m_last(I, st, a, c):
    r = to_slice(I, st, a[0])
    if st.truth(eq(r[4])):
        return NONE
    return some(elref(st, r, r[4] - 1))


def m_split_first(I, st, a, c):
    r = to_slice(I, st, a[0])
    if st.truth(eq(r[4])):
        return NONE
    return some(('agg', (elref(st, r, ZERO), sub(st, r, ONE, r[4]))))


def m_split_last(I, st, a, c):
    r = to_slice(I, st, a[0])
    if st.truth(eq(r[4])):
        return NONE
    return some(('agg', (elref(st, r, r[4] - 1), sub(st, r, ZERO, r[4] - 1))))


def m_split_at(I, st, a, c):
    r = to_slice(I, st, a[0])
    if not st.truth(ge(r[4] - a[1])):
        raise Panic('split_at')
    return ('agg', (sub(st, r, ZERO, a[1]), sub(st, r, a[1], r[4])))


def m_split_at_checked(I, st, a, c):
    r = to_slice(I, st, a[0])
    if not st.truth(ge(r[4] - a[1])):
        return NONE
    return some(('agg', (sub(st, r, ZERO, a[1]), sub(st, r, a[1], r[4]))))


def assign_slice(I, st, r, segs):
    r = to_slice(I, st, r)
    v = I.read(st, r[1], r[2])
    old = val_segs(I, v)
    x, y = split(st, old, r[3])
    y, z = split(st, y, r[4])
    new = joinsegs(x, segs, z)
    if v[0] == 'agg':
        vals = []
        for s in new:
            n = st.norm(seglen(s))
            if n.t:
                raise Unsupported('array of symbolic shape')
            for i in range(n.c):
                ety = None
                vals.append(I.segelem(st, s, const(i), st_ety(I, s)))
        I.write(st, r[1], r[2], ('agg', tuple(vals)))
    else:
        I.write(st, r[1], r[2], ('vec', new, v[2], v[3]))


def st_ety(I, s):
    return I.cur_ety if s[0] == 'S' else None


def m_copy_from_slice(I, st, a, c):
    r, q = to_slice(I, st, a[0]), to_slice(I, st, a[1])
    if not st.truth(eq(r[4] - q[4])):
        raise Panic('len_mismatch_fail')
    I.cur_ety = slice_ety(I, c.argtys[1])
    assign_slice(I, st, r, slice_segs(I, st, q))
    return UNIT


def slice_ety(I, t):
    d = I.T[t]
    while d['k'] in ('ref', 'ptr'):
        d = I.T[d['e']]
    if d['k'] in ('slice', 'array'):
        return d['e']
    return None


def m_fill(I, st, a, c):
    r = to_slice(I, st, a[0])
    n = st.norm(r[4])
    I.cur_ety = None
    assign_slice(I, st, r, (('L', (a[1],) * n.c),) if not n.t else (('R', a[1], n),))
    return UNIT


def m_swap_el(I, st, a, c):
    r = to_slice(I, st, a[0])
    for i in (a[1], a[2]):
        if not st.truth(lt(i - r[4])):
            raise Panic('BoundsCheck')
    p, q = elref(st, r, a[1]), elref(st, r, a[2])
    x, y = I.read(st, p[1], p[2]), I.read(st, q[1], q[2])
    I.write(st, p[1], p[2], y)
    I.write(st, q[1], q[2], x)
    return UNIT


def m_reverse(I, st, a, c):
    r = to_slice(I, st, a[0])
    segs = slice_segs(I, st, r)
    if any(s[0] != 'L' for s in segs):
        raise Unsupported('reverse of a symbolic sequence')
    I.cur_ety = None
    assign_slice(I, st, r, tuple(('L', tuple(reversed(s[1]))) for s in reversed(segs)))
    return UNIT


def canon_seq(st, segs):
    """normalised segments: single-element views of a base become S segments"""
    out = []
    for s in segs:
        if s[0] == 'L':
            for v in s[1]:
                b = el_of(st, v)
                if b is not None:
                    out.append(('S', b[0], b[1], ONE))
                else:
                    out.append(('L', (deep_norm(st, v),)))
        elif s[0] == 'S':
            n = st.norm(s[3])
            if n.t or n.c:
                b = s[1]
                if isinstance(b, tuple) and deps_of(b):
                    b = map_name(b, st.norm)
                out.append(('S', b, st.norm(s[2]), n))
        else:
            n = st.norm(s[2])
            if n.t or n.c:
                out.append(('R', s[1], n))
    return joinsegs(out)


def deep_norm(st, v):
    """normal form of a stored value; capacities inside sequences are forgotten"""
    if isinstance(v, Form):
        return st.norm(v)
    if isinstance(v, tuple) and v:
        if v[0] == 'agg':
            return ('agg', tuple([deep_norm(st, x) for x in v[1]]))
        if v[0] == 'enum':
            return ('enum', v[1], tuple([deep_norm(st, x) for x in v[2]])) if v[2] else v
        if v[0] == 'vec':
            return ('vec', canon_seq(st, v[1]), None, v[3])
    return v


def el_of(st, v):
    """(base, index) when the value is exactly one element of a base sequence"""
    if isinstance(v, Form):
        v = st.norm(v)
        if v.t and len(v.t) <= 8:
            a = v.t[0][0]
            if a.base is not None:
                a = a.base
            if a.w == 8 and isinstance(a.name, tuple) and a.name[0] == 'el' and st.norm(av(a)) is v:
                return a.name[1], a.name[2]
        return None
    if isinstance(v, tuple) and v[0] in ('sym',) and isinstance(v[1], tuple) and v[1][0] == 'el':
        return v[1][1], v[1][2]
    return None


def seq_eq(I, st, x, y):
    """truth of the equality of two sequences (may fork)"""
    r = seq_eq0(I, st, x, y)
    if I.hook is not None and hasattr(I.hook, 'on_eq'):
        I.hook.on_eq(I, st, x, y, r)
    return r


def constbytes(x):
    return all(s[0] == 'L' for s in x) and all(isinstance(v, Form) and not v.t for s in x for v in s[1])


def seq_eq0(I, st, x, y):
    x, y = canon_seq(st, x), canon_seq(st, y)
    if x == y:
        return True
    if repr(y) < repr(x):
        x, y = y, x
    n, m = st.norm(slen(x)), st.norm(slen(y))
    if st.decide(eq(n - m)) is False:
        return False
    if not n.t and not m.t and all(s[0] == 'L' for s in x) and all(s[0] == 'L' for s in y):
        xv = [v for s in x for v in s[1]]
        yv = [v for s in y for v in s[1]]
        if all(isinstance(v, Form) for v in xv + yv):
            for p, q in zip(xv, yv):
                if not st.truth(eq(p - q)):
                    return False
            return True
    key = ('seqeq', x, y)
    r = st.lookup(key)
    if r is None:
        if not n.t and n.c == 0 and not m.t and m.c == 0:
            return True
        for c, o in ((x, y), (y, x)):
            # the other side is known to equal some constant
            if constbytes(c):
                for k, v in st.bl.items():
                    if v is True and isinstance(k, tuple) and k[0] == 'seqeq':
                        for p, q in ((k[1], k[2]), (k[2], k[1])):
                            if constbytes(p) and canon_seq(st, q) == o:
                                return p == c
        raise Fork([[('is', key, True), eq(n - m)], [('is', key, False)]])
    return r


def m_slice_eq(I, st, a, c):
    return seq_eq(I, st, segs_any(I, st, a[0]), segs_any(I, st, a[1]))


def m_slice_ne(I, st, a, c):
    return not seq_eq(I, st, segs_any(I, st, a[0]), segs_any(I, st, a[1]))


def segs_any(I, st, r):
    while r[0] == 'ref':
        v = I.read(st, r[1], r[2])
        if v[0] in ('ref', 'slice'):
            r = v
        else:
            return val_segs(I, v)
    return slice_segs(I, st, r)


def m_starts_with(I, st, a, c):
    r, q = to_slice(I, st, a[0]), to_slice(I, st, a[1])
    if not st.truth(ge(r[4] - q[4])):
        return False
    return seq_eq(I, st, slice_segs(I, st, sub(st, r, ZERO, q[4])), slice_segs(I, st, q))


def m_concat(I, st, a, c):
    r = to_slice(I, st, a[0])
    segs = slice_segs(I, st, r)
    out = ()
    for s in segs:
        if s[0] != 'L':
            raise Unsupported('concat of a symbolic list')
        for v in s[1]:
            out += tuple(segs_any(I, st, v) if v[0] in ('ref', 'slice') else val_segs(I, v))
    return ('vec', joinsegs(out), None, I.vecty(c.dty))


# ------------------------------------------------------------------ iterators
def m_iter(I, st, a, c):
    r = to_slice(I, st, a[0])
    return ('iter', 'slice', r[1], r[2], st.norm(r[3]), st.norm(r[3] + r[4]))


def m_into_iter_vec(I, st, a, c):
    return ('iter', 'vec', a[0][1], a[0][3])


def m_it_next(I, st, a, c):
    r = a[0]
    v = I.read(st, r[1], r[2])
    if v[0] != 'iter':
        raise Unsupported('next of %s' % v[0])
    k = v[1]
    if k == 'slice':
        if not st.truth(lt(v[4] - v[5])):
            return NONE
        I.write(st, r[1], r[2], ('iter', 'slice', v[2], v[3], st.norm(v[4] + 1), v[5]))
        return some(('ref', v[2], v[3] + (('idx', st.norm(v[4])),)))
    if k == 'vec':
        if not st.truth(ge(slen(v[2]) - 1)):
            return NONE
        x, y = split(st, v[2], ONE)
        e = I.segelem(st, x[0], ZERO, v[3])
        I.write(st, r[1], r[2], ('iter', 'vec', y, v[3]))
        return some(e)
    if k in ('chunks', 'chunks_exact'):
        if not st.truth(lt(v[4] - v[5])):
            return NONE
        n = v[6]
        if not st.truth(ge(v[5] - v[4] - n)):
            if k == 'chunks_exact':
                return NONE
            n = v[5] - v[4]
        I.write(st, r[1], r[2], v[:4] + (st.norm(v[4] + n),) + v[5:])
        return some(('slice', v[2], v[3], v[4], st.norm(n)))
    if k == 'windows':
        if not st.truth(ge(v[5] - v[4] - v[6])):
            return NONE
        I.write(st, r[1], r[2], v[:4] + (st.norm(v[4] + 1),) + v[5:])
        return some(('slice', v[2], v[3], v[4], v[6]))
    raise Unsupported('iterator %s' % k)


def m_it_next_back(I, st, a, c):
    r = a[0]
    v = I.read(st, r[1], r[2])
    k = v[1]
    if k == 'slice':
        if not st.truth(lt(v[4] - v[5])):
            return NONE
        I.write(st, r[1], r[2], ('iter', 'slice', v[2], v[3], v[4], st.norm(v[5] - 1)))
        return some(('ref', v[2], v[3] + (('idx', st.norm(v[5] - 1)),)))
    if k == 'vec':
        n = st.norm(slen(v[2]))
        if not st.truth(ge(n - 1)):
            return NONE
        x, y = split(st, v[2], n - 1)
        e = I.segelem(st, y[0], ZERO, v[3])
        I.write(st, r[1], r[2], ('iter', 'vec', x, v[3]))
        return some(e)
    raise Unsupported('next_back of %s' % k)


def it_len(st, v):
    k = v[1]
    if k == 'slice':
        return st.norm(v[5] - v[4])
    if k == 'vec':
        return st.norm(slen(v[2]))
    raise Unsupported('length of iterator %s' % k)


def m_it_len(I, st, a, c):
    return it_len(st, I.read(st, a[0][1], a[0][2]))


def m_it_is_empty(I, st, a, c):
    return eq(m_it_len(I, st, a, c))


def m_it_size_hint(I, st, a, c):
    n = it_len(st, I.read(st, a[0][1], a[0][2]))
    return ('agg', (n, some(n)))


def m_it_as_slice(I, st, a, c):
    v = I.read(st, a[0][1], a[0][2])
    return ('slice', v[2], v[3], v[4], st.norm(v[5] - v[4]))


def m_it_clone(I, st, a, c):
    return I.read(st, a[0][1], a[0][2])


def m_chunks(kind):
    def m(I, st, a, c):
        r = to_slice(I, st, a[0])
        n = st.norm(a[1])
        if st.truth(eq(n)):
            raise Panic('chunk size')
        return ('iter', kind, r[1], r[2], st.norm(r[3]), st.norm(r[3] + r[4]), n)
    return m


def m_range_next(I, st, a, c):
    r = a[0]
    v = I.read(st, r[1], r[2])
    s, e = v[1]
    t = I.T[I.T[c.argtys[0]]['e']]['args'][0]
    if not st.truth(I.binop(st, 'Lt', s, e, t, False, t)):
        return NONE
    I.write(st, r[1], r[2], ('agg', (st.norm(I.binop(st, 'AddUnchecked', s, ONE, t, False, t)), e)))
    return some(s)


def m_range_next_back(I, st, a, c):
    r = a[0]
    v = I.read(st, r[1], r[2])
    s, e = v[1]
    t = I.T[I.T[c.argtys[0]]['e']]['args'][0]
    if not st.truth(I.binop(st, 'Lt', s, e, t, False, t)):
        return NONE
    n = st.norm(I.binop(st, 'SubUnchecked', e, ONE, t, False, t))
    I.write(st, r[1], r[2], ('agg', (s, n)))
    return some(n)


def m_rangeinc_next(I, st, a, c):
    r = a[0]
    v = I.read(st, r[1], r[2])
    s, e, x = v[1]
    t = I.T[I.T[c.argtys[0]]['e']]['args'][0]
    if not isinstance(x, bool):
        x = st.truth(x)
    if x or not st.truth(I.binop(st, 'Le', s, e, t, False, t)):
        return NONE
    if st.truth(I.binop(st, 'Lt', s, e, t, False, t)):
        I.write(st, r[1], r[2], ('agg', (st.norm(I.binop(st, 'AddUnchecked', s, ONE, t, False, t)), e, False)))
    else:
        I.write(st, r[1], r[2], ('agg', (s, e, True)))
    return some(s)


def m_rangefrom_next(I, st, a, c):
    r = a[0]
    v = I.read(st, r[1], r[2])
    s = v[1][0]
    t = I.T[I.T[c.argtys[0]]['e']]['args'][0]
    x = I.binop(st, 'Add', s, ONE, t, True, t)
    if x[1][1] is True:
        raise Panic('Overflow')
    I.write(st, r[1], r[2], ('agg', (st.norm(x[1][0]),)))
    return some(s)


def iter_segs(I, st, v, deref):
    """segments of all items of an iterator value, None when unknown"""
    if v[0] == 'agg' and len(v[1]) == 1:      # Copied, Cloned
        return iter_segs(I, st, v[1][0], True)
    if v[0] == 'slice':
        return slice_segs(I, st, v) if deref else None
    if v[0] == 'vec':
        return v[1]
    if v[0] == 'ref':
        return iter_segs(I, st, m_iter(I, st, (v,), None), deref)
    if v[0] == 'iter' and v[1] == 'slice' and deref:
        return slice_segs(I, st, ('slice', v[2], v[3], v[4], st.norm(v[5] - v[4])))
    if v[0] == 'iter' and v[1] == 'vec':
        return v[2]
    return None


def plain_iter(I, t):
    """the type yields the stored items unchanged"""
    d = I.T[t]
    if d['k'] in ('ref',):
        return True
    if d['k'] == 'array':
        return True
    if d['k'] != 'adt':
        return False
    p = d['path']
    if p in ('std::vec::Vec', 'std::vec::IntoIter', 'std::vec::Drain', 'std::slice::Iter', 'std::collections::VecDeque'):
        return True
    if p in ('std::iter::Copied', 'std::iter::Cloned'):
        return plain_iter(I, d['args'][0]) and I.T[d['args'][0]].get('path') == 'std::slice::Iter'
    return False


def coll(deref, extend):
    def m(I, st, a, c):
        k = 1 if extend else 0
        t = c.argtys[k]
        segs = None
        if plain_iter(I, t):
            if a[k][0] == 'agg' and I.T[t]['k'] == 'array':
                segs = (('L', a[k][1]),)
            else:
                segs = iter_segs(I, st, a[k], deref)
        if segs is None:
            iid = I.insts.index(c.inst)
            return Multi(I.run_fn(c.fr, st, iid, a))
        if extend:
            s1, c1, e = seqval(I, st, a[0])
            setseq(I, st, a[0], tuple(s1) + tuple(segs), grow_cap(st, c1, slen(s1), slen(segs)))
            return UNIT
        return ('vec', joinsegs(segs), None, I.vecty(c.dty))
    return m


COLL = {'model_vec_from_iter': coll(False, False), 'model_vec_extend': coll(False, True), 'model_vec_extend_ref': coll(True, True)}


# ------------------------------------------------------------------ memory
def m_box_uninit(I, st, a, c):
    """the new box of a vec![..] expression"""
    n = 1 + max([k[1] for k in st.mem if k[0] == 'h'] or [0])
    st.mem[('h', n)] = ('opq', 'uninit')
    return ('ref', ('h', n), ())


def m_box_into_vec(I, st, a, c):
    r = a[0]
    if not (isinstance(r, tuple) and r[0] == 'ref' and r[1][0] == 'h'):
        raise Unsupported('box of %r' % (r,))
    v = I.read(st, r[1], r[2])
    st.mem.pop(r[1])
    segs = val_segs(I, v)
    return ('vec', tuple(segs), st.norm(slen(segs)), I.vecty(c.dty))


def m_to_array(I, st, a, c):
    """an array from the elements of a vector of known length"""
    n = I.T[c.dty]['len']
    if not st.truth(eq(slen(a[0][1]) - n)):
        raise Unsupported('array of another length')
    return ('agg', tuple(I.segelem(st, split(st, a[0][1], const(i))[1][0], ZERO, a[0][3]) for i in range(n)))


def m_arr_try_from(I, st, a, c):
    t = I.T[I.T[c.dty]['args'][0]]
    byref = t['k'] == 'ref'
    n = I.T[t['e']]['len'] if byref else t['len']
    r = to_slice(I, st, a[0])
    if not st.truth(eq(r[4] - n)):
        return err(('agg', (UNIT,)))
    if byref:
        if n == 0 or not r[3].t and not r[3].c and I.read(st, r[1], r[2])[0] == 'agg':
            return ok(('ref', r[1], r[2]))
        if t.get('mut'):
            raise Unsupported('mutable reference to an array inside a sequence')
        # shared, so a copy is as good
        k = 1 + max([x[1] for x in st.mem if x[0] == 'h'] or [0])
        v = m_first_n(I, st, r, n, None)
        st.mem[('h', k)] = v
        return ok(('ref', ('h', k), ()))
    return ok(m_first_n(I, st, r, n, I.T[t['e']] and t['e']))


def m_first_n(I, st, r, n, ety):
    return ('agg', tuple(I.read(st, r[1], r[2] + (('idx', st.norm(r[3] + i)),)) for i in range(n)))


def m_read_exact(I, st, a, c):
    src = to_slice(I, st, I.read(st, a[0][1], a[0][2]))
    dst = to_slice(I, st, a[1])
    if not st.truth(ge(src[4] - dst[4])):
        I.write(st, a[0][1], a[0][2], sub(st, src, src[4], src[4]))
        return err(('opq', 'ioerror', 0))
    x = sub(st, src, ZERO, dst[4])
    I.cur_ety = I.u8()
    assign_slice(I, st, dst, segs_any(I, st, x))
    I.write(st, a[0][1], a[0][2], sub(st, src, dst[4], src[4]))
    return ok(UNIT)


def m_read(I, st, a, c):
    src = to_slice(I, st, I.read(st, a[0][1], a[0][2]))
    dst = to_slice(I, st, a[1])
    n = dst[4] if st.truth(ge(src[4] - dst[4])) else src[4]
    I.cur_ety = I.u8()
    assign_slice(I, st, sub(st, dst, ZERO, n), segs_any(I, st, sub(st, src, ZERO, n)))
    I.write(st, a[0][1], a[0][2], sub(st, src, n, src[4]))
    return ok(st.norm(n))


def m_first_chunk(I, st, a, c):
    raise Unsupported(c.inst['path'])


def m_into_iter_arr(I, st, a, c):
    segs = val_segs(I, a[0])
    return ('iter', 'vec', tuple(segs), I.T[c.argtys[0]]['e'])


def m_extend_within(I, st, a, c):
    segs, cap, e = seqval(I, st, a[0])
    n = st.norm(slen(segs))
    s, t = rng(I, st, a[1], c.argtys[1], n)
    if not inrange(st, s, t, n):
        raise Panic('slice_index')
    _, y = split(st, segs, s)
    y, _ = split(st, y, st.norm(t - s))
    setseq(I, st, a[0], tuple(segs) + tuple(y))
    return UNIT


def m_copy_within(I, st, a, c):
    r = to_slice(I, st, a[0])
    s, t = rng(I, st, a[1], c.argtys[1], r[4])
    if not inrange(st, s, t, r[4]) or not st.truth(ge(r[4] - a[2] - (t - s))):
        raise Panic('slice_index')
    I.cur_ety = slice_ety(I, c.argtys[0])
    assign_slice(I, st, ('slice', r[1], r[2], st.norm(r[3] + a[2]), st.norm(t - s)), slice_segs(I, st, sub(st, r, s, t)))
    return UNIT


def m_ends_with(I, st, a, c):
    r, q = to_slice(I, st, a[0]), to_slice(I, st, a[1])
    if not st.truth(ge(r[4] - q[4])):
        return False
    return seq_eq(I, st, slice_segs(I, st, sub(st, r, r[4] - q[4], r[4])), slice_segs(I, st, q))


def m_strip_prefix(I, st, a, c):
    if not m_starts_with(I, st, a, c):
        return NONE
    r, q = to_slice(I, st, a[0]), to_slice(I, st, a[1])
    return some(sub(st, r, q[4], r[4]))


def m_strip_suffix(I, st, a, c):
    if not m_ends_with(I, st, a, c):
        return NONE
    r, q = to_slice(I, st, a[0]), to_slice(I, st, a[1])
    return some(sub(st, r, ZERO, r[4] - q[4]))


def m_remainder(I, st, a, c):
    v = I.read(st, a[0][1], a[0][2])
    usz = next(i for i, d in enumerate(I.T) if d.get('n') == 'usize')
    n = st.norm(I.binop(st, 'Rem', st.norm(v[5] - v[4]), v[6], usz, False, usz))
    return ('slice', v[2], v[3], st.norm(v[5] - n), n)


def m_dq_range(I, st, a, c):
    r = to_slice(I, st, a[0])
    s, t = rng(I, st, a[1], c.argtys[1], r[4])
    if not inrange(st, s, t, r[4]):
        raise Panic('slice_index')
    return m_iter(I, st, (sub(st, r, s, t),), c)


def m_replace(I, st, a, c):
    r = a[0]
    v = I.read(st, r[1], r[2])
    I.write(st, r[1], r[2], a[1])
    return v


def m_swap(I, st, a, c):
    p, q = a[0], a[1]
    x, y = I.read(st, p[1], p[2]), I.read(st, q[1], q[2])
    I.write(st, p[1], p[2], y)
    I.write(st, q[1], q[2], x)
    return UNIT


def m_ptr_read(I, st, a, c):
    return I.read(st, a[0][1], a[0][2])


def m_ptr_write(I, st, a, c):
    I.write(st, a[0][1], a[0][2], a[1])
    return UNIT


def m_box_new(I, st, a, c):
    return a[0]


# ------------------------------------------------------------------ integers
def m_ovf(op):
    def m(I, st, a, c):
        t = c.argtys[0]
        return I.binop(st, op, a[0], a[1], t, True, c.argtys[1])
    return m


def m_wrapping(op):
    def m(I, st, a, c):
        return I.binop(st, op, a[0], a[1], c.argtys[0], False, c.argtys[1])
    return m


def m_saturating(op):
    def m(I, st, a, c):
        t = c.argtys[0]
        d = I.T[t]
        if d['signed']:
            raise Unsupported('signed saturating operation')
        r = a[0] + a[1] if op == 'Add' else a[0] - a[1]
        B = d['bits']
        if op == 'Add' and not st.truth(ge(-r + (1 << B) - 1)):
            return const((1 << B) - 1)
        if op == 'Sub' and not st.truth(ge(r)):
            return ZERO
        return st.norm(r)
    return m


def m_saturating_mul(I, st, a, c):
    d = I.T[c.argtys[0]]
    if d['signed']:
        raise Unsupported('signed saturating operation')
    r = st.norm(I.mul(st, st.norm(a[0]), st.norm(a[1])))
    if not st.truth(ge(-r + (1 << d['bits']) - 1)):
        return const((1 << d['bits']) - 1)
    return r


def m_carryless(I, st, a, c):
    raise Unsupported(c.inst['path'])


def m_count(kind):
    def m(I, st, a, c):
        B = I.bits_of(c.argtys[0])
        f = st.norm(a[0])
        if f.t:
            lo, hi = st.interval(f)
            if kind == 'ctlz':
                # split on the position of the leading bit
                if hi == 0:
                    return const(B)
                alts = [[eq(f)]]
                for n in range(hi.bit_length()):
                    alts.append([ge(f - (1 << n)), ge(-f + (2 << n) - 1)])
                if lo.bit_length() == hi.bit_length() and lo:
                    return const(B - hi.bit_length())
                raise Fork(alts)
            vs = st.values(f)
            if vs is not None and hi <= 1 << 16:
                raise Fork([[eq(f - i)] for i in vs])
            raise Unsupported('%s of a variable' % kind)
        v = f.c
        if kind == 'ctpop':
            return const(bin(v).count('1'))
        if kind == 'ctlz':
            return const(B - v.bit_length())
        return const(B if v == 0 else (v & -v).bit_length() - 1)
    return m


def m_bswap(I, st, a, c):
    B = I.bits_of(c.argtys[0])
    return I.from_bytes(st, list(reversed(I.to_bytes(st, a[0], B))))


def m_rot(left):
    def m(I, st, a, c):
        B = I.bits_of(c.argtys[0])
        n = st.norm(a[1])
        if n.t:
            raise Unsupported('rotation by a variable')
        k = n.c % B
        s = st.bits(a[0], B)
        if not k:
            return a[0]
        cut = B - k if left else k
        return st.frombits(st.cut(s, cut, B - cut) + st.cut(s, 0, cut))
    return m


def m_ceil(I, st, a, c):
    B = I.bits_of(c.argtys[0])
    f = st.norm(a[0])
    if f.t:
        return fv(('ceil', f, B), B)
    x = fval(f.c, B)
    return fconst(float(math.ceil(x)) if x == x and abs(x) != math.inf else x, B)


def m_floor(fn):
    def m(I, st, a, c):
        B = I.bits_of(c.argtys[0])
        f = st.norm(a[0])
        if f.t:
            return fv((fn, f, B), B)
        x = fval(f.c, B)
        if x != x or abs(x) == math.inf:
            return f
        y = {'floor': math.floor, 'trunc': math.trunc, 'round': lambda v: math.copysign(math.floor(abs(v) + 0.5), v)}[fn](x)
        return fconst(float(y), B)
    return m


def m_first_arg(I, st, a, c):
    return a[0]


def m_assume(I, st, a, c):
    if not st.truth(a[0]):
        raise Fork([])
    return UNIT


def m_size_of(I, st, a, c):
    t = c.inst['args'][0]
    b = I.bits_of(t)
    if b is None:
        raise Unsupported('size_of %s' % I.T[t]['n'])
    return const(b // 8)


def m_discr(I, st, a, c):
    r = a[0]
    v = I.read(st, r[1], r[2])
    t = I.T[c.argtys[0]]['e']
    x = I.expand(st, v)
    return const(I.T[t]['v'][x[1]]['d'])


def m_int_max(op):
    def m(I, st, a, c):
        t = c.argtys[0]
        return a[1] if st.truth(I.binop(st, op, a[0], a[1], t, False, t)) else a[0]
    return m


def m_bitreverse(I, st, a, c):
    B = I.bits_of(c.argtys[0])
    s = st.bits(a[0], B)
    out = []
    for i in reversed(range(B)):
        out += st.cut(s, i, 1)
    return st.frombits(out)


def m_compare_bytes(I, st, a, c):
    n = st.norm(a[2])
    x, y = (slice_segs(I, st, ('slice', r[1], r[2], r[3], n)) for r in a[:2])
    if seq_eq(I, st, x, y):
        return ZERO
    raise Unsupported('order of byte strings')


def m_cmp3(I, st, a, c):
    return I.binop(st, 'Cmp', a[0], a[1], c.argtys[0], False, c.argtys[1])


def m_select(I, st, a, c):
    return a[1] if st.truth(a[0]) else a[2]


INTR = {
    'assert_inhabited': m_unit, 'assert_zero_valid': m_unit, 'cold_path': m_unit, 'likely': m_first_arg, 'unlikely': m_first_arg, 'black_box': m_first_arg, 'assume': m_assume,
    'add_with_overflow': m_ovf('Add'), 'sub_with_overflow': m_ovf('Sub'), 'mul_with_overflow': m_ovf('Mul'),
    'wrapping_add': m_wrapping('Add'), 'wrapping_sub': m_wrapping('Sub'), 'wrapping_mul': m_wrapping('Mul'),
    'unchecked_add': m_wrapping('Add'), 'unchecked_sub': m_wrapping('Sub'), 'unchecked_mul': m_wrapping('Mul'),
    'unchecked_shl': m_wrapping('Shl'), 'unchecked_shr': m_wrapping('Shr'), 'unchecked_div': m_wrapping('Div'),
    'unchecked_rem': m_wrapping('Rem'), 'exact_div': m_wrapping('Div'), 'disjoint_bitor': m_wrapping('BitOr'),
    'saturating_add': m_saturating('Add'), 'saturating_sub': m_saturating('Sub'),
    'ctpop': m_count('ctpop'), 'ctlz': m_count('ctlz'), 'cttz': m_count('cttz'),
    'ctlz_nonzero': m_count('ctlz'), 'cttz_nonzero': m_count('cttz'),
    'bswap': m_bswap, 'rotate_left': m_rot(True), 'rotate_right': m_rot(False),
    'ceil': m_ceil, 'ceilf64': m_ceil, 'ceilf32': m_ceil, 'floor': m_floor('floor'), 'floorf64': m_floor('floor'),
    'trunc': m_floor('trunc'), 'truncf64': m_floor('trunc'), 'round': m_floor('round'),
    'integer_max': m_int_max('Le'), 'integer_min': m_int_max('Ge'), 'bitreverse': m_bitreverse,
    'compare_bytes': m_compare_bytes, 'size_of': m_size_of, 'discriminant_value': m_discr, 'three_way_compare': m_cmp3,
    'select_unpredictable': m_select, 'abort': m_panic, 'ub_checks': lambda I, st, a, c: False,
    'read_via_copy': m_ptr_read, 'write_via_move': m_ptr_write, 'forget': m_unit,
}

VEC = 'std::vec::Vec::<T, A>::'
DQ = 'std::collections::VecDeque::<T, A>::'
SL = 'core::slice::<impl [T]>::'
ITS = ["std::slice::Iter<'a, T>", "std::slice::IterMut<'a, T>", "std::vec::IntoIter<T, A>", "std::vec::Drain<'_, T, A>",
       "std::vec::Drain<'a, T, A>", "std::slice::Chunks<'a, T>", "std::slice::ChunksExact<'a, T>", "std::slice::Windows<'a, T>",
       "std::collections::vec_deque::Iter<'a, T>", "std::collections::vec_deque::IterMut<'a, T>",
       "std::collections::vec_deque::IntoIter<T, A>", "std::collections::vec_deque::Drain<'_, T, A>",
       "std::array::IntoIter<T, N>"]
M = {
    'std::vec::Vec::<T>::new': m_new, 'std::vec::Vec::<T>::with_capacity': m_with_capacity,
    'std::collections::VecDeque::<T>::new': m_new, 'std::collections::VecDeque::<T>::with_capacity': m_with_capacity,
    'std::string::String::new': m_new, 'std::string::String::with_capacity': m_with_capacity,
    '<std::vec::Vec<T> as std::default::Default>::default': m_new,
    '<std::collections::VecDeque<T> as std::default::Default>::default': m_new,
    '<std::string::String as std::default::Default>::default': m_new,
    VEC + 'capacity': m_capacity, VEC + 'reserve': m_reserve, VEC + 'reserve_exact': m_reserve, VEC + 'shrink_to_fit': m_reserve,
    VEC + 'len': m_len, VEC + 'is_empty': m_is_empty, DQ + 'len': m_len, DQ + 'is_empty': m_is_empty,
    SL + 'len': m_len, SL + 'is_empty': m_is_empty,
    VEC + 'as_slice': m_deref, VEC + 'as_mut_slice': m_deref, 'std::string::String::as_bytes': m_deref, 'std::string::String::as_str': m_deref,
    '<std::vec::Vec<T, A> as std::ops::Deref>::deref': m_deref, '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut': m_deref,
    '<std::string::String as std::ops::Deref>::deref': m_deref,
    '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref': m_deref,
    '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow': m_deref,
    VEC + 'push': m_push, VEC + 'pop': m_pop, VEC + 'insert': m_insert, VEC + 'remove': m_remove, VEC + 'truncate': m_truncate,
    VEC + 'clear': m_clear, VEC + 'append': m_append, VEC + 'extend_from_slice': m_extend_slice, VEC + 'resize': m_resize,
    VEC + 'split_off': m_split_off, VEC + 'drain': m_drain, VEC + 'swap_remove': m_swap_remove,
    DQ + 'push_front': m_push_front, DQ + 'push_back': m_push, DQ + 'pop_front': m_pop_front, DQ + 'pop_back': m_pop,
    DQ + 'get': m_dq_get, DQ + 'front': m_first, DQ + 'back': m_last, DQ + 'clear': m_clear, DQ + 'truncate': m_truncate,
    DQ + 'remove': m_dq_remove, DQ + 'insert': m_insert, DQ + 'drain': m_drain, DQ + 'append': m_append, DQ + 'iter': m_iter, DQ + 'iter_mut': m_iter, DQ + 'range': m_dq_range, DQ + 'get_mut': m_dq_get, DQ + 'front_mut': m_first, DQ + 'back_mut': m_last, DQ + 'swap': m_swap_el,
    "std::slice::ChunksExact::<'a, T>::remainder": m_remainder,
    DQ + 'split_off': m_split_off, DQ + 'reserve': m_reserve, DQ + 'capacity': m_capacity,
    '<std::collections::VecDeque<T, A> as std::ops::Index<usize>>::index': m_dq_index,
    '<std::collections::VecDeque<T, A> as std::ops::IndexMut<usize>>::index_mut': m_dq_index,
    '<std::vec::Vec<T, A> as std::clone::Clone>::clone': m_clone_seq,
    '<std::collections::VecDeque<T, A> as std::clone::Clone>::clone': m_clone_seq,
    '<std::string::String as std::clone::Clone>::clone': m_clone_seq,
    'std::slice::<impl [T]>::to_vec': m_to_vec, 'std::slice::<impl [T]>::into_vec': m_vec_identity,
    'std::slice::<impl std::borrow::ToOwned for [T]>::to_owned': m_to_vec,
    'std::slice::<impl [T]>::concat': m_concat,
    "<std::vec::Vec<T> as std::convert::From<&[T]>>::from": m_to_vec, "<std::vec::Vec<T> as std::convert::From<&[T; N]>>::from": m_to_vec,
    "<std::vec::Vec<T> as std::convert::From<&mut [T]>>::from": m_to_vec,
    'std::vec::from_elem': m_from_elem,
    'std::string::String::from_utf8': m_from_utf8, 'std::str::from_utf8': m_from_utf8, 'std::string::String::into_bytes': m_into_bytes,
    'std::string::FromUtf8Error::into_bytes': m_into_bytes,
    'alloc::io::impls::<impl std::io::Write for std::vec::Vec<u8, A>>::write_all': m_write_all,
    'alloc::io::impls::<impl std::io::Write for std::vec::Vec<u8, A>>::write': m_write,
    'alloc::io::impls::<impl std::io::Read for &[u8]>::read_exact': m_read_exact,
    'alloc::io::impls::<impl std::io::Read for &[u8]>::read': m_read,
    SL + 'get': m_get, SL + 'get_mut': m_get, SL + 'first': m_first, SL + 'last': m_last, SL + 'first_mut': m_first, SL + 'last_mut': m_last,
    SL + 'split_first': m_split_first, SL + 'split_last': m_split_last,
    SL + 'split_at': m_split_at, SL + 'split_at_mut': m_split_at, SL + 'split_at_checked': m_split_at_checked, SL + 'split_at_unchecked': m_split_at, SL + 'split_at_mut_unchecked': m_split_at,
    SL + 'iter': m_iter, SL + 'iter_mut': m_iter, SL + 'copy_from_slice': m_copy_from_slice, SL + 'clone_from_slice': m_copy_from_slice,
    SL + 'fill': m_fill, SL + 'swap': m_swap_el, SL + 'reverse': m_reverse, SL + 'starts_with': m_starts_with,
    SL + 'chunks': m_chunks('chunks'), SL + 'chunks_exact': m_chunks('chunks_exact'), SL + 'windows': m_chunks('windows'),
    SL + 'get_unchecked': m_index, SL + 'get_unchecked_mut': m_index,
    'core::slice::index::<impl std::ops::Index<I> for [T]>::index': m_index,
    'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut': m_index,
    'core::array::<impl std::ops::Index<I> for [T; N]>::index': m_index,
    'core::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut': m_index,
    'std::array::<impl std::ops::Index<I> for [T; N]>::index': m_index,
    'std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut': m_index,
    '<std::vec::Vec<T, A> as std::ops::Index<I>>::index': m_index,
    '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut': m_index,
    'core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq': m_slice_eq,
    'core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::ne': m_slice_ne,
    '<std::vec::Vec<T, A> as std::cmp::PartialEq>::eq': m_slice_eq,
    "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter": m_iter,
    "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter": m_iter,
    "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter": m_iter,
    "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter": m_iter,
    "<&'a std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter": m_iter,
    "core::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter": m_iter,
    "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter": m_iter,
    '<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter': m_into_iter_vec,
    '<std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter': m_into_iter_vec,
    "std::slice::Iter::<'a, T>::as_slice": m_it_as_slice,
    "<std::slice::Iter<'_, T> as std::clone::Clone>::clone": m_it_clone,
    'std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next': m_range_next,
    'std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back': m_range_next_back,
    'std::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next': m_rangeinc_next,
    'std::iter::range::<impl std::iter::Iterator for std::ops::RangeFrom<A>>::next': m_rangefrom_next,
    'std::mem::replace': m_replace, 'std::mem::swap': m_swap, 'std::ptr::read': m_ptr_read, 'std::ptr::write': m_ptr_write,
    'std::boxed::Box::<T>::new_uninit': m_box_uninit, 'std::boxed::box_assume_init_into_vec_unsafe': m_box_into_vec,
    'std::array::<impl std::convert::TryFrom<&[T]> for [T; N]>::try_from': m_arr_try_from,
    "std::array::<impl std::convert::TryFrom<&'a [T]> for &'a [T; N]>::try_from": m_arr_try_from,
    'std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter': m_into_iter_arr,
    VEC + 'extend_from_within': m_extend_within, SL + 'copy_within': m_copy_within,
    SL + 'ends_with': m_ends_with, SL + 'strip_prefix': m_strip_prefix, SL + 'strip_suffix': m_strip_suffix,
    'std::string::String::len': m_len, 'std::string::String::is_empty': m_is_empty, 'core::str::<impl str>::len': m_len,
    'core::str::<impl str>::is_empty': m_is_empty, 'core::str::<impl str>::as_bytes': m_deref,
    'std::mem::drop': m_unit, 'std::mem::forget': m_unit, 'std::boxed::Box::<T>::new': m_box_new,
    'std::hint::assert_unchecked': m_assume,
}
for _t in ITS:
    M['<%s as std::iter::Iterator>::next' % _t] = m_it_next
    M['<%s as std::iter::DoubleEndedIterator>::next_back' % _t] = m_it_next_back
    M['<%s as std::iter::Iterator>::size_hint' % _t] = m_it_size_hint
    M['<%s as std::iter::ExactSizeIterator>::len' % _t.replace("'a", "'_")] = m_it_len
    M['<%s as std::iter::ExactSizeIterator>::is_empty' % _t.replace("'a", "'_")] = m_it_is_empty
    M['<%s as std::iter::ExactSizeIterator>::len' % _t] = m_it_len
