"""Ghost reference machines run in lockstep with the analysed code (product abstract interpretation).

The ghost state is kept in the abstract memory under roots ('g', name), so that loop
generalisation relates it to the real state; at loop headers it is advanced as far as the
real state has advanced."""
from .terms import *
from .state import *
from .interp import *
from .models import canon_seq, slen, joinsegs


class Viol(Panic):
    def __init__(self, cats, what, detail=''):
        Panic.__init__(self, ('viol', tuple(cats), what), detail)


def gget(st, n):
    return st.mem[('g', n)]


def gset(st, n, v):
    st.mem[('g', n)] = v


def vec(segs, ety=None):
    return ('vec', joinsegs(segs), None, ety)


def S(name, ety_len=None):
    return (('S', name, ZERO, lenv(('len', name))),)


def seq_at(I, st, segs, i, ety):
    return I.elem(st, ('vec', segs, None, ety), i)


def adopt(st, t):
    for a in ('mem', 'sub', 'part', 'iv', 'ges', 'nes', 'bl', 'gh', 'ev', 'nf', 'nc', 'trail', 'dead'):
        setattr(st, a, getattr(t, a))


def drop_front(st, segs, n):
    a, b = split(st, segs, n)
    return b


def take(st, segs, n):
    a, b = split(st, segs, n)
    return a


# ------------------------------------------------------------------ equality of abstract values
def same(I, st, a, b):
    """are two values equal (capacities ignored); may fork; returns bool"""
    if a is b:
        return True
    if isinstance(a, Form) and isinstance(b, Form):
        return st.truth(eq(a - b))
    if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, tuple) and a and a[0] in ('ge', 'eq', 'ne', 'is', 'isnot')):
        x = a if isinstance(a, bool) else st.truth(a)
        y = b if isinstance(b, bool) else st.truth(b)
        return x == y
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return False
    if a == b:
        return True
    if a[0] == 'sym' or b[0] == 'sym':
        return same(I, st, I.expand(st, a), I.expand(st, b))
    if a[0] != b[0]:
        return False
    if a[0] == 'agg':
        return len(a[1]) == len(b[1]) and all(same(I, st, x, y) for x, y in zip(a[1], b[1]))
    if a[0] == 'enum':
        return a[1] == b[1] and len(a[2]) == len(b[2]) and all(same(I, st, x, y) for x, y in zip(a[2], b[2]))
    if a[0] == 'vec':
        return seq_same(I, st, a[1], b[1], a[3] if a[3] is not None else b[3])
    return False


def seq_same(I, st, x, y, ety):
    x, y = list(canon_seq(st, x)), list(canon_seq(st, y))
    while x and y:
        if x[0] == y[0]:
            x.pop(0)
            y.pop(0)
            continue
        p, q = x[0], y[0]
        n, m = st.norm(seglen(p)), st.norm(seglen(q))
        if n is not m:
            # shorten to the common length
            if st.truth(ge(m - n)):
                if st.truth(eq(m - n)):
                    k = n
                else:
                    k = n
            else:
                k = m
        else:
            k = n
        k = st.norm(k)
        if p[0] == 'L' or q[0] == 'L':
            if not st.truth(ge(k - 1)):
                # an empty piece
                (x if not st.truth(ge(n - 1)) else y).pop(0)
                continue
            if not same(I, st, I.segelem(st, p, ZERO, ety), I.segelem(st, q, ZERO, ety)):
                return False
            k = ONE
        elif p[0] == 'S' and q[0] == 'S':
            if p[1] != q[1] or not st.truth(eq(p[2] - q[2])):
                if st.truth(eq(k)):
                    pass
                else:
                    return False
        else:
            r, o = (p, q) if p[0] == 'R' else (q, p)
            if o[0] != 'R' or not same(I, st, r[1], o[1]):
                if not st.truth(eq(k)):
                    return False
        x = list(split(st, tuple(x), k)[1])
        y = list(split(st, tuple(y), k)[1])
    for s in x + y:
        if not st.truth(eq(seglen(s))):
            return False
    return True


# ------------------------------------------------------------------ specification pieces
def spec_varint(I, st, segs, limit=10):
    """LEB128 at the front of segs: ('ok', n, 64-bit value) / ('under',) / ('over',)"""
    n = st.norm(slen(segs))
    parts = []
    for i in range(limit):
        if not st.truth(ge(n - (i + 1))):
            return ('under',)
        b = st.norm(seq_at(I, st, segs, const(i), I.u8()))
        w = 7 if i < 9 else 1
        parts += st.cut(st.bits(b, 8), 0, w)
        if not st.truth(ge(b - 128)):
            return ('ok', const(i + 1), st.frombits(parts))
    return ('over',)


def variant(I, t, name):
    """index of the variant of enum type t with that name"""
    for i, v in enumerate(I.T[t]['v']):
        if v['n'] == name:
            return i
    raise Unsupported('no variant %s' % name)
