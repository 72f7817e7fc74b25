"""The predefined header table as observed through Table::get, len and iter (C11)."""
import json, os
from engine.extract import extract, V
from engine.interp import *
from engine.models import *
from engine.ghost import *

REF = json.load(open(os.path.join(V, 'data', 'rfc7541.json')))['static']


class EntryHook:
    """records what every vp_entry call observes"""
    def __init__(self):
        self.seen = []

    def fork(self, I, st, alts):
        return None

    def entry(self, I, st, a, c):
        r = I.expand(st, I.read(st, a[0][1], a[0][2]))
        if r[1] == 0:
            self.seen.append(None)
        else:
            self.seen.append(tuple(conc(I, st, x) for x in r[2][0][1]))
        return UNIT


def conc(I, st, s):
    """octets of a slice with concrete content"""
    n = st.norm(s[4])
    if n.t:
        raise Unsupported('length of a static entry is not a constant: %r' % n)
    out = []
    for i in range(n.c):
        f = st.norm(I.read(st, s[1], s[2] + (('idx', st.norm(s[3] + i)),)))
        if f.t:
            raise Unsupported('octet of a static entry is not a constant')
        out.append(f.c)
    return bytes(out).decode('latin1')


def observe(d, root, args):
    h = EntryHook()
    I = Interp(d, Models({'@vp_entry': h.entry}), hook=h, max_steps=3000000)
    I.opts['unroll'] = 100
    outs = I.run_root(root, args, St())
    return I, h, outs


def C11(rep):
    d = extract('hpack')
    n = fv(('arg', 'n'), 32)
    R = 'index %s of a new table yields the entry of RFC 7541 Appendix A'
    for root, more, what in (('root_t_static', [n], 'Table::with_dynamic_size'), ('root_t_static_def', [], 'Table::default')):
        for i in range(0, 64):
            rule = 'an index yields exactly the entry of RFC 7541 Appendix A'
            key = '%s, get(%d)' % (what, i)
            try:
                I, h, outs = observe(d, root, [const(i)] + more)
            except (Unsupported, Fork) as e:
                rep.fail(rule, key, 'not decided: %s' % e)
                continue
            want = tuple(REF[i - 1]) if 1 <= i <= 61 else None
            ok = not I.panics and len(h.seen) >= 1 and all(x == want for x in h.seen)
            rep.ob(rule, ok, key, 'yields %r, expected %r%s' % (h.seen, want, '; may panic' if I.panics else ''),
                   sample='%s = %r' % (key, want))
    rule = 'a new table has 61 entries'
    I, h, outs = observe(d, 'root_t_static_len', [n])
    vals = []
    for o in outs:
        vals.append(o[0].norm(o[1]))
    rep.ob(rule, bool(vals) and all(v is not None and not v.t and v.c == 61 for v in vals), 'Table::len', 'len() is %r' % (vals,))
    rule = 'iteration over a new table yields the entries of RFC 7541 Appendix A in order'
    I, h, outs = observe(d, 'root_t_static_iter', [n])
    want = [tuple(x) for x in REF] + [None]
    rep.ob(rule, h.seen == want and not I.panics, 'Table::iter',
           'first difference at position %s' % next((i for i, (x, y) in enumerate(zip(h.seen + ['end'] * 99, want)) if x != y), len(want)))
    rep.count('table entries compared', 61)
