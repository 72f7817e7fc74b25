"""Abstract interpreter over the dumped MIR: path-partitioned execution over the linear/bit-slice domain.

Values (tuples):  Form (unsigned bit pattern of an int or float), bool or condition,
 ('agg', fields)  ('enum', variant, fields)  ('sym', name, ty)  ('ref', root, path)
 ('slice', root, path, start, len)  ('vec', segs, cap, ety)  ('iter', kind, ...)  ('tab', tid)
 ('tel', tid, path)  ('opq', ...)
Sequence segments: ('L', values) ('S', base, start, len) ('R', value, n)
"""
import json, struct, math
from .terms import *
from .state import *
from . import state as _state

NONE = ('enum', 0, ())
UNIT = ('agg', ())


def some(v):
    return ('enum', 1, (v,))


def ok(v):
    return ('enum', 0, (v,))


def err(v):
    return ('enum', 1, (v,))


class Fn:
    """per-body information"""
    def __init__(self, I, inst):
        self.inst = inst
        b = inst['body']
        self.blocks = b['blocks']
        self.locals = b['locals']
        self.argc = b['argc']
        self.spread = b['spread']
        self.path = inst['path']
        self.name = inst['name']
        self.succ = [succs(t) for _, t in self.blocks]
        self.loops = natural_loops(self.succ)
        self._live = None

    @property
    def live(self):
        if self._live is None:
            self._live = liveness(self)
        return self._live


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if k in ('drop',):
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[4]]
    return []


def natural_loops(succ):
    """header -> set of blocks"""
    n = len(succ)
    order = []
    seen = set()
    onstack = set()
    back = []
    stack = [(0, iter(succ[0]))]
    seen.add(0)
    onstack.add(0)
    while stack:
        b, it = stack[-1]
        adv = False
        for s in it:
            if s in onstack:
                back.append((b, s))
            elif s not in seen:
                seen.add(s)
                onstack.add(s)
                stack.append((s, iter(succ[s])))
                adv = True
                break
        if not adv:
            stack.pop()
            onstack.discard(b)
            order.append(b)
    pred = [[] for _ in range(n)]
    for b in seen:
        for s in succ[b]:
            pred[s].append(b)
    loops = {}
    for t, h in back:
        body = loops.setdefault(h, {h})
        work = [t]
        while work:
            x = work.pop()
            if x not in body:
                body.add(x)
                work.extend(pred[x])
    return loops


def liveness(fn):
    """block -> set of locals live on entry (borrowed locals count as live throughout)"""
    n = len(fn.blocks)
    borrowed = set()
    use = [set() for _ in range(n)]
    dfn = [set() for _ in range(n)]

    def pl(p):
        return (p, ()) if isinstance(p, int) else (p[0], p[1])

    def op_uses(o, s):
        if o[0] in ('c', 'm'):
            l, pr = pl(o[1])
            s.add(l)
            for e in pr:
                if isinstance(e, list) and e[0] == 'i':
                    s.add(e[1])

    def walk(x, s):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('c', 'm') and (isinstance(x[1], int) or (isinstance(x[1], list) and len(x[1]) == 2 and isinstance(x[1][0], int) and isinstance(x[1][1], list))):
                op_uses(x, s)
                return
            for y in x:
                walk(y, s)

    def place_use(p, s):
        l, pr = pl(p)
        s.add(l)
        for e in pr:
            if isinstance(e, list) and e[0] == 'i':
                s.add(e[1])
    for b in range(n):
        U, D = use[b], dfn[b]

        def U_add(tmp):
            for l in tmp:
                if l not in D:
                    U.add(l)
        stmts, t = fn.blocks[b]
        for s in stmts:
            if s[0] == '=':
                tmp = set()
                rv = s[2]
                if rv[0] in ('ref', 'addr', 'discr', 'len'):
                    place_use(rv[1], tmp)
                    if rv[0] in ('ref', 'addr'):
                        l, pr = pl(rv[1])
                        if '*' not in pr:
                            borrowed.add(l)
                else:
                    walk(rv, tmp)
                U_add(tmp)
                if isinstance(s[1], int):
                    D.add(s[1])
                else:
                    tmp = set()
                    place_use(s[1], tmp)
                    U_add(tmp)
            elif s[0] == 'sd':
                tmp = set()
                place_use(s[1], tmp)
                U_add(tmp)
            elif s[0] == 'assume':
                tmp = set()
                walk(s[1], tmp)
                U_add(tmp)
            elif s[0] == 'dead':
                D.add(s[1])
        tmp = set()
        if t[0] == 'switch':
            walk(t[1], tmp)
        elif t[0] == 'assert':
            walk(t[1], tmp)
        elif t[0] == 'call':
            walk(t[2], tmp)
            if 'ptr' in t[1]:
                walk(t[1]['ptr'], tmp)
        elif t[0] == 'drop':
            pass
        elif t[0] == 'return':
            tmp.add(0)
        U_add(tmp)
        if t[0] == 'call':
            if isinstance(t[3], int):
                D.add(t[3])
            else:
                tmp = set()
                place_use(t[3], tmp)
                U_add(tmp)
    live = [set(u) for u in use]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            o = set()
            for s in fn.succ[b]:
                o |= live[s]
            x = use[b] | (o - dfn[b])
            if x != live[b]:
                live[b] = x
                ch = True
    return [l | borrowed for l in live]


class Frame:
    __slots__ = ('fn', 'd', 'chain')

    def __init__(self, fn, d, chain):
        self.fn = fn
        self.d = d
        self.chain = chain


RUSTCALL = ('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once')


class Interp:
    PEEL = False            # loops: treat the first iteration separately
    EARLY = None           # told about every alarm at once, before the fixpoint it was found in is complete

    def __init__(self, dump, models, hook=None, max_steps=3000000):
        self.dump = dump
        self.T = dump['types']
        self.insts = dump['insts']
        self.models = models
        self.fns = {}
        self.hook = hook
        self.tabs = TABPAIRS
        self.telmemo = {}
        self.panics = []
        self.steps = 0
        self.max_steps = max_steps
        self.visited = set()        # (fn path, block)
        self.loopinfo = []
        self.calls = {}
        self.unroll = 16
        self.pend = 24
        self.loopruns = {}
        self.loopmode = {}
        self.nonterm = []
        self.nounroll = set()
        self.nesting = 0
        self.cellno = 0
        self.opts = {}
        for t in self.T:
            if t['k'] == 'int' and t['bits'] == 64 and not t['signed']:
                self.usz = self.T.index(t)
        self.tykind = [t['k'] for t in self.T]

    def fn(self, i):
        f = self.fns.get(i)
        if f is None:
            f = self.fns[i] = Fn(self, self.insts[i])
        return f

    # ------------------------------------------------------------ types
    def vecty(self, t):
        """element type when t is a growable sequence"""
        d = self.T[t]
        if d['k'] == 'adt':
            p = d['path']
            if p in ('std::vec::Vec', 'std::collections::VecDeque'):
                return d['args'][0]
            if p == 'std::string::String':
                return self.T[d['v'][0]['f'][0][1]]['args'][0]
        return None

    def bits_of(self, t):
        d = self.T[t]
        k = d['k']
        if k in ('int', 'float'):
            return d['bits']
        if k == 'bool':
            return 1
        if k == 'char':
            return 32
        if k in ('ptr', 'ref', 'fnptr'):
            return 64
        return None

    def signed(self, t):
        d = self.T[t]
        return d['k'] == 'int' and d['signed']

    # ------------------------------------------------------------ symbolic values
    def sym(self, name, t):
        d = self.T[t]
        k = d['k']
        if k in ('int', 'float'):
            return fv(name, d['bits'])
        if k == 'char':
            return fv(name, 32, 0, 0x10ffff)
        if k == 'bool':
            return eq(fv(name, 1) - 1)
        if k in ('tuple', 'closure'):
            return ('agg', tuple(self.sym((name, i), f) for i, f in enumerate(d['f'] or [])))
        if k == 'array':
            if d['len'] is None or d['len'] > 64:
                raise Unsupported('symbolic array')
            return ('agg', tuple(self.sym((name, i), d['e']) for i in range(d['len'])))
        if k in ('ref', 'ptr'):
            e = self.T[d['e']]
            if e['k'] == 'slice':
                r = ('sym', name, ('seq', e['e']))
                return ('slice', r, (), ZERO, lenv(('len', name)))
            if e['k'] == 'str':
                return ('slice', ('sym', name, ('seq', self.u8())), (), ZERO, lenv(('len', name)))
            if e['k'] == 'dyn':
                return ('opq', name)
            return ('ref', ('sym', name, d['e']), ())
        if k == 'adt':
            e = self.vecty(t)
            if e is not None:
                return self.symvec(name, e)
            if d['adt'] == 'struct':
                if d['crate'] not in ('core', 'std', 'alloc') or d['path'] in OPENSTRUCT:
                    return ('agg', tuple(self.sym((name, f[0]), f[1]) for f in d['v'][0]['f']))
                return ('opq', name)
            if d['adt'] == 'enum':
                return ('sym', name, t)
        if k == 'never':
            return ('opq', name)
        return ('opq', name)

    def u8(self):
        for i, t in enumerate(self.T):
            if t['k'] == 'int' and t['bits'] == 8 and not t['signed']:
                return i

    def symvec(self, name, e):
        return ('vec', (('S', name, ZERO, lenv(('len', name))),), fv(('cap', name), 64, 0, LENMAX, 'len'), e)

    def expand(self, st, v):
        """give a lazy enum a definite variant (may fork)"""
        if v[0] == 'enum':
            return v
        if v[0] == 'tel':
            return self.tel_enum(st, v)
        if v[0] != 'sym':
            raise Unsupported('variant of %r' % (v[0],))
        name, t = v[1], v[2]
        key = ('var', name)
        r = st.lookup(key)
        if r is None:
            n = len(self.T[t]['v'])
            alts = [i for i in range(n) if not self.uninhabited(self.T[t]['v'][i])]
            if len(alts) == 1:
                r = alts[0]
            else:
                raise Fork([[('is', key, i)] for i in alts])
        return ('enum', r, tuple(self.sym((name, r, i), f[1]) for i, f in enumerate(self.T[t]['v'][r]['f'])))

    def uninhabited(self, var):
        return any(self.T[f[1]]['k'] == 'never' for f in var['f'])

    # ------------------------------------------------------------ constants
    def conv(self, v, t):
        d = self.T[t]
        k = d['k']
        if k in ('int', 'float', 'char'):
            if v is None:
                raise Unsupported('constant of type %s' % d['n'])
            return const(v)
        if k == 'bool':
            return bool(v)
        if k == 'fndef':
            return ('fn', t)
        if v is None:
            return ('opq', 'const', d['n'])
        if k in ('tuple', 'closure'):
            return ('agg', tuple(self.conv(x, f) for x, f in zip(v, d['f'] or [])))
        if k == 'array':
            return self.convseq(v, d['e'])
        if k == 'adt':
            e = self.vecty(t)
            if e is not None:
                return ('vec', (), None, e)
            if d['adt'] == 'enum':
                if isinstance(v, list):             # the only value of the type
                    k = [j for j, x in enumerate(d['v']) if all(self.inhabited(f[1]) for f in x['f'])]
                    if len(k) == 1 and len(v) == len(d['v'][k[0]]['f']):
                        v = {'v': k[0], 'f': v}
                    else:
                        raise Unsupported('constant of type %s' % d['n'])
                return ('enum', v['v'], tuple(self.conv(x, f[1]) for x, f in zip(v['f'], d['v'][v['v']]['f'])))
            if d['adt'] == 'struct':
                return ('agg', tuple(self.conv(x, f[1]) for x, f in zip(v, d['v'][0]['f'])))
            return ('opq', 'const', d['n'])
        if k in ('ref', 'ptr'):
            if isinstance(v, dict) and 'r' in v:
                e = self.T[d['e']]
                if e['k'] in ('slice', 'str'):
                    et = e['e'] if e['k'] == 'slice' else self.u8()
                    return ('slice', ('const', self.tab(v['r'], ('seq', et))), (), ZERO, const(len(v['r'])))
                return ('ref', ('const', self.tab(v['r'], d['e'])), ())
            return ('opq', 'constref')
        if k == 'fnptr':
            return ('fnp', v['fn']) if isinstance(v, dict) else ('opq', 'fnptr')
        return ('opq', 'const', d['n'])

    def convseq(self, v, et):
        if len(v) > 16 and self.bits_of(et) != 8:
            return ('tab', self.tab(v, ('seq', et)))
        return ('agg', tuple(self.conv(x, et) for x in v))

    def tab(self, js, t):
        return tabid(js, t)

    # ------------------------------------------------------------ table elements
    def tel_leaf(self, st, v):
        """groups: leaf json -> index tuples"""
        tid = v[1]
        path, forms, cand = st.tabcand(tid, v[2])
        if len(forms) and st.tabc(forms) is None:
            # every index was checked against the length before
            pass
        key = (tid, path, cand)
        r = self.telmemo.get(key)
        if r is None:
            groups = {}
            js = TABS[tid]
            for c in cand:
                x = tab_at(js, path, forms, c)
                groups.setdefault(json.dumps(x), (x, []))[1].append(c)
            r = self.telmemo[key] = (tid, path, forms, groups)
        return r

    def resolve_tel(self, st, v, t):
        """value of a table leaf of type t"""
        d = self.T[t]
        k = d['k']
        if k in ('int', 'bool', 'float', 'char'):
            tid, path, forms, g = self.tel_leaf(st, v)
            if not g:
                raise Unsupported('table element out of range')
            if len(g) == 1:
                return self.conv(list(g.values())[0][0], t)
            if k != 'int':
                raise Fork([[('tabc', forms, frozenset(c))] for js, c in g.values()])
            return av(tabatom(tid, path, d['bits']))
        if k in ('tuple', 'closure'):
            return ('agg', tuple(self.resolve_tel(st, ('tel', v[1], v[2] + (i,)), f) if self.tykind[f] not in ('tuple', 'adt', 'array') else self.resolve_tel(st, ('tel', v[1], v[2] + (i,)), f)
                                 for i, f in enumerate(d['f'])))
        if k == 'array':
            return ('tel', v[1], v[2], t)
        if k == 'adt' and d['adt'] == 'struct':
            return ('agg', tuple(self.resolve_tel(st, ('tel', v[1], v[2] + (i,)), f[1]) for i, f in enumerate(d['v'][0]['f'])))
        if k == 'adt' and d['adt'] == 'enum':
            return ('tel', v[1], v[2], t)
        if k in ('ref', 'ptr'):
            tid, path, forms, g = self.tel_leaf(st, v)
            if len(g) == 1:
                return self.conv(list(g.values())[0][0], t)
            e = self.T[d['e']]
            if e['k'] in ('slice', 'str'):
                et = e['e'] if e['k'] == 'slice' else self.u8()
                ln = tablen(tid, path)
                return ('slice', ('tabr', tid, path, et), (), ZERO, ln)
        raise Unsupported('table element of type %s' % d['n'])

    def tel_enum(self, st, v):
        tid, path, forms, g = self.tel_leaf(st, v)
        t = v[3]
        by = {}
        for js, c in g.values():
            by.setdefault(js['v'], []).extend(c)
        if len(by) > 1:
            raise Fork([[('tabc', forms, frozenset(c))] for c in by.values()])
        vi = list(by)[0]
        if len(g) == 1:
            return self.conv(list(g.values())[0][0], t)
        fs = self.T[t]['v'][vi]['f']
        return ('enum', vi, tuple(self.resolve_tel(st, ('tel', tid, v[2] + (('v', vi, i),)), f[1]) for i, f in enumerate(fs)))

    # ------------------------------------------------------------ memory
    def default(self, st, root):
        if root[0] == 'sym':
            t = root[2]
            if isinstance(t, tuple):
                return ('vec', (('S', root[1], ZERO, lenv(('len', root[1]))),), None, t[1])
            return self.sym(root[1], t)
        if root[0] == 'const':
            js, t, n = self.tabs[root[1]]
            if isinstance(t, tuple):
                if len(js) > 16 and self.bits_of(t[1]) != 8:
                    return ('tab', root[1])
                return ('agg', tuple(self.conv(x, t[1]) for x in js))
            return self.conv(js, t)
        if root[0] == 'tabr':
            ln = tablen(root[1], root[2])
            return ('vec', (('S', ('tabs', root[1], root[2]), ZERO, ln),), None, root[3])
        raise Unsupported('read of %r' % (root,))

    def inhabited(self, t):
        d = self.T[t]
        if d['k'] == 'never':
            return False
        if d['k'] == 'adt' and d['adt'] == 'enum':
            return any(all(self.inhabited(f[1]) for f in v['f']) for v in d['v'])
        return True

    def get(self, st, root):
        v = st.mem.get(root)
        if v is None:
            v = self.default(st, root)
        return v

    def read(self, st, root, path):
        v = self.get(st, root)
        for e in path:
            v = self.project(st, v, e)
        return v

    def project(self, st, v, e):
        if isinstance(v, Form) or v is True or v is False:
            if e[0] == 'f' and e[1] == 0:
                return v
            raise Unsupported('projection of a scalar')
        k = e[0]
        t = v[0]
        if k == 'f':
            if t == 'agg':
                return v[1][e[1]]
            if t == 'enum':
                return v[2][e[1]]
            if t == 'opq':
                return ('opq', v, e[1])
            if t == 'vec' and e[1] == 0:
                return v
            if t == 'ref' and v[1][0] == 'h' and e[1] == 0:
                return v                            # the pointer inside a box
            raise Unsupported('field of %s' % t)
        if k == 'd':
            x = self.expand(st, v)
            if x[1] != e[1]:
                raise Unsupported('downcast to another variant')
            return x
        if k == 'idx':
            return self.elem(st, v, e[1])
        raise Unsupported('projection %r' % (e,))

    def elem(self, st, v, i):
        i = i0 = st.norm(i)
        t = v[0]
        if t == 'agg':
            if not i.t:
                return v[1][i.c]
            n = len(v[1])
            raise Fork([[eq(i - k)] for k in st.values(i, 1 << 17) if 0 <= k < n])
        if t == 'vec':
            for s in v[1]:
                n = seglen(s)
                if st.truth(lt(i - n)):
                    return self.segelem(st, s, i, v[3])
                i = st.norm(i - n)
            if not i0.t and not i.t:
                raise Unsupported('element outside the sequence')
            raise Fork([])       # a place that Rust lets the program name is an element of its sequence
        if t == 'tab':
            js, ty, n = self.tabs[v[1]]
            return self.resolve_tel(st, ('tel', n, (i if i.t else i.c,)), ty[1])
        if t == 'tel':
            d = self.T[v[3]]
            if d['k'] == 'array':
                return self.resolve_tel(st, ('tel', v[1], v[2] + (i if i.t else i.c,)), d['e'])
        raise Unsupported('element of %s' % t)

    def segelem(self, st, s, i, ety):
        if s[0] == 'L':
            i = st.norm(i)
            if not i.t:
                return s[1][i.c]
            raise Fork([[eq(i - k)] for k in range(len(s[1]))])
        if s[0] == 'R':
            return s[1]
        i = st.norm(s[2] + i)
        v = self.sym(('el', s[1], i), ety)
        if self.hook is not None and hasattr(self.hook, 'on_el'):
            self.hook.on_el(self, st, s[1], i, v)
        return v

    def write(self, st, root, path, new):
        if not path:
            st.mem[root] = new
            return
        st.mem[root] = self.updated(st, self.get(st, root), path, 0, new)

    def updated(self, st, v, path, i, new):
        if i == len(path):
            return new
        e = path[i]
        if e[0] == 'd':
            v = self.expand(st, v)
            if v[1] != e[1]:
                raise Unsupported('write to another variant')
            return self.updated(st, v, path, i + 1, new)
        if e[0] == 'f':
            if v[0] == 'agg':
                x = self.updated(st, v[1][e[1]], path, i + 1, new)
                return ('agg', v[1][:e[1]] + (x,) + v[1][e[1] + 1:])
            if v[0] == 'enum':
                x = self.updated(st, v[2][e[1]], path, i + 1, new)
                return ('enum', v[1], v[2][:e[1]] + (x,) + v[2][e[1] + 1:])
            if v[0] == 'uninit':
                fs = list(v[1]) + [None] * (e[1] + 1 - len(v[1]))
                fs[e[1]] = self.updated(st, fs[e[1]], path, i + 1, new)
                return ('agg', tuple(fs))
            if v == ('opq', 'uninit') and all(x[0] == 'f' for x in path[i:]):
                return new                          # MaybeUninit { value: ManuallyDrop { value } }
            raise Unsupported('field write to %s' % v[0])
        if e[0] == 'idx':
            f = st.norm(e[1])
            if v[0] == 'agg':
                if f.t:
                    raise Fork([[eq(f - k)] for k in range(len(v[1]))])
                x = self.updated(st, v[1][f.c], path, i + 1, new)
                return ('agg', v[1][:f.c] + (x,) + v[1][f.c + 1:])
            if v[0] == 'vec':
                if i + 1 == len(path):
                    x = new
                else:
                    x = self.updated(st, self.elem(st, v, f), path, i + 1, new)
                a, b = split(st, v[1], f)
                c, d = split(st, b, ONE)
                return ('vec', joinsegs(a, (('L', (x,)),), d), v[2], v[3])
        raise Unsupported('write through %r' % (e,))

    # ------------------------------------------------------------ places and operands
    def place(self, fr, st, p):
        """-> (root, path, slice) ; slice is None or (start, len)"""
        if isinstance(p, int):
            return ('l', fr.d, p), (), None
        root = ('l', fr.d, p[0])
        path = ()
        sl = None
        for e in p[1]:
            if e == '*':
                v = self.read(st, root, path)
                if v[0] == 'ref':
                    root, path, sl = v[1], v[2], None
                elif v[0] == 'slice':
                    root, path, sl = v[1], v[2], (v[3], v[4])
                elif v[0] == 'opq':
                    root, path, sl = ('opq', v), (), None
                else:
                    raise Unsupported('dereference of %s' % (v[0],))
            elif e[0] == 'f':
                path = path + (('f', e[1]),)
            elif e[0] == 'd':
                path = path + (('d', e[1]),)
            elif e[0] == 'i':
                i = st.norm(self.get(st, ('l', fr.d, e[1])))
                if sl:
                    i = i + sl[0]
                    sl = None
                path = path + (('idx', i),)
            elif e[0] == 'ci':
                if sl:
                    i = (sl[0] + sl[1] - e[1]) if e[3] else sl[0] + e[1]
                    sl = None
                else:
                    n = self.seqlen(st, self.read(st, root, path))
                    i = (n - e[1]) if e[3] else const(e[1])
                path = path + (('idx', i),)
            elif e[0] == 'ss':
                if sl is None:
                    sl = (ZERO, self.seqlen(st, self.read(st, root, path)))
                end = sl[0] + sl[1] - e[2] if e[3] else sl[0] + e[2]
                sl = (sl[0] + e[1], end - (sl[0] + e[1]))
            elif e[0] == 'oc':
                pass
            else:
                raise Unsupported('place %r' % (e,))
        return root, path, sl

    def place_ty(self, fr, p):
        if isinstance(p, int):
            return fr.fn.locals[p]
        t = fr.fn.locals[p[0]]
        for e in p[1]:
            d = self.T[t]
            if e == '*':
                if d['k'] in ('ref', 'ptr'):
                    t = d['e']
                elif d['k'] == 'adt' and d['args']:
                    t = d['args'][0]
            elif e[0] == 'f':
                t = e[2]
            elif e[0] in ('i', 'ci'):
                t = d['e']
            elif e[0] == 'oc':
                t = e[1]
        return t

    def seqlen(self, st, v):
        if v[0] == 'vec':
            n = ZERO
            for s in v[1]:
                n = n + seglen(s)
            return st.norm(n)
        if v[0] == 'agg':
            return const(len(v[1]))
        if v[0] == 'tab':
            return const(len(self.tabs[v[1]][0]))
        if v[0] == 'tel' and self.T[v[3]]['k'] == 'array':
            return const(self.T[v[3]]['len'])
        raise Unsupported('length of %s' % v[0])

    def operand(self, fr, st, o):
        k = o[0]
        if k in ('c', 'm'):
            p = o[1]
            if isinstance(p, int):
                v = st.mem.get(('l', fr.d, p))
                if v is None:
                    t = self.T[fr.fn.locals[p]]
                    if t['k'] == 'tuple' and not t['f']:
                        return UNIT
                    if t['k'] == 'fndef':
                        return ('fn', fr.fn.locals[p])
                    if t['k'] == 'adt' and t['adt'] == 'struct' and not t['v'][0]['f']:
                        return UNIT
                    if t['k'] == 'closure':
                        return UNIT
                    raise Unsupported('uninitialised local %d of %s' % (p, fr.fn.path))
                return v
            root, path, sl = self.place(fr, st, p)
            if sl is not None:
                raise Unsupported('copy of an unsized place')
            return self.read(st, root, path)
        if k == 'k':
            c = o[1]
            return self.conv(c['v'], c['ty'])
        if k == 'rc':
            return o[1] == 'OverflowChecks'
        raise Unsupported('operand %r' % (o,))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, r, dst):
        k = r[0]
        if k == 'use':
            return self.operand(fr, st, r[1])
        if k in ('ref', 'addr'):
            root, path, sl = self.place(fr, st, r[1])
            if sl is not None:
                return ('slice', root, path, sl[0], sl[1])
            # a reference to an unsized place without metadata cannot occur
            return ('ref', root, path)
        if k in ('bin', 'cbin'):
            a = self.operand(fr, st, r[2])
            b = self.operand(fr, st, r[3])
            t = self.op_ty(fr, r[2])
            if t is None:
                t = self.op_ty(fr, r[3])
            return self.binop(st, r[1], a, b, t, k == 'cbin', self.op_ty(fr, r[3]))
        if k == 'un':
            a = self.operand(fr, st, r[2])
            return self.unop(st, r[1], a, self.op_ty(fr, r[2]))
        if k == 'cast':
            a = self.operand(fr, st, r[2])
            return self.cast(st, r[1], a, self.op_ty(fr, r[2]), r[3])
        if k == 'discr':
            root, path, sl = self.place(fr, st, r[1])
            t = self.place_ty(fr, r[1])
            if self.T[t]['k'] != 'adt':
                return ZERO
            if root not in st.mem:
                live = [v for v in self.T[t]['v'] if all(self.inhabited(f[1]) for f in v['f'])]
                if len(live) == 1:
                    return const(live[0]['d'])      # the only value the type has
            v = self.read(st, root, path)
            if isinstance(v, tuple) and v[0] in ('enum', 'sym', 'tel'):
                x = self.expand(st, v)
                return const(self.T[t]['v'][x[1]]['d'])
            if isinstance(v, tuple) and v[0] == 'opq':
                n = len(self.T[t]['v'])
                if n == 1:
                    return ZERO
            raise Unsupported('discriminant of %r' % (v[0] if isinstance(v, tuple) else v,))
        if k == 'len':
            root, path, sl = self.place(fr, st, r[1])
            if sl:
                return st.norm(sl[1])
            return self.seqlen(st, self.read(st, root, path))
        if k == 'agg':
            vs = tuple(self.operand(fr, st, o) for o in r[2])
            kk = r[1]
            if kk[0] == 'array':
                return ('agg', vs)
            if kk[0] in ('tuple', 'closure'):
                return ('agg', vs)
            if kk[0] == 'adt':
                d = self.T[kk[1]]
                if d['adt'] == 'enum':
                    return ('enum', kk[2], vs)
                if d['adt'] == 'union':
                    return ('opq', 'union')
                return ('agg', vs)
            if kk[0] == 'rawptr':
                if vs[0][0] == 'ref' and isinstance(vs[1], Form):
                    return ('slice', vs[0][1], vs[0][2], ZERO, vs[1])
                return vs[0]
            raise Unsupported('aggregate %r' % (kk,))
        if k == 'rep':
            v = self.operand(fr, st, r[1])
            n = r[2]
            if n <= 64:
                return ('agg', (v,) * n)
            return ('vec', (('R', v, const(n)),), None, self.T[dst]['e'])
        raise Unsupported('rvalue %s' % k)

    def op_ty(self, fr, o):
        if o[0] in ('c', 'm'):
            return self.place_ty(fr, o[1])
        if o[0] == 'k':
            return o[1]['ty']
        return None

    # ------------------------------------------------------------ arithmetic
    def sval(self, st, f, B):
        """signed value of the pattern f (splits on the sign)"""
        h = 1 << (B - 1)
        if st.truth(ge(f - h)):
            return st.norm(f - (1 << B))
        return st.norm(f)

    def wrap(self, st, f, B):
        """pattern of the integer f modulo 2^B for f in (-2^B, 2^(B+1))"""
        m = 1 << B
        f = st.norm(f)
        lo, hi = st.interval(f)
        if lo >= 0 and hi < m:
            return f
        if not f.t:
            return const(f.c % m)
        if lo < 0 and st.truth(lt(f)):
            return self.wrap(st, f + m, B)
        if hi >= m and st.truth(ge(f - m)):
            return self.wrap(st, f - m, B)
        return st.norm(f)

    def truthv(self, st, c):
        return st.truth(c)

    def binop(self, st, op, a, b, t, checked, tb):
        d = self.T[t] if t is not None else {'k': 'int', 'bits': 64, 'signed': False}
        k = d['k']
        if k == 'bool':
            if op in ('Eq', 'Ne'):
                if isinstance(b, bool):
                    r = a if b else neg(a)
                elif isinstance(a, bool):
                    r = b if a else neg(b)
                else:
                    r = st.truth(a) == st.truth(b)
                return r if op == 'Eq' else neg(r)
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, bool):
                        if op == 'BitAnd':
                            return y if x else False
                        if op == 'BitOr':
                            return True if x else y
                        return neg(y) if x else y
                x = st.truth(a)
                if op == 'BitAnd':
                    return b if x else False
                if op == 'BitOr':
                    return True if x else b
                return neg(b) if x else b
            x, y = int(st.truth(a)), int(st.truth(b))
            return {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]
        if k == 'float':
            return self.floatop(st, op, a, b, d['bits'])
        if not isinstance(a, Form) or not isinstance(b, Form):
            if op in ('Eq', 'Ne') and isinstance(a, tuple) and isinstance(b, tuple) and a[0] in ('ref', 'slice') and a == b:
                return op == 'Eq'
            raise Unsupported('%s of %r and %r' % (op, a if isinstance(a, Form) else a[0], b if isinstance(b, Form) else b[0]))
        B = d.get('bits', 64)
        if k == 'char':
            B = 32
        sg = d.get('signed', False)
        a = st.norm(a)
        b = st.norm(b)
        if op in ('Eq', 'Ne'):
            return eq(a - b) if op == 'Eq' else ne(a - b)
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if sg:
                a = self.sval(st, a, B)
                b = self.sval(st, b, B)
            if op == 'Lt':
                return lt(a - b)
            if op == 'Le':
                return ge(b - a)
            if op == 'Gt':
                return lt(b - a)
            return ge(a - b)
        if op == 'Cmp':
            if sg:
                a = self.sval(st, a, B)
                b = self.sval(st, b, B)
            if st.truth(lt(a - b)):
                return ('enum', 0, ())
            return ('enum', 1 if st.truth(eq(a - b)) else 2, ())
        base = op.replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            if sg:
                x, y = self.sval(st, a, B), self.sval(st, b, B)
            else:
                x, y = a, b
            if base == 'Add':
                r = x + y
            elif base == 'Sub':
                r = x - y
            else:
                r = self.mul(st, x, y)
            r = st.norm(r)
            lo, hi = (-(1 << (B - 1)), (1 << (B - 1)) - 1) if sg else (0, (1 << B) - 1)
            if checked:
                ov = not (st.truth(ge(r - lo)) and st.truth(ge(-r + hi)))
                if not ov:
                    return ('agg', (self.wrap(st, r, B) if sg else r, False))
                return ('agg', (self.wrapany(st, r, B), True))
            return self.wrapany(st, r, B)
        if base in ('Div', 'Rem'):
            if sg:
                raise Unsupported('signed division')
            return self.divrem(st, base, a, b, B)
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            return self.bitop(st, base, a, b, B)
        if base in ('Shl', 'Shr'):
            tb_ = self.T[tb] if tb is not None else {}
            if b.t:
                vs = st.values(b)
                if vs is None:
                    raise Unsupported('shift by an unbounded amount %r' % b)
                raise Fork([[eq(b - i)] for i in vs])
            n = b.c
            if n >= B:
                n %= B      # only reached when the check is off
            if base == 'Shl':
                return self.shl(st, a, n, B)
            if sg and st.truth(ge(a - (1 << (B - 1)))):
                s = st.cut(st.bits(a, B), n, B - n) + [(n, 'c', (1 << n) - 1)]
                return st.frombits(s)
            if n == 0:
                return a
            return self.shr(st, a, n, B)
        if op == 'Offset':
            raise Unsupported('pointer offset')
        raise Unsupported('operator %s' % op)

    def wrapany(self, st, r, B):
        lo, hi = st.interval(r)
        m = 1 << B
        if lo >= -m and hi < 2 * m:
            return self.wrap(st, r, B)
        if not r.t:
            return const(r.c % m)
        q = atom(('wrap', r, B), B)
        return av(q)

    def shr(self, st, a, n, B):
        lo, hi = st.interval(a)
        if hi >> n == 0 and lo >= 0:
            return ZERO
        return st.frombits(st.cut(st.bits(a, B), n, B - n))

    def shl(self, st, a, n, B):
        lo, hi = st.interval(a)
        if hi << n < 1 << B:
            return a * (1 << n)
        s = [(n, 'c', 0)] + st.cut(st.bits(a, B), 0, B - n) if n else st.bits(a, B)
        return st.frombits(s)

    def mul(self, st, x, y):
        if not x.t:
            return y * x.c
        if not y.t:
            return x * y.c
        for p, q in ((x, y), (y, x)):
            vs = st.values(p, 16)
            if vs is not None:
                raise Fork([[eq(p - i)] for i in vs])
        lx, hx = st.interval(x)
        ly, hy = st.interval(y)
        c = [lx * ly, lx * hy, hx * ly, hx * hy]
        x, y = sorted((x, y), key=repr)
        return av(atom(('mul', x, y), 128, min(c), max(c), 'len'))

    def divrem(self, st, op, a, b, B):
        if b.t:
            vs = st.values(b, 16)
            if vs is not None:
                raise Fork([[eq(b - i)] for i in vs])
            raise Unsupported('division by a variable')
        n = b.c
        if n == 0:
            raise Panic('DivisionByZero')
        if not a.t:
            return const(a.c // n if op == 'Div' else a.c % n)
        if n & (n - 1) == 0:
            e = n.bit_length() - 1
            s = st.bits(a, B)
            return st.frombits(st.cut(s, e, B - e)) if op == 'Div' else st.frombits(st.cut(s, 0, e)) if e else ZERO
        lo, hi = st.interval(a)
        q = fv(('div', a, n), B, lo // n, hi // n, 'len')
        if not (st.add_ge(a - q * n) and st.add_ge(q * n + (n - 1) - a)):
            st.dead = True
        return st.norm(q) if op == 'Div' else st.norm(a - q * n)

    def bitop(self, st, op, a, b, B):
        if not a.t and not b.t:
            return const({'BitAnd': a.c & b.c, 'BitOr': a.c | b.c, 'BitXor': a.c ^ b.c}[op])
        if not a.t:
            a, b = b, a
        full = (1 << B) - 1
        if not b.t:
            if op == 'BitAnd':
                if b.c == 0:
                    return ZERO
                if b.c == full:
                    return a
                if b.c & (b.c + 1) == 0 and st.interval(a)[1] <= b.c:
                    return a
            elif b.c == 0:
                return a
        if op in ('BitOr', 'BitXor') and b.t:
            # disjoint by size and alignment
            for x, y in ((a, b), (b, a)):
                hi = st.interval(x)[1]
                g = 0
                for _, k in y.t:
                    g = math.gcd(g, k)
                g = math.gcd(g, y.c) if y.c else g
                low = g & -g if g else 0
                if low and hi < low:
                    return st.norm(a + b)
        if a is b:
            return ZERO if op == 'BitXor' else a
        sa = st.bits(a, B)
        sb = st.bits(b, B)
        cuts = set()
        for s in (sa, sb):
            p = 0
            for w, _, _ in s:
                p += w
                cuts.add(p)
        out = []
        p = 0
        # constants cut at bit runs
        for s in (sa, sb):
            q = 0
            for w, k, x in s:
                if k == 'c':
                    prev = None
                    for i in range(w):
                        bit = (x >> i) & 1
                        if prev is not None and bit != prev:
                            cuts.add(q + i)
                        prev = bit
                q += w
        for q in sorted(cuts):
            if q > B:
                break
            w = q - p
            x = st.cut(sa, p, w)
            y = st.cut(sb, p, w)
            p = q
            if len(x) != 1 or len(y) != 1:
                raise Unsupported('bit segments')
            x, y = x[0], y[0]
            if x[1] != 'c':
                x, y = y, x
            if x[1] == 'c':
                ones = x[2] != 0
                if op == 'BitAnd':
                    out.append(y if ones else (w, 'c', 0))
                elif op == 'BitOr':
                    out.append((w, 'c', (1 << w) - 1) if ones else y)
                else:
                    out.append(flip(y) if ones else y)
                continue
            if x == y:
                out.append((w, 'c', 0) if op == 'BitXor' else x)
                continue
            if x[2] is y[2]:     # complementary
                out.append((w, 'c', 0) if op == 'BitAnd' else (w, 'c', (1 << w) - 1))
                continue
            if w <= 2:
                f = st.norm(av(x[2]))
                raise Fork([[eq(f - i)] for i in range(1 << w)])
            n = atom((op, tuple(sorted([av(x[2]), av(y[2])], key=lambda f: f.t[0][0].id)), x[1], y[1]), w)
            out.append((w, 'a', n))
        return st.frombits(out)

    def unop(self, st, op, a, t):
        d = self.T[t]
        if op == 'Not':
            if d['k'] == 'bool':
                return neg(a)
            a = st.norm(a)
            return const((1 << d['bits']) - 1) - a
        if op == 'Neg':
            if d['k'] == 'float':
                return self.bitop(st, 'BitXor', a, const(1 << (d['bits'] - 1)), d['bits'])
            a = st.norm(a)
            if st.truth(eq(a)):
                return ZERO
            return const(1 << d['bits']) - a
        if op == 'PtrMetadata':
            if a[0] == 'slice':
                return st.norm(a[4])
            if a[0] == 'ref':
                return UNIT
        raise Unsupported('unary %s' % op)

    def cast(self, st, kind, a, ts, tt):
        s, t = self.T[ts], self.T[tt]
        if kind == 'IntToInt':
            if s['k'] == 'bool':
                if isinstance(a, bool):
                    return const(int(a))
                if a[0] == 'eq' and len(a[1].t) == 1 and a[1].t[0][0].w == 1 and a[1].c == -1 and a[1].t[0][1] == 1:
                    return st.norm(a[1] + 1)
                return const(int(st.truth(a)))
            if s['k'] == 'adt':      # fieldless enum
                x = self.expand(st, a)
                return const(s['v'][x[1]]['d'] & ((1 << t['bits']) - 1))
            B = t.get('bits', 32)
            A = s.get('bits', 32)
            a = st.norm(a)
            if B > A:
                if s.get('signed') and st.truth(ge(a - (1 << (A - 1)))):
                    return a + ((1 << B) - (1 << A))
                return a
            if B == A:
                return a
            return self.trunc(st, a, A, B)
        if kind.startswith('PointerCoercion(Unsize'):
            if a[0] == 'ref' and s['k'] in ('ref', 'ptr') and self.T[s['e']]['k'] == 'array':
                return ('slice', a[1], a[2], ZERO, const(self.T[s['e']]['len']))
            return a
        if kind.startswith('PointerCoercion'):
            return a
        if kind in ('PtrToPtr', 'Subtype'):
            return a
        if kind == 'Transmute' or kind == 'BoxDerefTransmute':
            bs, bt = self.bits_of(ts), self.bits_of(tt)
            if isinstance(a, Form) and (bs == bt or s['k'] == 'adt') and t['k'] in ('int', 'float', 'char'):
                return a
            if isinstance(a, tuple) and a[0] in ('ref', 'slice', 'opq', 'vec', 'agg'):
                if t['k'] in ('int', 'float'):
                    while a[0] == 'agg' and s['k'] == 'adt' and len(a[1]) == 1:
                        a = a[1][0]                 # NonZero and the like
                        if isinstance(a, Form):
                            return a
                    if a[0] == 'agg' and s['k'] == 'array' and self.bits_of(s['e']) == 8 and len(a[1]) * 8 == t['bits']:
                        return self.from_bytes(st, list(a[1]))
                    if a[0] == 'ref' and a[1][0] == 'h':
                        return const(1 << 20)       # the address of a new box, seen by alignment and null checks only
                    raise Unsupported('transmute %s to %s' % (s['n'], t['n']))
                return a
            if t['k'] == 'array' and isinstance(a, Form):
                return ('agg', tuple(self.to_bytes(st, a, s['bits'])))
            if t.get('path') == 'std::option::Option' and isinstance(a, Form):
                return ('enum', 0, ()) if st.truth(eq(a)) else ('enum', 1, (a,))
            if t['k'] == 'adt' and isinstance(a, Form):
                return a
            raise Unsupported('transmute %s to %s' % (s['n'], t['n']))
        if kind == 'IntToFloat':
            a = st.norm(a)
            if a.t:
                vs = st.values(a)
                if vs is not None:
                    raise Fork([[eq(a - i)] for i in vs])
                return fv(('i2f', a, t['bits']), t['bits'])
            v = a.c
            if s['signed'] and v >> (s['bits'] - 1):
                v -= 1 << s['bits']
            return fconst(float(v), t['bits'])
        if kind == 'FloatToInt':
            a = st.norm(a)
            if a.t:
                raise Unsupported('float to int of a variable')
            x = fval(a.c, s['bits'])
            lo, hi = (-(1 << (t['bits'] - 1)), (1 << (t['bits'] - 1)) - 1) if t['signed'] else (0, (1 << t['bits']) - 1)
            if x != x:
                return ZERO
            x = max(lo, min(hi, math.trunc(x) if abs(x) != math.inf else (hi if x > 0 else lo)))
            return const(x % (1 << t['bits']))
        if kind == 'FloatToFloat':
            a = st.norm(a)
            if a.t:
                return fv(('f2f', a, t['bits']), t['bits'])
            return fconst(fval(a.c, s['bits']), t['bits'])
        raise Unsupported('cast %s' % kind)

    def trunc(self, st, a, A, B):
        lo, hi = st.interval(a)
        if lo >= 0 and hi < 1 << B:
            return a
        if not a.t:
            return const(a.c & ((1 << B) - 1))
        return st.frombits(st.cut(st.bits(a, A), 0, B))

    def to_bytes(self, st, a, B):
        s = st.bits(a, B)
        return [st.frombits(st.cut(s, i, 8)) for i in range(0, B, 8)]

    def from_bytes(self, st, bs):
        r = ZERO
        for i, b in enumerate(bs):
            r = r + b * (1 << (8 * i))
        return st.norm(r)

    def floatop(self, st, op, a, b, B):
        a = st.norm(a)
        b = st.norm(b)
        if a.t or b.t:
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return ('is', ('fcmp', op, a, b, B), True)
            return fv(('fop', op, a, b, B), B)
        x, y = fval(a.c, B), fval(b.c, B)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]
        try:
            r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Div': lambda: x / y, 'Rem': lambda: math.fmod(x, y)}[op]()
        except ZeroDivisionError:
            r = math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y)
        return fconst(r, B)

    # ------------------------------------------------------------ execution
    def explore(self, fr, st, bb, loop):
        """run from block bb; loop is None or (header, blocks) of the loop being iterated"""
        outs = []
        work = [(st, bb, 0)]
        fn = fr.fn
        while work:
            st, bb, idx = work.pop()
            stmts, term = fn.blocks[bb]
            try:
                n = len(stmts)
                self.visited.add((fn.name, bb))
                while idx < n:
                    self.steps += 1
                    self.stmt(fr, st, stmts[idx])
                    idx += 1
                if self.steps > self.max_steps:
                    raise Unsupported('step budget exhausted')
                self.steps += 1
                nxt = self.term(fr, st, term, outs, bb)
            except Fork as f:
                self.fork(f, st, lambda s: work.append((s, bb, idx)))
                continue
            except Panic as p:
                self.panic(fr, p.kind, st, line_of(stmts, term, idx))
                continue
            except Unsupported as u:
                if not hasattr(u, 'where'):
                    u.where = fr.chain + ' bb%d stmt %d (line %s)' % (bb, idx, line_of(stmts, term, idx))
                    u.args = ('%s at %s' % (u.args[0], u.where),)
                raise
            for s2, b2 in nxt:
                self.enter(fr, s2, b2, loop, outs, work)
        return outs

    def fork(self, f, st, push):
        if self.hook is not None:
            alt = self.hook.fork(self, st, f.alts)
            if alt is not None:
                f = Fork(alt)
        live = []
        for alt in f.alts:
            s = st.copy()
            good = True
            for c in alt:
                if not s.assume(c):
                    good = False
                    break
            if good and not s.dead:
                live.append(s)
        if len(live) > 1 and any(len(a) for a in f.alts):
            live = [s for s in live if s.consistent()]
        for s in reversed(live):
            push(s)

    def enter(self, fr, st, b, loop, outs, work):
        if st.dead:
            return
        if loop is not None:
            if b == loop[0]:
                outs.append(('back', st))
                return
            if b not in loop[1]:
                outs.append(('exit', st, b))
                return
        if b in fr.fn.loops:
            from . import loops
            for o in loops.run_loop(self, fr, st, b):
                if o[0] == 'ret':
                    outs.append(o)
                else:
                    self.enter(fr, o[1], o[2], loop, outs, work)
            return
        work.append((st, b, 0))

    def stmt(self, fr, st, s):
        k = s[0]
        if k == '=':
            t = fr.fn.locals[s[1]] if isinstance(s[1], int) else None
            v = self.rvalue(fr, st, s[2], t if t is not None else (self.place_ty(fr, s[1]) if s[2][0] == 'rep' else None))
            if isinstance(s[1], int):
                st.mem[('l', fr.d, s[1])] = v
            else:
                root, path, sl = self.place(fr, st, s[1])
                if root not in st.mem and root[0] == 'l':
                    st.mem[root] = ('uninit', ())
                self.write(st, root, path, v)
        elif k == 'dead':
            st.mem.pop(('l', fr.d, s[1]), None)
        elif k == 'assume':
            c = self.operand(fr, st, s[1])
            if c is False or (c is not True and not st.assume(c)):
                st.dead = True
                raise Fork([])
        elif k == 'sd':
            root, path, sl = self.place(fr, st, s[1])
            v = self.read(st, root, path)
            if v[0] == 'enum':
                self.write(st, root, path, ('enum', s[2], v[2]))
            else:
                raise Unsupported('set discriminant')
        else:
            raise Unsupported('statement %s' % (s,))

    def panic(self, fr, kind, st, line=None):
        if not st.consistent():
            return
        p = (kind, fr.chain, fr.fn.path, st, line)
        self.panics.append(p)
        if Interp.EARLY:
            Interp.EARLY(p)

    def term(self, fr, st, t, outs, bb):
        k = t[0]
        if k == 'goto':
            return [(st, t[1])]
        if k == 'switch':
            v = self.operand(fr, st, t[1])
            if isinstance(v, bool):
                v = int(v)
                for val, b in t[2]:
                    if val == v:
                        return [(st, b)]
                return [(st, t[3])]
            if isinstance(v, Form):
                v = st.norm(v)
                if not v.t:
                    for val, b in t[2]:
                        if val == v.c:
                            return [(st, b)]
                    return [(st, t[3])]
                alts = []
                for val, b in t[2]:
                    x = st.decide(eq(v - val))
                    if x is True:
                        return [(st, b)]
                    if x is None:
                        alts.append([eq(v - val)])
                if not alts:
                    return [(st, t[3])]
                alts.append([ne(v - val) for val, b in t[2]])
                raise Fork(alts)
            if isinstance(v, tuple) and v[0] in ('ge', 'eq', 'ne', 'is', 'isnot'):
                x = int(st.truth(v))
                for val, b in t[2]:
                    if val == x:
                        return [(st, b)]
                return [(st, t[3])]
            raise Unsupported('switch on %r' % (v,))
        if k == 'assert':
            c = self.operand(fr, st, t[1])
            if st.truth(c) != t[2]:
                raise Panic(t[3])
            return [(st, t[4])]
        if k == 'drop':
            self.drop(fr, st, t)
            return [(st, t[2])]
        if k == 'return':
            v = st.mem.get(('l', fr.d, 0), UNIT)
            outs.append(('ret', st, v))
            return []
        if k in ('unreachable',):
            if st.consistent():
                raise Unsupported('unreachable code reached')
            return []
        if k in ('resume', 'abort'):
            return []
        if k == 'call':
            return self.call(fr, st, t)
        raise Unsupported('terminator %s' % k)

    def drop(self, fr, st, t):
        d = self.T[t[3]]
        if self.user_drop(t[3]):
            raise Unsupported('user Drop implementation of %s' % d['n'])

    def user_drop(self, t, seen=None):
        seen = seen or set()
        if t in seen:
            return False
        seen.add(t)
        d = self.T[t]
        if d['k'] == 'adt':
            if d.get('dtor') and d['crate'].startswith('httlib'):
                return True
            if d['crate'].startswith('httlib'):
                return any(self.user_drop(f[1], seen) for v in d['v'] for f in v['f'])
            return any(self.user_drop(a, seen) for a in d['args'] if isinstance(a, int))
        if d['k'] in ('tuple', 'closure'):
            return any(self.user_drop(f, seen) for f in d['f'] or [])
        return False

    def call(self, fr, st, t):
        c = t[1]
        args = [self.operand(fr, st, o) for o in t[2]]
        argtys = t[6]
        dty = t[7]
        if 'ptr' in c:
            f = self.operand(fr, st, c['ptr'])
            if isinstance(f, tuple) and f[0] == 'fnp':
                iid = f[1]
            elif isinstance(f, tuple) and f[0] == 'fn':
                iid = None
            else:
                raise Unsupported('call through %r' % (f,))
        else:
            iid = c['i']
        if iid is None:
            m = self.models.find_virtual(c.get('d'))
            if m is None:
                raise Unsupported('unresolved call %s' % c.get('d'))
            inst = {'path': c.get('d'), 'name': c.get('d'), 'intr': None, 'args': c.get('a', []), 'body': None, 'crate': '', 'kind': 'Virtual', 'empty': False}
        else:
            inst = self.insts[iid]
            if c.get('d') in RUSTCALL:
                # the calling convention of closures passes the elements of the last argument
                x = args[-1]
                args = args[:-1] + [self.project(st, x, ('f', i)) for i in range(len(self.T[argtys[-1]]['f']))]
        s2 = st.copy()
        results = self.invoke(fr, s2, iid, inst, args, argtys, dty)
        if t[4] is None:
            if results:
                raise Unsupported('diverging call %s returned' % inst['path'])
            return []
        out = []
        for s, v in results:
            if isinstance(t[3], int):
                s.mem[('l', fr.d, t[3])] = v
            else:
                root, path, sl = self.place(fr, s, t[3])
                self.write(s, root, path, v)
            out.append((s, t[4]))
        return out

    def invoke(self, fr, st, iid, inst, args, argtys, dty):
        self.calls[inst['path']] = self.calls.get(inst['path'], 0) + 1
        m = self.models.find(self, inst)
        if m is not None:
            r = m(self, st, args, Call(inst, argtys, dty, fr))
            if isinstance(r, Multi):
                return r.outs
            return [(st, r)]
        if inst['body'] is None:
            if inst['empty']:
                return [(st, UNIT)]
            raise Unsupported('call of %s without a body or model' % inst['path'])
        return self.run_fn(fr, st, iid, args)

    def run_fn(self, fr, st, iid, args):
        fn = self.fn(iid)
        d = fr.d + 1 if fr else 0
        if d > 60:
            raise Unsupported('recursion in %s' % fn.path)
        if fn.spread is not None:
            # the spread argument is a tuple
            n = fn.spread
            args = args[:n - 1] + [('agg', tuple(args[n - 1:]))]
        if len(args) != fn.argc:
            raise Unsupported('argument count of %s' % fn.path)
        joins = getattr(self.hook, 'joins', 0)
        E = st.copy() if joins else None
        for i, a in enumerate(args):
            st.mem[('l', d, i + 1)] = a
        nf = Frame(fn, d, (fr.chain + ' > ' if fr else '') + fn.path.split('::')[-1])
        res = []
        for o in self.explore_fn(nf, st):
            s, v = o[1], o[2]
            for i in range(len(fn.locals)):
                s.mem.pop(('l', d, i), None)
            res.append((s, v))
        if joins and len(res) >= joins:
            from . import loops
            res = loops.join_returns(self, nf, E, res)
        return res

    def explore_fn(self, nf, st):
        outs = []
        work = []
        self.enter(nf, st, 0, None, outs, work)
        for s, b, i in work:
            outs.extend(self.explore(nf, s, b, None))
        return outs

    def run_root(self, name, args, st=None):
        iid = self.dump['roots'][name]
        st = st or St()
        return self.run_fn(None, st, iid, args)


def tablen(tid, path):
    """length of the sequence a table refers to at a path; its bounds are those of the whole table"""
    js = [TABS[tid]]
    for i in path:
        if isinstance(i, tuple) and i and i[0] == 'v':
            js = [x['f'][i[2]] for x in js if x['v'] == i[1]]
        elif isinstance(i, Form) and i.t:
            js = [y for x in js for y in x]
        else:
            i = i.c if isinstance(i, Form) else i
            js = [x[i] for x in js if i < len(x)]
    ls = [len(x['r']) for x in js]
    return fv(('tabl', tid, path), 64, min(ls), max(ls), 'len')


class Call:
    __slots__ = ('inst', 'argtys', 'dty', 'fr')

    def __init__(self, inst, argtys, dty, fr):
        self.inst = inst
        self.argtys = argtys
        self.dty = dty
        self.fr = fr


class Multi:
    def __init__(self, outs):
        self.outs = outs


OPENSTRUCT = {'std::ops::Range', 'std::ops::RangeFrom', 'std::ops::RangeTo', 'std::ops::RangeInclusive', 'std::ops::RangeFull'}


def line_of(stmts, term, idx):
    try:
        if idx < len(stmts):
            for s in stmts[idx:]:
                if s[0] == '=':
                    return s[3]
        if term[0] == 'call':
            return term[5]
        if term[0] == 'assert':
            return term[5]
    except Exception:
        pass
    return None


def st_norm_int(st, p):
    if isinstance(p, Form):
        p = st.norm(p)
        return p.c if not p.t else p
    return p


def flip(s):
    if s[1] == 'c':
        return (s[0], 'c', s[2] ^ ((1 << s[0]) - 1))
    return (s[0], 'n' if s[1] == 'a' else 'a', s[2])


def fval(c, B):
    return struct.unpack('<d' if B == 64 else '<f', c.to_bytes(B // 8, 'little'))[0]


def fconst(x, B):
    try:
        return const(int.from_bytes(struct.pack('<d' if B == 64 else '<f', x), 'little'))
    except OverflowError:
        return const(int.from_bytes(struct.pack('<f', math.copysign(math.inf, x)), 'little'))


# ------------------------------------------------------------------ sequences
def seglen(s):
    if s[0] == 'L':
        return const(len(s[1]))
    if s[0] == 'S':
        return s[3]
    return s[2]


def joinsegs(*parts):
    out = []
    for p in parts:
        for s in p:
            if s[0] == 'L':
                if not s[1]:
                    continue
                if out and out[-1][0] == 'L':
                    out[-1] = ('L', out[-1][1] + s[1])
                    continue
            elif s[0] == 'S':
                if not s[3].t and s[3].c == 0:
                    continue
                if out and out[-1][0] == 'S' and out[-1][1] == s[1] and (out[-1][2] + out[-1][3]) is s[2]:
                    out[-1] = ('S', s[1], out[-1][2], out[-1][3] + s[3])
                    continue
            elif not s[2].t and s[2].c == 0:
                continue
            out.append(s)
    return tuple(out)


def split(st, segs, p):
    """segments before and after position p (0 <= p <= length is the caller's business)"""
    left = []
    p = st.norm(p)
    for i, s in enumerate(segs):
        if not p.t and p.c == 0:
            return tuple(left), tuple(segs[i:])
        n = st.norm(seglen(s))
        if n is p:
            left.append(s)
            return tuple(left), tuple(segs[i + 1:])
        d = st.decide(ge(p - n))
        if d is None and s[0] != 'L' and st.decide(ge(n - p)) is True:
            d = False
        if d is None:
            d = st.truth(ge(p - n))
        if d:
            left.append(s)
            p = st.norm(p - n)
            continue
        # inside s
        if s[0] == 'L':
            if p.t:
                raise Fork([[eq(p - k)] for k in range(len(s[1]))])
            a, b = ('L', s[1][:p.c]), ('L', s[1][p.c:])
        elif s[0] == 'S':
            a, b = ('S', s[1], s[2], p), ('S', s[1], st.norm(s[2] + p), st.norm(s[3] - p))
        else:
            a, b = ('R', s[1], p), ('R', s[1], st.norm(s[2] - p))
        left.append(a)
        return joinsegs(left), joinsegs((b,), segs[i + 1:])
    return tuple(left), ()
