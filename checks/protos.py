"""Protobuf properties C24-C33 decided by the product analyses of protodec and protoenc."""
from engine.extract import extract
from engine.interp import *
from engine.models import *
from engine.ghost import *
from engine.par import par
from . import protodec, protoenc
from .protoenc import KINDS, LITNAME, VAR, describe, entry, panic_text

FROMS = {'bool': 'bool', 'i32': 'int32', 'i64': 'int64', 'u32': 'uint32', 'u64': 'uint64', 'f32': 'float', 'f64': 'double', 'bytes': 'bytes'}
ALLP = tuple('C%d' % i for i in range(24, 34))


def split_kind(r):
    k = r.split('_', 3)[3]
    return (k[:-4], True) if k.endswith('_vec') else (k, False)


def conv_root(d, root):
    """conversion of an arbitrary literal: no panic, termination"""
    I = Interp(d, Models({}), max_steps=6000000)
    I.opts['maxconst'] = 8
    b = I.insts[d['roots'][root]]['body']
    outs = I.run_root(root, [I.sym('lit', b['locals'][1])])
    out = []
    for p in I.panics:
        cats, text = panic_text(p)
        out.append((('C24',), '%s: %s' % (entry(root), text), describe(p[3])))
    for n in I.nonterm:
        out.append((('C24',), '%s: no progress in a loop (%s)' % (entry(root), n[0]), ''))
    if not outs and not out:
        out.append((('C24',), '%s: no path returns' % entry(root), ''))
    return out, {'returns': len(outs)}, len(outs)


def raw_root(d, root):
    """bytes and strings come back unchanged"""
    I = Interp(d, Models({}), max_steps=6000000)
    I.opts['maxconst'] = 8
    src = (('S', 'bytes', ZERO, lenv(('len', 'bytes'))),)
    u8 = I.u8()
    st0 = St()
    outs = I.run_root(root, [('vec', src, slen(src), u8)], st0)
    out = []
    kinds = {}

    def verdict(st, v):
        if root.endswith('bytes'):
            if not seq_same(I, st, v[1], src, u8):
                raise Viol(('C30',), 'the bytes do not come back unchanged')
        return 'value'
    for s, v in outs:
        work = [s]
        while work:
            s = work.pop()
            t = s.copy()
            try:
                r = verdict(t, v)
                kinds[r] = kinds.get(r, 0) + 1
            except Fork as e:
                I.fork(e, s, work.append)
            except Viol as e:
                if s.consistent():
                    out.append((e.kind[1], '%s: %s' % (entry(root), e.kind[2]), describe(s)))
    for p in I.panics:
        cats, text = panic_text(p)
        out.append((('C24', 'C30'), '%s: %s' % (entry(root), text), describe(p[3])))
    for n in I.nonterm:
        out.append((('C24', 'C30'), '%s: no progress in a loop (%s)' % (entry(root), n[0]), ''))
    if not outs and not out:
        out.append((('C24', 'C30'), '%s: no path returns' % entry(root), ''))
    return out, kinds, len(outs)


def from_root(d, root):
    """EncoderLit::from keeps the value and picks the literal of its type"""
    kind, vecq = split_kind(root)
    cat = ('C31',) if vecq else ('C30',)
    want = LITNAME[FROMS[kind]] + ('Vec' if vecq else '')
    I = Interp(d, Models({}), max_steps=100000)
    b = I.insts[d['roots'][root]]['body']
    t = protoenc.deref_ty(I, b['locals'][1])
    st = St()
    src = I.sym('val', t)
    st.mem[('h', 'val')] = src
    a = ('ref', ('h', 'val'), ())
    if I.T[I.T[b['locals'][1]]['e']]['k'] == 'slice':
        a = ('slice', ('h', 'val'), (), ZERO, slen(src[1]))
    outs = I.run_root(root, [a], st)
    out = []
    for s, v in outs:
        v = I.expand(s, v)
        n = protoenc.variant_named(I, b['locals'][0], v[1])
        okv = n == want and isinstance(v[2][0], tuple) and v[2][0][0] in ('ref', 'slice')
        if okv:
            r = v[2][0]
            if r[0] == 'ref':
                okv = same(I, s, I.read(s, r[1], r[2]), src) if not vecq and kind != 'bytes' else seq_same(I, s, I.read(s, r[1], r[2])[1], src[1], src[3])
            else:
                okv = seq_same(I, s, segs_any(I, s, r), src[1], src[3])
        if not okv:
            out.append((cat, '%s: gives %s, not %s of the same value' % (entry(root), n, want), ''))
    for p in I.panics:
        out.append((cat, '%s: panic %s' % (entry(root), panic_text(p)[1]), ''))
    if not outs and not out:
        out.append((cat, '%s: no path returns' % entry(root), ''))
    return out, {want: len(outs)}, len(outs)


def session_job(d):
    I, h, outs = protodec.session(d)
    out = []
    for p in I.panics:
        cats, text = panic_text(p)
        out.append((cats or ('C24', 'C25', 'C26', 'C27', 'C29'), 'Decoder::decode: %s' % text, describe(p[3])))
    for n in I.nonterm:
        if not n[0].startswith('vp_protos::root_p_session '):
            out.append((('C24', 'C25', 'C26', 'C27', 'C29'), 'Decoder::decode: no progress in a loop (%s)' % n[0], ''))
    # the reference must have seen every kind of ending
    for k in ('under', 'key32', 'tag0', 'wire', 'over0', 'over1', 'over2'):
        if not h.steps.get(k) and not out:
            out.append((('C24', 'C25', 'C26', 'C27', 'C29'), 'Decoder::decode: no call ends with reference outcome %s' % k, ''))
    kinds = {'reference outcome ' + k: v for k, v in h.steps.items()}
    kinds['loop invariants'] = len(I.loopinfo)
    return out, kinds, len(outs) + 1


def jobs_for(d, pid):
    """(job, weight) list deciding one property"""
    enc, lit, trip, conv, frm, raw = [], [], [], [], [], []
    for r in sorted(d['roots']):
        if r.endswith('_default'):
            continue
        if r.startswith(('root_p_enc_', 'root_p_lenc_')):
            enc.append(('enc', r) + split_kind(r))
        elif r in ('root_p_lit_bytes', 'root_p_lit_string'):
            raw.append(('raw', r, 'bytes', False))
        elif r.startswith('root_p_lit_'):
            k = split_kind(r)
            lit.append(('any', r) + k)
            if not k[1]:
                trip.append(('trip', r) + k)
        elif r.startswith('root_p_conv_'):
            conv.append(('conv', r, '', False))
        elif r.startswith('root_p_from_'):
            frm.append(('from', r) + split_kind(r))
    ses = [('session', 'root_p_session', '', False)]
    isvec = lambda j: j[3]
    sc = lambda js: [j for j in js if not j[3]]
    vs = lambda js: [j for j in js if j[3]]
    if pid == 'C24':
        return ses + lit + trip + conv + raw
    if pid in ('C25', 'C26'):
        return ses
    if pid == 'C27':
        return ses + enc
    if pid == 'C28':
        return enc
    if pid == 'C29':
        return ses + [j for j in lit if KINDS[j[2]][3] in VAR]
    if pid == 'C30':
        return sc(enc) + sc(lit) + trip + sc(frm) + raw
    if pid == 'C31':
        return vs(enc) + vs(lit) + vs(frm)
    return enc                                          # C32, C33


def run_job(d, j):
    if j[0] == 'session':
        return session_job(d)
    if j[0] == 'enc':
        return protoenc.enc_root(d, *j[1:])
    if j[0] in ('any', 'trip'):
        return protoenc.lit_root(d, j[1], j[2], j[3], j[0])
    if j[0] == 'conv':
        return conv_root(d, j[1])
    if j[0] == 'raw':
        return raw_root(d, j[1])
    return from_root(d, j[1])


RULE = {
    'C24': 'every path of the decoder and the conversions returns',
    'C25': 'the decoder and the reference reader keep the same unread bytes, field in progress and delivered fields over any sequence of calls',
    'C26': 'a call ends only when the reference reader finds no further complete item, and returns the bytes it consumed',
    'C27': 'only valid keys are delivered or written, and invalid ones are refused without effect',
    'C28': 'keys, lengths and integers are written as their minimal LEB128 groups',
    'C29': 'varints are read as the reference reader reads them, over-long and truncated ones refused',
    'C30': 'the bytes written for a scalar are its protobuf encoding and convert back to the same value',
    'C31': 'a packed list is written as length and element encodings in order and converts back element by element',
    'C32': 'the returned size is the number of bytes given to the writer',
    'C33': 'a writer failure ends the call with the interruption error and nothing more is written',
}
MIN = {'C24': 30, 'C25': 1, 'C26': 1, 'C27': 40, 'C28': 40, 'C29': 10, 'C30': 60, 'C31': 40, 'C32': 50, 'C33': 50}


def decide(pid, rep):
    d = extract('protos')
    rep.count('functions in the MIR dump', len(d['insts']))
    jobs = jobs_for(d, pid)
    rule = RULE[pid]
    for j, r in zip(jobs, par(lambda j: run_job(d, j), jobs, bad=lambda c: pid in c)):
        if r[0] == 'skip':
            rep.count('analyses not completed because another one has an alarm')
            continue
        if r[0] == 'exc':
            rep.ob('the analysis of an entry point completes', False, '%s %s' % (entry(j[1]), r[1].split(':')[0]), r[1])
            continue
        out, kinds, n = r
        bad = [o for o in out if pid in o[0]]
        for k, v in kinds.items():
            rep.count('paths: ' + k, v)
            if not bad and k != 'loop invariants':
                # every abstract path checked is one obligation of this entry point
                o = rep.obl.setdefault(rule, [0, 0])
                o[0] += v
                o[1] += v
        rep.count('entry points')
        rep.ob(rule, not bad, bad[0][1] if bad else None, '\n'.join('%s\n   %s' % (o[1], o[2]) for o in bad[:5]),
               sample='%s (%s): %s' % (entry(j[1]), j[0], ', '.join('%s %d' % x for x in kinds.items())))
    rep.floor(rule, MIN[pid])


for _p in RULE:
    globals()[_p] = (lambda p: lambda rep: decide(p, rep))(_p)
