"""HPACK properties decided by the product analyses of hpack.py (indexing table), hdec.py (decoder) and henc.py (encoder)
over arbitrary sequences of calls."""
from engine.extract import extract
from engine.interp import *
from engine.models import Models
from engine.par import par
from . import hpack, hdec, henc, huff
from .protoenc import describe, panic_text

TABLE = ('C09', 'C10', 'C12')
DEC = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C14', 'C15')
ENC = ('C13', 'C14', 'C15', 'C16', 'C17')


def report(I, h, cats, what, own):
    """alarms of one session analysis; the loop over the calls itself never ends"""
    out = []
    for p in I.panics:
        c, text = panic_text(p)
        out.append((c or cats, '%s: %s' % (what, text), describe(p[3])))
    for n in I.nonterm:
        if not n[0].startswith('vp_hpack::%s ' % own):
            out.append((cats, '%s: no progress in a loop (%s)' % (what, n[0]), ''))
    kinds = dict(h.checks)
    kinds.update({'call ends with ' + k: v for k, v in getattr(h, 'ends', {}).items()})
    kinds.update({'table operation ' + k: v for k, v in getattr(h, 'tops', {}).items()})
    kinds['loop invariants'] = len(I.loopinfo)
    return out, kinds


TOPS = {0: 'insert', 1: 'update_max_dynamic_size', 2: 'get', 3: 'len and sizes', 4: 'find', 5: 'iter'}
EOPS = dict(henc.KIND)
EOPS[0] = 'max_dynamic_size'
DOPS = {0: 'set_max_dynamic_size', 1: 'max_dynamic_size', 2: 'decode', 3: 'decode_exact'}


def name(j):
    if j[0] == 'huff':
        return 'huffman decode at %d bits' % j[1] if j[1] else 'huffman encode'
    return '%s over %s' % (j[1], ', '.join({'table': TOPS, 'dec': DOPS, 'enc': EOPS}[j[0]][o] for o in j[2]))


def run_job(d, hd, j):
    if j[0] == 'table':
        I, h, outs = hpack.table_session(d, j[1], j[2])
        return report(I, h, TABLE + ('C01', 'C03', 'C04', 'C05', 'C13', 'C14', 'C17'), 'Table: %s' % ', '.join(TOPS[o] for o in j[2]), 'table_session')
    if j[0] == 'dec':
        I, h, outs = hdec.dec_session(d, j[1], j[2])
        return report(I, h, DEC, 'Decoder: %s' % ', '.join(DOPS[o] for o in j[2]), 'dec_session')
    if j[0] == 'enc':
        I, h, outs = henc.enc_session(d, j[1], j[2])
        return report(I, h, ENC, 'Encoder: %s' % ', '.join(EOPS[o] for o in j[2]), 'enc_session')
    out, kinds = huff.enc_job(hd) if j[1] == 0 else huff.dec_job(hd, j[1])
    return out, {'huffman ' + k: v for k, v in kinds.items()}


def fields_of(d, root):
    """number of fields of the struct a root returns"""
    inst = d['insts'][d['roots'][root]]
    t = d['types'][inst['body']['locals'][0]]
    return len(t['v'][0]['f']) if t['k'] == 'adt' else None


def decjobs(d, tier):
    # the state of a decoder is its limit, its speed and its table, all of them tied to the reference between calls;
    # with more state the operations are analysed together
    if fields_of(d, 'root_d_new') == 3 and tier != 'thorough':
        return [('dec', 'root_d_session', (0, 1, 2)), ('dec', 'root_d_session', (0, 1, 3)), ('dec', 'root_d_session_def', (0, 1, 3))]
    return [('dec', r, (0, 1, 2, 3)) for r in ('root_d_session', 'root_d_session_def')]


def encjobs(d, tier):
    # the state of an encoder is its table, tied to the reference between calls
    split = fields_of(d, 'root_e_new') == 1 and tier != 'thorough'
    sets = [(0, 1, 2, 5), (3, 6), (4,), (7,)] if split else [(0, 1, 2, 3, 4, 5, 6, 7)]
    return [('enc', r, s) for r in ('root_e_session', 'root_e_session_def') for s in sets]


def tables(*sets):
    return [('table', r, s) for r in ('root_t_session', 'root_t_session_def') for s in sets]


GET, SIZES, FIND, ITER = (0, 1, 2), (0, 1, 3), (0, 1, 4), (0, 1, 5)


def jobs_for(d, pid, tier):
    huffs = [('huff', s) for s in (1, 2, 3, 4, 5)]
    if pid == 'C09':
        return tables(SIZES)
    if pid == 'C10':
        return tables(GET, ITER, SIZES)
    if pid == 'C12':
        return tables(FIND)
    e = encjobs(d, tier)
    if pid == 'C13':
        return e + tables(FIND, GET)
    if pid == 'C16':
        return e + [('huff', 0)]
    if pid == 'C17':
        return e + tables(GET, SIZES, FIND)
    j = decjobs(d, tier)
    if pid == 'C14':
        return e + j + tables(GET, SIZES, FIND)
    if pid == 'C15':
        return e + j
    if pid == 'C01':
        return j + tables(GET, SIZES) + huffs
    if pid == 'C08':
        return j + huffs
    if pid in ('C03', 'C04', 'C05'):
        return j + tables(GET, SIZES)
    return j


# what else refutes a property: an alarm of these sessions with one of these categories
ALSO = {'C01': {'huff': ('C23',)}, 'C08': {'huff': ('C21', 'C22')},
        'C03': {'table': ('C10',)}, 'C04': {'table': ('C09', 'C10')}, 'C05': {'table': ('C09',)},
        'C13': {'table': ('C10', 'C12')}, 'C14': {'table': ('C09', 'C10', 'C12')}, 'C16': {'huff': ('C20',)}}

END = 'end of a call'
DOWN = {'C01': {END: 100}, 'C02': {'call ends with InvalidIndex': 1, 'call ends with IntegerUnderflow': 1, 'call ends with IntegerOverflow': 1, 'call ends with InvalidInput': 1, 'call ends with InvalidMaxDynamicSize': 1},
        'C03': {END: 1, 'call ends with InvalidIndex': 1, 'call ends with end': 1}, 'C04': {END: 1, 'table operation insert': 1, 'table operation resize': 1},
        'C05': {'reported limit': 1, 'call ends with InvalidMaxDynamicSize': 1, 'table operation resize': 1}, 'C06': {'call ends with end': 1},
        'C07': {'call ends with IntegerUnderflow': 1, 'call ends with IntegerOverflow': 1, 'call ends with end': 1},
        'C08': {'call ends with IntegerUnderflow': 1, 'call ends with InvalidInput': 1, 'call ends with end': 1}}

EM = {'call ends with %s: emitted' % k: 1 for k in henc.KIND.values()}
BADIDX = {'call ends with %s: InvalidIndex' % henc.KIND[k]: 1 for k in (2, 3, 5, 6)}

RULES = {
    'C01': ('every path of a call returns', DOWN['C01']),
    'C02': ('a failing call leaves the input at the failing field and has delivered and indexed exactly the fields before it', DOWN['C02']),
    'C03': ('the fields delivered are those the reference decoder reads', DOWN['C03']),
    'C04': ('after every call the table is the one that the instructions read so far command', DOWN['C04']),
    'C05': ('size updates are accepted up to the configured limit', DOWN['C05']),
    'C06': ('the octets removed are those of the fields read and their number is returned', DOWN['C06']),
    'C07': ('integers are read as the reference decoder reads them, over-long and truncated ones refused', DOWN['C07']),
    'C08': ('strings are read as the reference decoder reads them, truncated and undecodable ones refused', DOWN['C08']),
    'C13': ('every call appends the representation the reference encoder writes', EM),
    'C14': ('after every call the table is the one a decoder of the output would have', dict(EM, **{'table operation insert': 1, 'table operation resize': 1})),
    'C15': ('a never-indexed header is written as a never-indexed literal and enters no table', {'call ends with %s: emitted' % henc.KIND[k]: 1 for k in (3, 4, 6, 7)}),
    'C16': ('every octet written is that of the reference representation', EM),
    'C17': ('every path of a call returns, and a bad index changes nothing', dict(EM, **BADIDX)),
    'C09': ('after any sequence of operations the table reports the sum of its entry sizes, within its maximum', {'reported sizes': 8, 'eviction leaves the longest prefix that fits': 40}),
    'C10': ('after any sequence of operations every index yields the entry of the reference table', {'entry at an index': 20, 'entry yielded by iteration': 60, 'reported sizes': 8, 'eviction leaves the longest prefix that fits': 40}),
    'C12': ('after any sequence of operations a search gives the smallest index of a best match', {'result of a search': 30}),
}


# the public names of the flag bits: position in root_consts, name, documented bit, properties
FLAGS = [(0, 'Encoder::HUFFMAN_NAME', 0x1, ('C13', 'C16')), (1, 'Encoder::HUFFMAN_VALUE', 0x2, ('C13', 'C16')),
         (2, 'Encoder::WITH_INDEXING', 0x4, ('C13', 'C14')), (3, 'Encoder::NEVER_INDEXED', 0x8, ('C13', 'C15')),
         (4, 'Encoder::BEST_FORMAT', 0x10, ('C13',)), (5, 'Decoder::WITH_INDEXING', 0x4, ('C03',)),
         (6, 'Decoder::NEVER_INDEXED', 0x8, ('C03', 'C15'))]


def flags(d, pid, rep):
    if not any(pid in f[3] for f in FLAGS):
        return
    I = Interp(d, Models({}))
    outs = I.run_root('root_consts', [], St())
    for i, n, v, cats in FLAGS:
        if pid in cats:
            ok = bool(outs) and all(s.norm(r[1][i]).t == () and s.norm(r[1][i]).c == v for s, r in outs)
            rep.ob('the public flag constants name the documented bits', ok, '%s is not %#x' % (n, v), sample='%s = %#x' % (n, v))


def decide(pid, rep):
    d = extract('hpack')
    flags(d, pid, rep)
    jobs = jobs_for(d, pid, rep.tier)
    hd = extract('huffman') if any(j[0] == 'huff' for j in jobs) else None
    rep.count('functions in the MIR dump', len(d['insts']) + (len(hd['insts']) if hd else 0))
    rule, floors = RULES[pid]
    seen = {}
    bads = False
    for j, r in zip(jobs, par(lambda j: run_job(d, hd, j), jobs, bad=lambda c: pid in c or any(set(c) & set(x) for x in ALSO.get(pid, {}).values()))):
        n = name(j)
        rep.count('sessions')
        if r[0] == 'skip':
            rep.count('analyses not completed because another one has an alarm')
            continue
        if r[0] == 'exc':
            rep.ob('the analysis of a session completes', False, '%s %s' % (n, r[1].split(':')[0]), r[1])
            bads = True
            continue
        out, kinds = r
        own = set((pid,) + ALSO.get(pid, {}).get(j[0], ()))
        bad = [o for o in out if own & set(o[0])]
        bads = bads or bool(bad)
        for k, v in kinds.items():
            rep.count(k, v)
            seen[k] = seen.get(k, 0) + v
            if not bad and (k in floors or j[0] == 'huff'):
                o = rep.obl.setdefault(rule, [0, 0])
                o[0] += v
                o[1] += v
        rep.ob(rule, not bad, bad[0][1] if bad else None, '\n'.join('%s\n   %s' % (o[1], o[2]) for o in bad[:5]),
               sample='%s: %s' % (n, ', '.join('%s %d' % x for x in kinds.items())))
    for k in floors:
        rep.ob('every kind of obligation arises', bads or seen.get(k, 0) > 0, k)


for _p in RULES:
    globals()[_p] = (lambda p: lambda rep: decide(p, rep))(_p)
