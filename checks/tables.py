"""Constant analysis of the Huffman tables (C18, C19)."""
import json, os, re
from engine.extract import extract, REPO, V

RFC = json.load(open(os.path.join(V, 'data', 'rfc7541.json')))


def returned_const(dump, root):
    """the constant a root function returns: value of the place its return local is built from"""
    b = dump['insts'][dump['roots'][root]]['body']
    vals = []
    for stmts, term in b['blocks']:
        for s in stmts:
            find_consts(s, vals)
        find_consts(term, vals)
    best = None
    for v in vals:
        if v is None:
            continue
        while isinstance(v, dict) and 'r' in v:
            v = v['r']
        if isinstance(v, list) and v and (best is None or len(v) > len(best)):
            best = v
    return best


def find_consts(x, out):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'k' and isinstance(x[1], dict):
            out.append(x[1].get('v'))
        else:
            for y in x:
                find_consts(y, out)


def opt(v):
    """Option<int> constant"""
    return v['f'][0] if v['v'] == 1 else None


def bits(l, c):
    return format(c, '0%db' % l) if l else ''


def C18(rep):
    d = extract('huffman')
    t = returned_const(d, 'root_h_encode_table')
    R = 'encode table row equals RFC 7541 Appendix B'
    if t is None:
        rep.fail(R, 'ENCODE_TABLE', 'the table is not a constant')
        return
    ref = RFC['huffman']
    rep.count('table rows', len(t))
    rep.ob('the encode table has 257 rows', len(t) == 257, 'ENCODE_TABLE', '%d rows' % len(t))
    for i, (l, c) in enumerate(ref):
        got = tuple(t[i]) if i < len(t) else None
        rep.ob(R, got == (l, c), 'huffman::encoder::table::ENCODE_TABLE symbol %d' % i,
               'code (length, value) is %r, RFC 7541 has %r' % (got, (l, c)), sample='symbol %d -> %s' % (i, bits(l, c)))
    codes = sorted(bits(l, c) for l, c in t if 0 < l <= 64 and c < 1 << l)
    R = 'no code is a prefix of another'
    for a, b in zip(codes, codes[1:]):
        rep.ob(R, not b.startswith(a), 'prefix %s of %s' % (a, b))
    k = sum(1 << (32 - l) for l, c in t if l <= 32)
    rep.ob('the code is complete (Kraft sum 1)', k == 1 << 32, 'ENCODE_TABLE', 'Kraft sum %d/2^32' % k)
    # the specification text shipped with the crate
    R = 'specification text row equals RFC 7541 Appendix B'
    p = os.path.join(REPO, 'huffman/assets/hpack-huffman.txt')
    try:
        txt = open(p, encoding='utf8').read()
    except OSError as e:
        rep.fail(R, 'assets/hpack-huffman.txt', str(e))
        return
    rows = {}
    for line in txt.splitlines():
        m = re.match(r'^.*\(\s*(\d+)\)\s*((?:\|[01]*)+)\s+([0-9a-f]+)\s+\[\s*(\d+)\]\s*$', line)
        if m:
            rows[int(m.group(1))] = (m.group(2).replace('|', ''), int(m.group(3), 16), int(m.group(4)))
        else:
            rep.ob('every line of the specification text is a code row', not line.strip(), 'line %r' % line.strip()[:60])
    for i, (l, c) in enumerate(ref):
        rep.ob(R, rows.get(i) == (bits(l, c), c, l), 'assets/hpack-huffman.txt symbol %d' % i, 'row is %r' % (rows.get(i),))
    rep.floor(R, 257)


def C19(rep):
    d = extract('huffman')
    ref = [bits(l, c) for l, c in RFC['huffman']]
    sym = {b: i for i, b in enumerate(ref)}
    prefixes = set()
    for b in ref:
        for i in range(len(b)):
            prefixes.add(b[:i])
    for s in range(1, 6):
        t = returned_const(d, 'root_h_dt%d' % s)
        name = 'huffman::decoder::table%d::DECODE_TABLE' % s
        if t is None:
            rep.fail('table is a constant', name)
            continue
        path = {0: ''}
        todo = [0]
        got = {}
        while todo:
            i = todo.pop()
            p = path[i]
            row = t[i]
            rep.ob('row has 2^speed entries', len(row) == 1 << s, '%s row %d' % (name, i))
            for k, ent in enumerate(row):
                nxt, asc, left = opt(ent[0]), opt(ent[1]), ent[2]
                key = bits(s, k)
                where = '%s row %d key %s' % (name, i, key)
                full = p + key
                # what RFC 7541 says: the first symbol completed inside this key, if any
                exp = None
                for u in range(s):
                    if full[:len(p) + s - u] in sym:
                        exp = (sym[full[:len(p) + s - u]], u)
                cands = [(sym[full[:len(p) + n]], s - n) for n in range(1, s + 1) if full[:len(p) + n] in sym]
                exp = cands[0] if cands else None
                R = 'entry agrees with the code'
                if exp is not None:
                    # EOS may be refused by having no entry or by symbol 256
                    ok = (asc == exp[0] and left == exp[1] and nxt is None) or (exp[0] == 256 and asc is None and nxt is None)
                    rep.ob(R, ok, where, 'entry is (next %r, symbol %r, unused %r); the bits %s complete symbol %d with %d unused bits'
                           % (nxt, asc, left, full, exp[0], exp[1]), sample='%s: %s' % (where, ent))
                    if asc is not None:
                        got[asc] = full[:len(full) - left] if left else full
                elif full in prefixes:
                    ok = nxt is not None and asc is None and left == 0 and nxt < len(t)
                    rep.ob(R, ok, where, 'entry is (next %r, symbol %r, unused %r); %s is a proper code prefix' % (nxt, asc, left, full))
                    if ok:
                        if nxt in path:
                            rep.ob('a row stands for one code prefix', path[nxt] == full, '%s row %d' % (name, nxt),
                                   'row reached by %s and by %s' % (path[nxt], full))
                        else:
                            path[nxt] = full
                            todo.append(nxt)
                else:
                    rep.ob(R, nxt is None and asc is None, where, 'entry is (next %r, symbol %r); no code starts with %s' % (nxt, asc, full))
        rep.count('rows of table %d' % s, len(path))
        for a in range(256):
            rep.ob('every symbol is decoded by the table', got.get(a) == ref[a], '%s symbol %d' % (name, a), 'decoded from %r' % got.get(a))
