import importlib

WHERE = {}
for m, ids in {
    'tables': ['C18', 'C19'],
    'effects': ['C34'],
    'static_table': ['C11'],
    'huff': ['C20', 'C21', 'C22', 'C23'],
    'hpackprops': ['C%02d' % i for i in range(1, 11)] + ['C%02d' % i for i in range(12, 18)],
    'protos': ['C%d' % i for i in range(24, 34)],
}.items():
    for i in ids:
        WHERE[i] = m


def run(pid, rep):
    mod = importlib.import_module('checks.' + WHERE[pid])
    getattr(mod, pid)(rep)


def crates(pid):
    m = WHERE[pid]
    return {'tables': ['huffman'], 'huff': ['huffman'], 'protos': ['protos'], 'effects': ['huffman', 'hpack', 'protos']}.get(m, ['huffman', 'hpack'])
