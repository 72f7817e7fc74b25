"""One-off: RFC 7541 reference data from Go's independent x/net/http2/hpack (vendored in the Go toolchain)."""
import re, json, sys
F = sys.argv[1]
t = open(F + '/tables.go').read()
codes = re.search(r'huffmanCodes = \[256\]uint32\{(.*?)\n\}', t, re.S).group(1)
lens = re.search(r'huffmanCodeLen = \[256\]uint8\{(.*?)\n\}', t, re.S).group(1)
codes = [int(x, 16) for x in re.findall(r'0x[0-9a-fA-F]+', codes)]
lens = [int(x) for x in re.findall(r'\d+', lens)]
assert len(codes) == len(lens) == 256
huff = [[l, c] for l, c in zip(lens, codes)] + [[30, 0x3fffffff]]
s = open(F + '/static_table.go').read()
ents = re.search(r'ents: \[\]HeaderField\{(.*?)\n\t\}', s, re.S) or re.search(r'ents:\s*\[[^\]]*\]HeaderField\{(.*?)\n\t?\},', s, re.S)
st = re.findall(r'Name: "([^"]*)", Value: "([^"]*)"', ents.group(1))
assert len(st) == 61, len(st)
json.dump({'huffman': huff, 'static': st}, open('/verif/data/rfc7541.json', 'w'))
