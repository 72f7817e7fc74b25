#!/usr/bin/env python3
"""Table of the planted bugs for DESIGN.md, from the output of seedtest.py --only-checks (stdin)."""
import sys, json, os, re
rows = []
for l in sys.stdin:
    m = re.match(r'(\S+) \| (C\d+) (CAUGHT|MISSED)\s*(?:\[C\d+\] )?(.*)', l)
    if not m:
        continue
    s, c, r, t = m.groups()
    meta = json.load(open('/verif/seeded/%s/meta.json' % s))
    t = t.split(': ', 1)[-1].replace('|', '/').strip()
    rows.append('| %s | %s | %s%s |' % (s, meta['needs'].replace('|', '/'), c if r == 'CAUGHT' else c + ' MISSES IT', ': ' + t[:90] if t else ''))
print('| change | needs | caught by |\n|---|---|---|\n' + '\n'.join(sorted(rows)))
