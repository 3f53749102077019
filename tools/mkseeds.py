#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property (caught by its check) | needs |', '|---|---|---|']
missed = set(l.strip() for l in open(os.path.join(V, 'tools', 'missed.txt'))) if os.path.exists(os.path.join(V, 'tools', 'missed.txt')) else set()
L = []
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    L.append((m['property'], d, m['needs'] if isinstance(m['needs'], str) else '; '.join(m['needs'])))
for p, d, n in sorted(L): rows.append('| %s | %s%s | %s |' % (d, p, ' – **missed**' if d in missed else '', n))
f = os.path.join(V, 'DESIGN.md'); s = open(f).read()
i = s.index('<!-- seeds -->') + len('<!-- seeds -->'); j = s.index('<!-- /seeds -->')
open(f, 'w').write(s[:i] + '\n' + '\n'.join(rows) + '\n' + s[j:])
