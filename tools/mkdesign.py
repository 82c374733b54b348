#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.head.md, known-findings.txt and seeded/."""
import os, json, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LATE = set(open(os.path.join(V, 'tools', 'strengthened.txt')).read().split())
s = open(os.path.join(V, 'tools', 'design.head.md')).read()
c = collections.Counter(l.split('property=')[1].split()[0] for l in open(os.path.join(V, 'known-findings.txt')) if l.startswith('fixed:'))
s = s.replace('@FIXES@', ', '.join('%s %d' % k for k in sorted(c.items())) + ' (%d in all)' % sum(c.values()))
rows = ['| property | planted | what it breaks | needs | |', '|---|---|---|---|---|']
d = os.path.join(V, 'seeded')
if not os.path.isdir(d): raise SystemExit(0)
for b in sorted(os.listdir(d), key=lambda b: (json.load(open(os.path.join(d, b, 'meta.json')))['property'], b)):
    m = json.load(open(os.path.join(d, b, 'meta.json')))
    rows.append('| %s | %s | %s | %s | caught%s |' % (m['property'], b, m['what_it_breaks'], m['needs'], ', strengthened' if b in LATE else ''))
s = s.replace('@SEEDED@', '\n'.join(rows))
open(os.path.join(V, 'DESIGN.md'), 'w').write(s)
