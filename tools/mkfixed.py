#!/usr/bin/env python3
"""Refreshes the "fixed:" lines of known-findings.txt from /repo's history."""
import re, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [('nil with nil', 'C07'), ('not lexicographic', 'C07'), ('comparison of views', 'C07'), ('maps ignored the keys', 'C07'),
       ('copying an array of complex', 'C01'), ('copy() of an array element', 'C01'), ('remove() on a map', 'C05'), ('pop() returned', 'C03'),
       ('shrinking an array', 'C02'), ('insert() threw', 'C03'), ('insert() of a view', 'C03'), ('unshift()', 'C03'), ('elements of a view of', 'C06'),
       ('view constructor', 'C02'), ('appending raw data', 'C03'), ('changing the size of a view', 'C06'), ('negative offset', 'C06'),
       ('byte 0xff from', 'C12'), ('seeking', 'C12'), ('strip()', 'C13'), ('getline()', 'C14'), ('sum or difference of two', 'C15'),
       ('assigning an array to a view', 'C06'), ('one element used the address', 'C15'), ('swallowed the delimiter', 'C11'),
       ('truncated real', 'C11'), ('one element array as a scalar', 'C10'), ('escape quotes', 'C10'), ('formatting an array of complex', 'C10'),
       ('functors on an array of double', 'C15'), ('DFT refused', 'C17'), ('repeating an option', 'C19'), ('audio files', 'C23'),
       ('text file writer', 'C14'), ('module that could not', 'C22'), ('formatting a view', 'C10'), ('different sizes', 'C15'),
       ('resize and array on', 'C03'), ('comparing cdouble', 'C07'), ('between complex types', 'C09'), ('element of an array to itself', 'C04'),
       ('Reading an element of a view', 'C06'), ('at() on a reference', 'C04'), ('one element view of cdouble', 'C01'), ('an element of a cdouble array compared','C08'), ('casting a complex double', 'C09')]
EXTRA = os.path.join(V, 'tools', 'fixmap.txt')
if os.path.exists(EXTRA):
    for l in open(EXTRA):
        if '|' in l: MAP.append(tuple(x.strip() for x in l.rsplit('|', 1)))
out = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).split('\n'):
    m = re.match(r'(\w+) fix: (.*)', l)
    if not m: continue
    c = [p for k, p in MAP if k in m[2]]
    assert c, l
    out.append('fixed: property=%s %s %s' % (c[0], m[1], m[2]))
p = os.path.join(V, 'known-findings.txt')
keep = [l for l in (open(p).read().split('\n') if os.path.exists(p) else []) if l and not l.startswith('fixed:')]
open(p, 'w').write('\n'.join(keep + out) + '\n')
print(len(out))
