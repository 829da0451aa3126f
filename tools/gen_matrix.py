#!/usr/bin/env python3
"""Rewrite the planted-bugs table of DESIGN.md from seeded/*/meta.json (development aid, no check runs it)."""
import json, glob, os, collections
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
m = collections.defaultdict(list)
for f in sorted(glob.glob('seeded/*/meta.json')):
    j = json.load(open(f)); m[j['property']].append(f.split('/')[1])
rows = ['| check | planted bugs it catches |', '|---|---|'] + [f"| {k} | {', '.join(v)} |" for k, v in sorted(m.items())]
t = open('DESIGN.md').read()
a, b = '<!-- matrix -->\n', '<!-- /matrix -->'
i, j = t.index(a) + len(a), t.index(b)
open('DESIGN.md', 'w').write(t[:i] + '\n'.join(rows) + '\n' + t[j:])
