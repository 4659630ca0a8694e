"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import collections
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = collections.defaultdict(list)
for f in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    m = json.load(open(f))
    c[m['property']].append((f.split('/')[-2], m['needs']))
t = '| caught by | planted bug | needs |\n|---|---|---|\n'
t += ''.join('| %s | %s | %s |\n' % (k, a, b.replace('|', '/')) for k in sorted(c) for a, b in c[k])
p = HERE + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'\| caught by \|.*?\n\n', lambda _: t + '\n', s, flags=re.S)
open(p, 'w').write(s)
