#!/usr/bin/env python3
"""designtab.py: rewrites the case table of DESIGN.md (between the CASES marks) from the harness annotations."""
import os, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sorted(glob.glob(H + '/harness/h_*')):
    for l in open(f):
        m = re.match(r'//@ case property=(\S+) name=case_(\S+).*bounds="(.*)"', l)
        if m:
            for p in m.group(1).split(','): rows.setdefault(p, []).append((m.group(2), os.path.basename(f), m.group(3)))
t = ''.join('**%s**\n\n' % p + ''.join('- `%s` (%s): %s\n' % r for r in rows[p]) + '\n' for p in sorted(rows))
d = open(H + '/DESIGN.md').read(); a, b = '<!-- CASES -->\n', '<!-- /CASES -->\n'
i, j = d.index(a) + len(a), d.index(b); open(H + '/DESIGN.md', 'w').write(d[:i] + '\n' + t + d[j:])
