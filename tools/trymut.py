#!/usr/bin/env python3
"""trymut.py FILE OLD NEW PROP[:case] ...  -- apply one textual change to a copy of /repo/src and run checks on it."""
import sys, os, shutil, subprocess, tempfile
f, old, new = sys.argv[1:4]; old = old.encode().decode('unicode_escape'); new = new.encode().decode('unicode_escape')
d = tempfile.mkdtemp(prefix='mut.'); shutil.copytree(os.environ.get('SRC', '/repo') + '/src', d + '/src')
p = d + '/src/' + f; s = open(p).read(); n = s.count(old)
if n == 0: print('NOT FOUND'); shutil.rmtree(d); sys.exit(3)
k = int(os.environ.get('NTH', '0'))
parts = s.split(old); s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
open(p, 'w').write(s)
for a in sys.argv[4:]:
    pr, _, c = a.partition(':'); cmd = ['python3', os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/check.py', pr, 'quick', '--src', d] + (['--case', c] if c else [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT); o = r.stdout.decode()
    print(a, 'rc=%d' % r.returncode, 'CAUGHT' if r.returncode == 1 else 'missed'); print('\n'.join(l[:200] for l in o.splitlines()[:8]))
shutil.rmtree(d)
