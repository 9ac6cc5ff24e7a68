#!/usr/bin/env python3
"""mkseed.py SPEC.py...  plants a bug in a copy of /repo, confirms that it builds, passes the stable tests and fails its
demonstration, and writes seeded/<id>/.  SPEC sets: id, property, needs, breaks, edits [(file, old, new[, nth])], demo
(C/C++ text), lang ('c' or 'cpp'), optional flags.  Runs in a user+mount+ipc namespace with the copy mounted at /repo."""
import os, sys, json, subprocess, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in /repo after the build: exit 0 when the library behaves, non-zero when it does not
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/store"; export SASSTOREPATH="$T/store"
%(cc)s -w -O1 -g -D__SASSIM__ -DHAVE_CONFIG_H -I"$R/_build" -I"$R/src" %(flags)s -c "$D/demo.%(lang)s" -o "$T/demo.o" &&
g++ "$T/demo.o" -o "$T/demo" -Wl,--start-group "$R/_build/src/.libs/libsphde.a" "$R/_build/src/.libs/libsphgtod.a" "$R/_build/src/.libs/libsphgettime.a" -Wl,--end-group -lpthread -lrt || exit 2
cd "$T" && timeout 120 ./demo
'''
def main(spec):
    ns = {}; exec(open(spec).read(), ns)
    d = os.path.join(H, 'seeded', ns['id']); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mkseed.')
    try:
        c = os.path.join(t, 'r'); subprocess.check_call(['cp', '-a', '/repo', c])
        for e in ns['edits']:
            p = os.path.join(c, 'src', e[0]); s = open(p).read(); n = e[3] if len(e) > 3 else None
            k = s.count(e[1])
            if k == 0 or (k > 1 and n is None): print(ns['id'], 'edit text found %d times:' % k, e[1][:60]); return 1
            parts = s.split(e[1]); i = (n or 1); s = e[1].join(parts[:i]) + e[2] + e[1].join(parts[i:]); open(p, 'w').write(s)
        diff = subprocess.check_output(['git', '-C', c, 'diff']).decode()
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        base = subprocess.check_output(['git', '-C', c, 'rev-list', '--max-parents=0', 'HEAD']).decode().strip()
        lang = ns.get('lang', 'c'); open(os.path.join(d, 'demo.' + lang), 'w').write(ns['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % {'cc': 'gcc' if lang == 'c' else 'g++', 'lang': lang, 'flags': ns.get('flags', '')}); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': ns['property'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        sh = '''mount --bind %s /repo || exit 9; cd /repo
git stash -q; bash /opt/vp/build.sh >/dev/null 2>&1 || exit 8
bash %s/demo.sh > %s/clean.log 2>&1; echo demo clean rc=$?
git stash pop -q; touch src/*.c src/*.cpp src/*.h; bash /opt/vp/build.sh > %s/build.log 2>&1 || { echo no build; tail -5 %s/build.log; exit 8; }
bash %s/demo.sh > %s/bug.log 2>&1; echo demo bug rc=$?
bash /opt/vp/test.sh %s/o.json >/dev/null 2>&1; python3 -c "
import json; o=json.load(open('%s/o.json')); print('tests', len(o['passed']), 'passed', o['failed'])"''' % (c, d, t, t, t, d, t, t, t)
        p = subprocess.run(['unshare', '-Urmi', 'bash', '-c', sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT); o = p.stdout.decode()
        ok = 'demo clean rc=0' in o and 'demo bug rc=' in o and 'demo bug rc=0' not in o and "tests 23 passed []" in o
        print(ns['id'], 'OK' if ok else 'REJECTED', o.replace('\n', '; '))
        for f in ('clean.log', 'bug.log'):
            if os.path.exists(os.path.join(t, f)): print('  ', f, open(os.path.join(t, f)).read()[-400:].strip().replace('\n', '\n      '))
        if not ok: shutil.rmtree(d)
        return 0 if ok else 1
    finally: shutil.rmtree(t, ignore_errors=True)
sys.exit(max(main(s) for s in sys.argv[1:]))
