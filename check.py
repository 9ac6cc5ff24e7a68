#!/usr/bin/env python3
"""Decides one property: compiles /repo's current sources and the property's harnesses to LLVM IR, runs the
symbolic engine on every case, replays witnesses and counterexamples against the gcc-built code.

  check.py PROPERTY [quick|thorough] [--case NAME] [--src DIR] [--keep] [-v]
  check.py --replay FILE [--src DIR]      re-run a saved counterexample against the real code
"""
import threading, sys, os, re, json, time, shlex, shutil, subprocess, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
HARN = os.path.join(HERE, 'harness'); ENGD = os.path.join(HERE, 'engine'); SPHSE = os.path.join(HERE, 'build', 'sphse')
LLVM = '/usr/lib/llvm-18/bin/'
for d in (LLVM,):
    if os.path.isdir(d): os.environ['PATH'] = d + ':' + os.environ['PATH']
NPROC = 8
NATIVE_EXTRA = ['sphgettime.c', 'sphgtod.c']

def sh(cmd, timeout=600, env=None, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
    return p.returncode, p.stdout.decode('utf8', 'replace')

class BuildError(Exception): pass

def parse_harness(path):
    cases, build = [], {'exclude': '', 'flags': '', 'sources': '', 'first': '', 'define': ''}
    for line in open(path):
        m = re.match(r'\s*//@\s*(case|build)\s+(.*)', line)
        if not m: continue
        kv = dict(x.split('=', 1) for x in shlex.split(m.group(2)) if '=' in x)
        if m.group(1) == 'build': build.update(kv)
        else:
            kv['props'] = kv['property'].split(','); cases.append(kv)
    return cases, build

def lib_sources(src):
    """the sources of libsphde as its build lists them"""
    txt = open(os.path.join(src, 'Makefile.am')).read().replace('\\\n', ' ')
    m = re.search(r'^libsphde_la_SOURCES\s*=(.*)$', txt, re.M)
    names = [x for x in m.group(1).split() if x.endswith(('.c', '.cpp'))]
    return [n for n in names if os.path.exists(os.path.join(src, n))]

class Work:
    def __init__(self, repo, verbose=False):
        self.src = os.path.join(repo, 'src'); self.tmp = tempfile.mkdtemp(prefix='sphchk.'); self.v = verbose
        self.shadow = os.path.join(self.tmp, 'src'); os.mkdir(self.shadow)
        for f in os.listdir(self.src):
            if f.endswith(('.c', '.cpp', '.h')): shutil.copy(os.path.join(self.src, f), self.shadow)
        # clang rejects tied asm operands of different integer sizes ("a" names the same register) and calls itself
        # GCC 4.2: the branches for the gcc that builds the library are taken instead
        v = subprocess.run(['gcc', '-dumpfullversion'], stdout=subprocess.PIPE).stdout.decode().strip().split('.'); gv = str(int(v[0]) * 10000 + int(v[1]) * 100 + int(v[2]))
        for f in os.listdir(self.shadow):
            if not f.startswith('sasatom'): continue
            p = os.path.join(self.shadow, f); s = open(p, errors='surrogateescape').read()
            if f == 'sasatom_x86_64.h': s = re.sub(r'"0"\s*\(', '"a" (', s)
            s = re.sub(r'(#\s*(?:el)?if.*)\bGCC_VERSION\b', lambda m: m.group(1) + gv, s); open(p, 'w', errors='surrogateescape').write(s)
        self.libs = lib_sources(self.src)
        self.cache = {}; self.lock = threading.Lock()
    def close(self): shutil.rmtree(self.tmp, ignore_errors=True)
    def compile_one(self, kind, path, incdir, out, flags):
        base = ['-w', '-D__SASSIM__', '-DHAVE_CONFIG_H', '-I' + incdir, '-I' + HARN, '-I' + ENGD, '-include', os.path.join(HARN, 'env.h')] + flags
        if kind == 'bc': cmd = ['clang', '-O1', '-g', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-fno-exceptions', '-fno-stack-protector', '-c', path, '-o', out] + base
        else:
            cxx = path.endswith('.cpp'); san = ['-fsanitize=address'] if kind == 'asan' else []
            cmd = [('g++' if cxx else 'gcc'), '-O2', '-g', '-c', path, '-o', out] + san + base
        rc, o = sh(cmd)
        if rc: raise BuildError('%s\n%s' % (' '.join(cmd), o[-3000:]))
        return out
    def incdir(self, kind, define=''):
        """where a kind of build takes the sources from; define=NAME=VALUE,.. scales a capacity constant in a copy"""
        base = self.shadow if kind == 'bc' else self.src
        if not define: return base
        key = ('inc', base, define)
        with self.lock:
            if key not in self.cache:
                d = tempfile.mkdtemp(prefix='scaled.', dir=self.tmp)
                for f in os.listdir(base):
                    if not f.endswith(('.c', '.cpp', '.h')): continue
                    s = open(os.path.join(base, f), errors='surrogateescape').read()
                    for nv in define.split(','):
                        n, v = nv.split('='); s = re.sub(r'(#[ \t]*define[ \t]+%s[ \t]+)[^\s].*' % re.escape(n), lambda m: m.group(1) + v, s)
                    open(os.path.join(d, f), 'w', errors='surrogateescape').write(s)
                self.cache[key] = d
            return self.cache[key]
    def lib(self, kind, flags, define=''):
        key = (kind, tuple(flags), define)
        if key in self.cache: return self.cache[key]
        d = tempfile.mkdtemp(prefix=kind + '.', dir=self.tmp); inc = self.incdir(kind, define)
        objs = {}
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for n in self.libs: objs[n] = ex.submit(self.compile_one, kind, os.path.join(inc, n), inc, os.path.join(d, n + '.o'), flags)
            objs = {n: f.result() for n, f in objs.items()}
        self.cache[key] = objs
        return objs
    def support(self, kind, flags, define=''):
        inc = self.incdir(kind, define); key = ('env', kind, tuple(flags), define)
        if key not in self.cache: self.cache[key] = self.compile_one(kind, os.path.join(HARN, 'env.c'), inc, os.path.join(self.tmp, 'env.%s.%d.o' % (kind, len(self.cache))), flags)
        return self.cache[key]
    def objs(self, kind, harness, build):
        flags = shlex.split(build['flags']); inc = self.incdir(kind, build['define'])
        lib = self.lib(kind, flags, build['define']); ex = build['exclude'].split(',')
        sel = [o for n, o in lib.items() if n not in ex]
        for extra in [x for x in (build['first'] + ',' + build['sources']).split(',') if x]: # first: linked before the library
            sel.insert(0 if extra in build['first'].split(',') else len(sel), self.compile_one(kind, os.path.join(inc, extra), inc, os.path.join(self.tmp, '%s.%s.%s.o' % (os.path.basename(harness), extra, kind)), flags))
        h = self.compile_one(kind, harness, inc, os.path.join(self.tmp, os.path.basename(harness) + '.' + kind + '.o'), flags)
        return [h, self.support(kind, flags, build['define'])] + sel
    def module(self, harness, build):
        o = self.objs('bc', harness, build); b = os.path.join(self.tmp, os.path.basename(harness))
        rc, t = sh(['llvm-link'] + o + ['-o', b + '.l.bc'])
        if rc: raise BuildError('llvm-link: ' + t[-2000:])
        rc, t = sh(['opt', '-passes=function(sroa,instcombine<no-verify-fixpoint>,simplifycfg)', b + '.l.bc', '-o', b + '.bc'])
        if rc: raise BuildError('opt: ' + t[-2000:])
        return b + '.bc'
    def native(self, harness, build, entry, kind):
        key = ('nat', harness, entry, kind)
        if key in self.cache: return self.cache[key]
        b = os.path.join(self.tmp, '%s.%s.%s' % (os.path.basename(harness), entry, kind))
        san = ['-fsanitize=address'] if kind == 'asan' else []
        rt = b + '.rt.o'
        rc, t = sh(['gcc', '-O1', '-g', '-c', '-DSE_ENTRY=' + entry, '-I' + ENGD, os.path.join(ENGD, 'se_runtime.c'), '-o', rt])
        if rc: raise BuildError(t)
        if kind == 'thr':
            bc = self.module_cache(harness, build)
            rc, t = sh([SPHSE, bc, '--emit-replay=' + b + '.bc'])
            if rc: raise BuildError('emit-replay: ' + t[-2000:])
            cmd = ['clang++', '-O0', '-w', b + '.bc', rt, '-o', b, '-lpthread', '-Wl,--unresolved-symbols=ignore-all']
        else:
            k2 = ('natobj', harness, kind)
            if k2 not in self.cache: self.cache[k2] = self.objs(kind, harness, build)
            cmd = ['g++'] + self.cache[k2] + [rt, '-o', b, '-lpthread', '-Wl,--unresolved-symbols=ignore-all'] + san
        rc, t = sh(cmd)
        if rc: raise BuildError('link: ' + t[-2000:])
        self.cache[key] = b
        return b
    def module_cache(self, harness, build):
        k = ('mod', harness)
        if k not in self.cache: self.cache[k] = self.module(harness, build)
        return self.cache[k]

    def replay(self, harness, build, case, rp, want, tag=''):
        """want: 'ok' or a violation kind. Returns (confirmed, text)."""
        txt = open(rp).read(); thr = bool(re.search(r'^sched ', txt, re.M)); out = ''
        # threads run on by themselves behind the end of a recorded schedule, so a replay with threads gets several tries
        kinds = ['thr'] * (4 if want != 'ok' else 1) if thr else (['gcc', 'asan'] if want not in ('ok', 'assert') else ['gcc'])
        for k in kinds:
            exe = self.native(harness, build, case, k)
            m = re.search(r'^tag (\S+)', txt, re.M); env = dict(os.environ, SE_REPLAY=rp, SE_TAG=m.group(1) if m else '', MALLOC_PERTURB_='90', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allow_user_segv_handler=1')
            try: rc, o = sh(['timeout', '-s', 'KILL', '20', exe], timeout=60, env=env, cwd=self.tmp)
            except subprocess.TimeoutExpired: rc, o = 137, 'timeout'
            hang = rc in (137, -9); o = o[-1500:]; out = '[%s] rc=%d %s' % (k, rc, o)
            if want == 'ok': return rc == 0, out
            if want == 'assert' and rc == 77: return True, out
            if want in ('deadlock', 'livelock', 'nontermination', 'stack') and hang: return True, out
            if want in ('memory', 'trap', 'unreachable', 'abort', 'divzero', 'stack') and (rc == 99 or (rc < 0 and not hang) or (128 < rc < 160 and not hang)): return True, out
            if want not in ('assert',) and rc == 77: return True, out
        return False, out

def known_findings():
    p = os.path.join(HERE, 'known_findings.jsonl'); r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'): r.append(json.loads(l))
    return r

def main():
    a = sys.argv[1:]; repo = '/repo'; only = None; keep = verbose = False; rep = None; pos = []
    i = 0
    while i < len(a):
        if a[i] == '--case': only = a[i + 1]; i += 2
        elif a[i] == '--src': repo = a[i + 1]; i += 2
        elif a[i] == '--replay': rep = a[i + 1]; i += 2
        elif a[i] == '--keep': keep = True; i += 1
        elif a[i] == '-v': verbose = True; i += 1
        else: pos.append(a[i]); i += 1
    if not os.path.exists(SPHSE): subprocess.check_call(['bash', os.path.join(ENGD, 'build.sh')])
    allc = []
    for f in sorted(os.listdir(HARN)):
        if f.startswith(('h_', 't_')) and f.endswith(('.c', '.cpp')):
            cs, b = parse_harness(os.path.join(HARN, f))
            for c in cs: c['harness'] = os.path.join(HARN, f); c['build'] = b; allc.append(c)
    if rep:
        name = re.search(r'^case (\S+)', open(rep).read(), re.M).group(1); kind = re.search(r'^kind (\S+)', open(rep).read(), re.M).group(1)
        c = [c for c in allc if c['name'] == name][0]; w = Work(repo)
        try: ok, t = w.replay(c['harness'], c['build'], name, os.path.abspath(rep), kind)
        finally: w.close()
        print(t); print('REPRODUCED' if ok else 'NOT REPRODUCED'); return 1 if ok else 0
    prop = pos[0]; tier = pos[1] if len(pos) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); budget = 780 if tier == 'quick' else 6 * 3600
    cases = [c for c in allc if prop in c['props'] and (only is None or c['name'] == only) and not (tier == 'quick' and c.get('tier') == 'thorough')]
    if not cases: print('no cases for ' + prop); return 2
    w = Work(repo, verbose); rc = 0
    try: rc = run(w, prop, tier, seed, cases, t0, budget, verbose, only)
    except BuildError as e: print('BUILD ERROR: %s' % e); rc = 2
    finally:
        if keep: print('kept ' + w.tmp)
        else: w.close()
    return rc

def run(w, prop, tier, seed, cases, t0, budget, verbose, only):
    harn = {}
    for c in cases: harn[c['harness']] = c['build']
    for h, b in harn.items(): w.module_cache(h, b)
    results = {}
    def one(c):
        bc = w.module_cache(c['harness'], c['build']); st = os.path.join(w.tmp, c['name'] + '.stats'); od = os.path.join(w.tmp, 'out.' + c['name']); os.makedirs(od, exist_ok=True)
        opts = shlex.split(c.get(tier, c.get('quick', '')))
        tm = float(c.get('ttime', 900) if tier == 'thorough' else c.get('qtime', 90))
        left = budget - (time.time() - t0)
        if left < 20: return None
        tm = min(tm, left - 15)
        cmd = [SPHSE, bc, '--entry=' + c['name'], '--time=%g' % tm, '--out=' + od, '--stats=' + st, '--witness=3', '--tag=' + c.get('tag', prop)] + opts
        if not any(o.startswith('--mem=') for o in opts): cmd.append('--mem=3.5')
        try: rc, o = sh(cmd, timeout=tm + 120)
        except subprocess.TimeoutExpired: return {'error': 'engine timeout'}
        if verbose: sys.stderr.write(o)
        try: s = json.load(open(st))
        except Exception: return {'error': 'engine failed rc=%d: %s' % (rc, o[-500:])}
        s['params'] = opts; return s
    order = sorted(cases, key=lambda c: -float(c.get('ttime' if tier == 'thorough' else 'qtime', 90)))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        fut = {c['name']: ex.submit(one, c) for c in order}
        # the native build for witness and counterexample replay runs beside the engine
        nat = [ex.submit(w.lib, 'gcc', shlex.split(b['flags']), b['define']) for b in harn.values()][:1]
        for c in cases: results[c['name']] = fut[c['name']].result()
        for n in nat: n.result()
    kf = [k for k in known_findings() if k.get('property') == prop and k.get('status') == 'open']
    violations, known, unconf, notes, validated, wit_fail = [], [], [], [], 0, []
    rdir = os.path.join(HERE, 'build', 'replay', prop); os.makedirs(rdir, exist_ok=True)
    tot = dict(paths=0, states=0, instructions=0, forks=0, asserts=0, asserts_symbolic=0, queries=0, sat=0, unsat=0, unknown=0, query_cache_hits=0, model_hits=0, solver_s=0.0, sched_points=0, switches=0, dedup=0)
    funcs, evc, samples, incomplete_cases = {}, [], [], []
    for c in cases:
        s = results[c['name']]; e = {'case': c['name'], 'bounds': c.get('bounds', ''), 'harness': os.path.basename(c['harness'])}
        if s is None or 'error' in s:
            e['status'] = 'not run' if s is None else s['error']; incomplete_cases.append(c['name']); evc.append(e); notes.append('%s: %s' % (c['name'], e['status'])); continue
        for k in tot: tot[k] += s.get(k, 0)
        for f, d in s['functions'].items():
            if d['file'].startswith(w.tmp): funcs[f] = funcs.get(f, 0) + d['calls']
        e.update(complete=s['complete'], paths=s['paths'], queries=s['queries'], solver_s=round(s['solver_s'], 2), wall_s=round(s['wall_s'], 2), asserts=s['asserts'], reach=s['reach'], incomplete=s['incomplete'], options=s['params'])
        if not s['complete'] and not s['violations']: incomplete_cases.append(c['name'])
        if s.get('solver_self_check_failed'): notes.append(c['name'] + ': solver model self-check failed'); incomplete_cases.append(c['name'])
        missing = [r for r in c.get('reach', '').split(',') if r and not s['reach'].get(r)]
        if missing: e['missing_reach'] = missing; notes.append('%s: not reached: %s' % (c['name'], ','.join(missing)))
        pl = 'tag %s\n' % c.get('tag', prop) + ''.join('param %s %s\n' % tuple(o[len('--param='):].split('=', 1)) for o in s['params'] if o.startswith('--param='))
        for m in s.get('other_failures', {}): notes.append('%s: failure of another property: %s' % (c['name'], m))
        for v in s['violations']:
            if pl: open(v['replay'], 'a').write(pl)
            try: ok, txt = w.replay(c['harness'], c['build'], c['name'], v['replay'], v['kind'])
            except BuildError as ex: ok, txt = False, 'replay build failed: %s' % str(ex)[-400:]
            rec = {'case': c['name'], 'kind': v['kind'], 'msg': v['msg'], 'where': v['where'], 'replay_result': txt[:300]}
            if not ok: unconf.append(rec); notes.append('%s: counterexample not confirmed by replay: %s' % (c['name'], v['msg'])); continue
            m = [k for k in kf if k.get('case') == c['name'] and k.get('kind', v['kind']) == v['kind'] and (k.get('msg') == v['msg'] or k.get('msg', '').endswith('*') and v['msg'].startswith(k['msg'][:-1]))]
            dst = os.path.join(rdir, os.path.basename(v['replay'])); shutil.copy(v['replay'], dst); rec['replay'] = dst
            if m: known.append((m[0], rec))
            else: violations.append(rec)
        for k, wf in enumerate(s.get('witnesses', [])):
            if pl: open(wf, 'a').write(pl)
            if s['violations'] and not validated and k: continue
            try: ok, txt = w.replay(c['harness'], c['build'], c['name'], wf, 'ok')
            except BuildError as ex: ok, txt = False, 'build: ' + str(ex)[-300:]
            if ok: validated += 1
            else: wit_fail.append({'case': c['name'], 'result': txt[-200:]})
            if k == 0 and len(samples) < 6: samples.append({'case': c['name'], 'trace': open(wf).read()[:600], 'replayed_natively': ok})
        evc.append(e)
    for k, r in known: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for v in violations: print('VIOLATION property=%s replay=%s' % (prop, v['replay'])); print('  %s: %s (%s) at %s' % (v['case'], v['msg'], v['kind'], v['where']))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
          'assumptions': ['sequentially consistent memory for interleavings', 'operating system calls are replaced by the model in harness/env.c', 'the bounds listed with each case; behaviour outside them is not covered',
                          'clang -O1 IR of the source (no target-specific optimisation) stands for the gcc build; witnesses are replayed on the gcc build'],
          'coverage': {'states': tot['paths'] + tot['states'], 'transitions': tot['instructions'], 'traces_validated_against_impl': validated, 'samples': samples,
                       'exhaustive': not incomplete_cases, 'cases': evc, 'incomplete_cases': sorted(set(incomplete_cases)), 'functions_encoded': dict(sorted(funcs.items())),
                       'solver': {k: (round(v, 2) if isinstance(v, float) else v) for k, v in tot.items()}, 'known_findings': [k['what'] for k, _ in known],
                       'unconfirmed_counterexamples': unconf, 'witness_replay_failures': wit_fail, 'notes': notes}}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if only is None and w.src == '/repo/src': json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d cases (%d not exhaustive), %d paths, %d queries, %.1f s solver, %d traces replayed, %d violations, %d known, wall %.1f s' % (prop, tier, len(cases), len(set(incomplete_cases)), tot['paths'], tot['queries'], tot['solver_s'], validated, len(violations), len(known), time.time() - t0))
    for n in notes: print('  note: ' + n)
    for x in wit_fail: print('  witness replay failed: %s %s' % (x['case'], x['result'][-160:].strip()))
    return 1 if violations else 0

if __name__ == '__main__': sys.exit(main())
