#!/usr/bin/env python3
"""Bulk mutant runner: bulk.py FILE.py [-j N] [-k name-substring] [-t tier]
FILE.py defines M = [(name, [props], [(file, old, new), ...]), ...].
Every mutant is applied to its own scratch copy of /repo, built, run against
the stable tests and then against the quick checks of its properties."""
import sys, os, subprocess, shutil, json, re, argparse, concurrent.futures as cf, tempfile, time
ap = argparse.ArgumentParser()
ap.add_argument('file'); ap.add_argument('-j', type=int, default=2)
ap.add_argument('-k', default=''); ap.add_argument('-t', default='quick')
ap.add_argument('--all-tests', action='store_true')
a = ap.parse_args()
ns = {}; exec(open(a.file).read(), ns)
base = tempfile.mkdtemp(prefix='bulk.', dir='/tmp')
stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or [])
def one(m):
    name, props, edits = m
    d = os.path.join(base, name); os.makedirs(d)
    repo, ver = d + '/repo', d + '/verif'
    try:
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        subprocess.run(['rsync', '-a', '--exclude=.git', '--exclude=seeded', '--exclude=evidence', '/verif/', ver + '/'], check=True) if shutil.which('rsync') else subprocess.run(f'mkdir -p {ver} && cd /verif && tar cf - --exclude=.git --exclude=seeded --exclude=evidence . | tar xf - -C {ver}', shell=True, check=True)
        for f, o, n in edits:
            p = os.path.join(repo, f); s = open(p).read()
            if o is None:
                open(p, 'w').write(n); continue
            if s.count(o) != 1: return name, 'BADSPEC', f'{f}: {s.count(o)} matches of {o[:60]!r}'
            open(p, 'w').write(s.replace(o, n))
        env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off')
        r = subprocess.run('. /opt/vp/env.sh; go build ./... 2>&1', shell=True, cwd=repo, capture_output=True, text=True, executable='/bin/bash')
        if r.returncode: return name, 'NOBUILD', r.stdout[-400:]
        r = subprocess.run('. /opt/vp/env.sh; go test -count=1 ./... 2>&1 | grep -E "^(--- FAIL|FAIL|panic|\\s+--- FAIL)"', shell=True, cwd=repo, capture_output=True, text=True, executable='/bin/bash')
        fails = [x for x in r.stdout.splitlines() if '--- FAIL' in x and 'TestPut' not in x]
        if fails or 'panic' in r.stdout: return name, 'TESTS-CATCH', ' '.join(fails)[:200]
        out = []
        for p in props:
            t = time.time()
            r = subprocess.run(['bash', './check.sh', p, a.t], cwd=ver, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick'), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            st = 'caught' if r.returncode == 1 and v else ('MISSED' if r.returncode == 0 else f'RC{r.returncode}')
            det = ''
            if st == 'caught':
                det = next((l for l in r.stdout.splitlines() if l.startswith(p) or 'violat' in l.lower()), '')[:160]
            elif st != 'MISSED': det = (r.stdout + r.stderr)[-300:]
            out.append(f'{p}:{st} {time.time()-t:.0f}s {det}')
        worst = 'caught' if any(':caught' in o for o in out) else 'MISSED'
        return name, worst, ' | '.join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
ms = [m for m in ns['M'] if a.k in m[0]]
with cf.ThreadPoolExecutor(a.j) as ex:
    for f in cf.as_completed([ex.submit(one, m) for m in ms]):
        try: n, s, d = f.result()
        except Exception as e: n, s, d = '?', 'ERR', str(e)
        print(f'{s:12} {n}: {d}', flush=True)
shutil.rmtree(base, ignore_errors=True)
