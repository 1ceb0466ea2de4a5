#!/usr/bin/env python3
"""Runs checks against source mutants. usage: mut.py FILE.py [-p PROP,..] [-k SUBSTR]
FILE.py defines M = [(name, expected property list or [] for 'must stay quiet', [(file, old, new[, nth])...])].
For expected != []: reports CAUGHT/MISSED; for []: runs all given properties and reports QUIET/ALARM."""
import sys, os, shutil, subprocess, tempfile, runpy, concurrent.futures as cf, json
REPO, VERIF = '/repo', '/verif'
PSV = os.environ.get('PSV', '/tmp/psv')
args = sys.argv[1:]
f = args[0]; props = None; key = ''
i = 1
while i < len(args):
    if args[i] == '-p': props = args[i+1]; i += 2
    elif args[i] == '-k': key = args[i+1]; i += 2
    else: i += 1
M = [m for m in runpy.run_path(f)['M'] if key in m[0]]
allp = 'all'
def run(m):
    name, exp, edits = m[0], m[1], m[2]
    d = tempfile.mkdtemp(prefix='mut')
    try:
        subprocess.run(['rsync', '-a', '--exclude', '.git', REPO + '/', d + '/'], check=True) if shutil.which('rsync') else subprocess.run(['cp', '-a', REPO + '/.', d], check=True)
        for e in edits:
            p = os.path.join(d, e[0]); s = open(p).read()
            n = e[3] if len(e) > 3 else 1
            if s.count(e[1]) < n: return name, 'NOEDIT ' + e[0] + ': ' + e[1][:60]
            k = -1
            if n == 0: s = s.replace(e[1], e[2])
            else:
                for _ in range(n): k = s.index(e[1], k + 1)
                s = s[:k] + e[2] + s[k+len(e[1]):]
            open(p, 'w').write(s)
        b = subprocess.run(['go', 'build', './...'], cwd=d, capture_output=True, text=True)
        if b.returncode: return name, 'NOBUILD ' + b.stderr[:300]
        pl = props or (','.join(exp) if exp else allp)
        r = subprocess.run(["timeout","300",PSV, '-repo', d, '-verif', VERIF, '-property', pl, '-tier', 'quick', '-noevidence'], capture_output=True, text=True)
        out = r.stdout + r.stderr
        hit = sorted({l.split('property=')[1].split()[0] for l in out.splitlines() if l.startswith('VIOLATION')})
        first = ' // '.join([l.strip() for l in out.splitlines() if l.strip().startswith('rule ')][:2])
        if r.returncode not in (0, 1): return name, 'ERROR %d %s' % (r.returncode, out[-400:])
        if exp:
            ok = bool(set(exp) & set(hit)) if not props else bool(hit)
            return name, ('CAUGHT %s | %s' % (hit, first[:260]) if ok else 'MISSED (%s)' % hit)
        return name, ('QUIET' if not hit else 'ALARM %s | %s' % (hit, first[:600]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
with cf.ThreadPoolExecutor(int(os.environ.get('J', '5'))) as ex:
    bad = 0
    for name, res in ex.map(run, M):
        if not (res.startswith('CAUGHT') or res.startswith('QUIET')): bad += 1
        print('%-28s %s' % (name, res), flush=True)
    print('%d mutants, %d not as expected' % (len(M), bad))
