#!/usr/bin/env python3
"""Plants the bugs of tools/seeds.py one by one in a scratch copy of /repo, keeps those which count in /verif/seeded.

usage: mkseeds.py [--check] [ID ...]     --check also runs the property's quick check on the copy"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds import SEEDS
W = '/tmp/verif-seeds'
PY = '/opt/venv/bin/python'
BASE = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^base$'], text=True).split()[-1]
DEMO = '''#!/bin/sh
# run in the root of the repository: exit 0 if the code is right
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=300):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=dict(os.environ, **(env or {})))


def main():
    args = sys.argv[1:]
    check = '--check' in args
    ids = [a for a in args if not a.startswith('-')]
    if os.path.exists(W): shutil.rmtree(W)
    shutil.copytree('/repo', W, symlinks=True)
    bad = []
    for s in SEEDS:
        sid, prop = s['id'], s['id'].split('-')[0]
        if ids and sid not in ids and prop not in ids: continue
        out = os.path.join(V, 'seeded', sid)
        sh('git checkout -q . && git clean -fdq', W)
        err = None
        for f, a, b in s['edits'] + s.get('also', []):
            p = os.path.join(W, 'quantities', f)
            t = open(p).read()
            if t.count(a) < 1: err = 'text not found in %s: %r' % (f, a[:60]); break
            n = s.get('nth', 0)
            if t.count(a) > 1 and 'nth' not in s and not s.get('all'): err = 'text found %d times in %s: %r' % (t.count(a), f, a[:60]); break
            if s.get('all'): t = t.replace(a, b)
            else:
                parts = t.split(a); t = a.join(parts[:n + 1]) + b + a.join(parts[n + 1:])
            open(p, 'w').write(t)
        if err: print(sid, 'NOT APPLIED:', err); bad.append(sid); continue
        diff = sh('git diff', W).stdout
        # every line that is taken away or changed must be a line of the original repository
        removed = []
        cur = None
        for line in diff.splitlines():
            m = re.match(r'--- a/(.*)', line)
            if m: cur = m.group(1); continue
            m = re.match(r'@@ -(\d+)', line)
            if m: n = int(m.group(1)); continue
            if line.startswith('+'): continue
            if line.startswith('-'): removed.append((cur, n))
            if line.startswith(('-', ' ')): n += 1
        mine = []
        for f, n in removed:
            b = sh('git blame -l -s -L %d,%d HEAD -- %s' % (n, n, f), '/repo').stdout.split()[0].lstrip('^')
            if not BASE.startswith(b[:20]): mine.append((f, n))
        if not removed or mine: print(sid, 'does not count, changes lines of my own commits or none:', mine)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        head = 'import numpy as np\nimport quantities as pq\nfrom quantities import Quantity as Q, UncertainQuantity as UQ\n'
        open(os.path.join(out, 'demo.py'), 'w').write(head + s['demo'].strip('\n') + '\n')
        json.dump(dict(property=prop, needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        d0 = sh('sh %s/demo.sh' % out, '/repo'); d1 = sh('sh %s/demo.sh' % out, W)
        t = sh('%s -B -m pytest -q -p no:cacheprovider -x --ignore=conda.recipe --doctest-glob=README.rst 2>&1 | tail -4' % PY, W, dict(PYTHONPATH=W, PYTHONHASHSEED='0'))
        ok = d0.returncode == 0 and d1.returncode != 0 and '176 passed' in t.stdout and not re.search(r'\d failed', t.stdout) and removed
        res = ''
        if check and ok:
            c = sh('%s -B bin/check.py %s quick' % (PY, prop), V, dict(VERIF_REPO=W), 900)
            keys = [l.strip() for l in c.stdout.splitlines() if '|' in l and not l.startswith('KNOWN-FINDING')][:1]
            res = ('caught ' + (keys[0][:100] if keys else '')) if c.returncode == 1 and 'VIOLATION property=%s' % prop in c.stdout else 'MISSED rc=%d %s' % (c.returncode, c.stdout[-300:])
        print(sid, 'ok' if ok else 'NO: demo on HEAD %d, with patch %d, tests %s %s' % (d0.returncode, d1.returncode, t.stdout.strip().splitlines()[-3:], d0.stdout[-300:] if d0.returncode else ''), res, flush=True)
        rp = os.path.join(V, 'tools/seed_results.json')
        results = json.load(open(rp)) if os.path.exists(rp) else {}
        if ok:
            old = results.get(sid, {})
            r = dict(needs=s['needs'], breaks=s['breaks'], result=old.get('result', 'not run'))
            if res:
                r['result'] = 'caught' if res.startswith('caught') else 'missed'
            if mine: r['mine'] = True
            if old.get('missed_before') or (old.get('result') == 'missed'): r['missed_before'] = True
            results[sid] = r
            json.dump(results, open(rp, 'w'), indent=1, sort_keys=True)
        if not ok: bad.append(sid)
        if not ok or mine: shutil.rmtree(out)
    shutil.rmtree(W)
    print('bad:', bad)

main()
