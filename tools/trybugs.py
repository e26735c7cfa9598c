#!/usr/bin/env python3
"""run checks against planted bugs: trybugs.py [--all] [id ...]   (--all: every check, not only the bug's property)"""
import sys, os, subprocess, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; every = '--all' in a; ids = [x for x in a if x[0] != '-'] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = f'{V}/seeded/{i}'; w = f'/tmp/try-{i}'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(f'cp -a /repo {w} && rm -rf {w}/_build && git -C {w} apply {d}/patch.diff', shell=True, check=True)
    p = json.load(open(d + '/meta.json'))['property']
    res = []
    for c in (['C%02d' % k for k in range(1, 21)] if every else [p]):
        r = subprocess.run([sys.executable, V + '/check.py', c, 'quick'], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w))
        s = {0: 'missed', 1: 'CAUGHT' if f'VIOLATION property={c}' in r.stdout else 'BROKEN'}.get(r.returncode, f'rc{r.returncode}')
        res.append(f'{c}:{s}')
        if not every or s == 'BROKEN': res.append((r.stdout.splitlines() or [r.stderr[-200:]])[-1][:120])
    print(i, *res, flush=True)
    shutil.rmtree(w, ignore_errors=True)
