#!/usr/bin/env python3
"""Build and confirm planted bugs.  usage: plant.py SPEC.py [id ...] [--check]
SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo=C++ source, needs, breaks, [flags])].
For each: scratch copy in /tmp/plant-<id>, edits, 77 tests, demo passes on /repo and fails on the copy;
then /verif/seeded/<id>/ is written.  With --check the property's check runs against the copy."""
import sys, os, subprocess, shutil, json, runpy
REPO, BASE = '/repo', 'afae89d'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds in the tree at the current directory; non-zero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
%s -std=c++17 -O1 -w %s -I"$PWD/public" "$here/demo.cpp" -o "$t/demo" || exit 2
timeout 120 "$t/demo"
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def plant(b, check):
    w = '/tmp/plant-' + b['id']
    shutil.rmtree(w, ignore_errors=True)
    sh(f'git -C {REPO} worktree prune; cp -a {REPO} {w}; rm -rf {w}/_build')
    for f, old, new in b['edits']:
        p = f'{w}/public/gal/{f}'; s = open(p).read()
        if s.count(old) != 1: return f'edit matches {s.count(old)} times: {old[:60]!r}'
        open(p, 'w').write(s.replace(old, new))
    diff = sh(f'git -C {w} diff').stdout
    # only lines of the original repository may be changed
    orig = set(sh(f'git -C {REPO} rev-list {BASE}').stdout.split())
    bad = 0; touched = 0
    for f in {e[0] for e in b['edits']}:
        bl = sh(f'git -C {w} blame -s --abbrev=40 HEAD -- public/gal/{f}').stdout.splitlines()
        ln = 0
        for l in sh(f'git -C {w} diff -U0 -- public/gal/{f}').stdout.splitlines():
            if l.startswith('@@'): ln = int(l.split()[1].split(',')[0][1:])
            elif l.startswith('-') and not l.startswith('---'):
                h = bl[ln-1].split()[0].lstrip('^'); ln += 1; touched += 1
                if not any(o.startswith(h[:39]) for o in orig): bad += 1
    d = f'{V}/seeded/{b["id"]}'; os.makedirs(d, exist_ok=True)
    open(d+'/patch.diff', 'w').write(diff)
    open(d+'/demo.cpp', 'w').write(b['demo'])
    open(d+'/demo.sh', 'w').write(DEMO % (b.get('cxx', 'g++'), b.get('flags', ''))); os.chmod(d+'/demo.sh', 0o755)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d+'/meta.json', 'w'), indent=1)
    msg = []
    if bad: msg.append(f'{bad} of {touched} removed lines are not original')
    r = sh(f'bash {d}/demo.sh', cwd=REPO)
    if r.returncode: msg.append(f'demo on clean tree: {r.returncode} {r.stdout[-300:]} {r.stderr[-600:]}')
    r = sh(f'bash {d}/demo.sh', cwd=w)
    if r.returncode == 0: msg.append('demo passes with the bug')
    elif r.returncode == 2: msg.append('(demo does not compile with the bug)')
    t = sh(f'cmake -S {w} -B {w}/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DGAL_TESTS_ENABLED=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_DOCTEST=/opt/vp/doctest-shim && ninja -C {w}/_build && {w}/_build/bin/gal_test')
    if t.returncode: msg.append('tests fail: ' + (t.stdout+t.stderr)[-300:])
    ok = not [m for m in msg if not m.startswith('(')]
    if not ok: shutil.rmtree(d)
    out = 'OK' if ok else 'REJECTED'
    if ok and check:
        for p in [b['prop']] if check is True else check:
            r = sh(f'python3 {V}/check.py {p} quick', cwd=V, env=dict(os.environ, VERIF_REPO=w, VERIF_SEED='1', VERIF_TIER='quick'))
            out += f' {p}:{"CAUGHT" if r.returncode==1 else "MISSED" if r.returncode==0 else "rc%d"%r.returncode}'
            if r.returncode: out += ' ' + '|'.join((r.stdout).splitlines()[-2:])[:160]
    shutil.rmtree(w, ignore_errors=True)
    return out + ' ' + ' ; '.join(msg)
if __name__ == '__main__':
    a = sys.argv[1:]; check = '--check' in a; a = [x for x in a if x != '--check']
    only = a[1:]
    for b in runpy.run_path(a[0])['BUGS']:
        if only and b['id'] not in only: continue
        print(b['id'], plant(b, check), flush=True)
