"""Common machinery of the checks: builds monitors from /repo's working tree, runs them, collects what they
observed, matches violations against the known findings, writes evidence and replay files.

A check is a list of parts. A part is one of
  gen(...)      generated programs over the public interface, each watched against the reference algebra
  harness(...)  one hand-written monitor program
  probe(...)    a small program that must compile (and, if asked, run)
Verdicts are three-valued: violated, held on what was observed, inconclusive (compiler or run timeout,
out of memory). Inconclusive work is counted in the evidence and never turned into a violation.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
H = os.path.join(VERIF, 'harness')
JOBS = int(os.environ.get('VERIF_JOBS', '0')) or (os.cpu_count() or 4)

GCC = 'g++'
CLANG = 'clang++'


def base_flags(cc):
    f = ['-std=c++17', '-w', '-ftemplate-depth=4000', f'-I{REPO}/public', f'-I{H}']
    if 'clang' in cc:
        f += ['-fconstexpr-steps=500000000', '-fbracket-depth=2048']
    else:
        f += ['-fconstexpr-ops-limit=2000000000', '-fconstexpr-loop-limit=10000000', '-fconstexpr-depth=4000']
    return f


RESOURCE = re.compile(r'virtual memory exhausted|out of memory|cannot allocate memory|Killed|internal compiler error|'
                      r'PLEASE submit a bug report|No space left on device|fatal error: error writing|terminated program', re.I)


# quick counts are written for about half a minute; these properties get more
BOOST = dict(C02=1.6, C04=1.5, C06=1.5, C07=1.8, C08=1.8, C13=1.5, C21=1.6)


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix=f'verif-{pid}-')
        self.lock = threading.Lock()
        self.viols = []          # dicts: key, text, files{name: content}, cmd
        self.inconclusive = []
        self.evals = self.distinct = self.compared = 0
        self.counts = {}
        self.parts = []
        self.samples = []
        self.pool = ThreadPoolExecutor(JOBS)
        self.compiles = 0

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else int(quick * BOOST.get(self.pid, 1))

    def stop(self):
        return len(self.viols) >= 3

    def violate(self, key, text, files=None, cmd='', out=''):
        with self.lock:
            self.viols.append(dict(key=key, text=text[:2000], files=files or {}, cmd=cmd, out=out[-6000:]))

    def unsure(self, text):
        with self.lock:
            self.inconclusive.append(text[:300])

    def absorb(self, out, part):
        """adds a monitor's SUMMARY to the totals; returns True when there was one"""
        m = re.search(r'^SUMMARY (\{.*\})$', out, re.M)
        if not m:
            return False
        s = json.loads(m.group(1))
        with self.lock:
            self.evals += s['evaluations']
            self.distinct += s['distinct']
            part['evaluations'] = part.get('evaluations', 0) + s['evaluations']
            for k, v in s['counts'].items():
                self.counts[k] = self.counts.get(k, 0) + v
                part[k] = part.get(k, 0) + v
        return True

    def compile(self, src, out, cc, flags, timeout=400):
        cmd = [cc] + base_flags(cc) + flags + [src, '-o', out]
        with self.lock:
            self.compiles += 1
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace')
        except subprocess.TimeoutExpired:
            return None, 'timeout', cmd
        return p.returncode, p.stderr, cmd

    def execute(self, cmd, env=None, timeout=300):
        for attempt in (0, 1, 2):
            try:
                e = dict(os.environ)
                e.update(env or {})
                p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, errors='replace')
                return p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired:
                if attempt:
                    break
            except OSError:
                if attempt == 2:
                    raise
                time.sleep(0.2)
        return None, '', 'timeout'

    # ------------------------------------------------------------ generated programs
    def gen(self, name, cases, cc=GCC, flags=('-O0',), trials=18, per_tu=25, env=None, wrap=(), tu=None, args=(), judge='values', collect=None):
        """cases: list of (idx, source) from apicase. judge: 'values' believes the monitor in the program,
        'sanitizer' only the instrumentation around it. collect(out): sees what the program printed"""
        if self.viols and os.environ.get('VERIF_STOP'):      # development aid: the first violation is enough
            return
        from apicase import tu_source
        tu = tu or tu_source
        flags = list(flags)
        part = dict(name=name, kind='generated programs', programs=len(cases), compiler=cc, flags=' '.join(flags))
        with self.lock:
            self.parts.append(part)
            uniq = len(self.parts)      # confirmations of several monitors may run at the same time
        t = time.time()
        if cases:
            m = re.search(r'cur = "(.*?)";', cases[len(cases) // 2][1])
            if m:
                self.samples.append(f'{name}: {m.group(1)[:400]}')

        def one(group, tag):
            if self.stop():
                return
            src = os.path.join(self.dir, f'{name}-{uniq}-{tag}.cpp')
            exe = src[:-4] + '.x'
            text = tu(group)
            with open(src, 'w') as f:
                f.write(text)
            rc, err, cmd = self.compile(src, exe, cc, flags)
            if rc != 0:
                if rc is None or RESOURCE.search(err):
                    if len(group) > 1:
                        for i, c in enumerate(group):
                            one([c], f'{tag}-{i}')
                    else:
                        self.unsure(f'{name}: compiler gave up on case {group[0][0]} ({err[:80]})')
                elif len(group) > 1:
                    nv = len(self.viols)
                    h = len(group) // 2
                    one(group[:h], tag + 'a')
                    one(group[h:], tag + 'b')
                    if len(self.viols) == nv:
                        self.unsure(f'{name}: group {tag} did not compile, its members did')
                else:
                    m = re.search(r'cur = "(.*?)";', group[0][1])
                    e = [l for l in err.splitlines() if 'error' in l][:3]
                    self.violate(f'{name}:compile', f'program does not compile: {m.group(1) if m else ""} :: {" | ".join(e)}',
                                 {'case.cpp': text}, ' '.join(cmd), err[:6000])
                self._rm(src, exe)
                return
            run = list(wrap) + [exe, str(self.seed), str(trials)] + [str(a) for a in args]
            rc, out, err = self.execute(run, env)
            if rc is not None and collect:
                with self.lock:
                    collect(out)
            if rc is None:
                self.unsure(f'{name}: run of group {tag} timed out')
            elif judge == 'sanitizer':
                self.absorb(out, part)
                if self._alarm(rc, err):
                    self.violate(f'{name}:sanitizer', f'{name}: {self._san(err)} (status {rc})', {'case.cpp': text}, ' '.join(cmd) + ' && ' + ' '.join(run), out[-1500:] + err)
            else:
                ok = self.absorb(out, part)
                vs = [l[5:] for l in out.splitlines() if l.startswith('VIOL ')]
                if vs:
                    m = re.search(r'#(\d+) ', vs[0])
                    only = [c for c in group if m and str(c[0]) == m.group(1)] or group
                    self.violate(f'{name}:value', vs[0], {'case.cpp': tu(only)}, ' '.join(cmd) + ' && ' + ' '.join(run), out + err)
                elif not ok or rc != 0:
                    self.violate(f'{name}:crash', f'{name}: program stopped with status {rc}: {self._san(err)}',
                                 {'case.cpp': text}, ' '.join(cmd) + ' && ' + ' '.join(run), out + err)
            self._rm(src, exe)
        groups = [cases[i:i + per_tu] for i in range(0, len(cases), per_tu)]
        list(self.pool.map(lambda kv: one(kv[1], str(kv[0])), enumerate(groups)))
        part['wall_s'] = round(time.time() - t, 1)

    @staticmethod
    def _alarm(rc, err):
        """did the instrumentation report, or the program die? (0 and 1 are the monitor's own verdicts)"""
        return rc not in (0, 1) or re.search(r'runtime error:|ERROR: \w*Sanitizer|WARNING: ThreadSanitizer|Assertion .* failed', err)

    @staticmethod
    def _san(err):
        l = [x for x in err.splitlines() if 'ERROR' in x or 'runtime error' in x or 'WARNING: ThreadSanitizer' in x or '== ' in x]
        return (l[0] if l else err[:300]).strip()

    @staticmethod
    def _rm(*fs):
        for f in fs:
            try:
                os.remove(f)
            except OSError:
                pass

    # ------------------------------------------------------------ hand-written monitors
    def harness(self, name, src, runs=((),), cc=GCC, flags=('-O1',), internal=False, env=None, wrap=(), on_viol=None, timeout=600):
        """compiles one monitor and runs it once per argument list. internal: the monitor reads library
        internals, so failing to compile says nothing about behaviour and is inconclusive."""
        self.harnesses([dict(name=name, src=src, runs=runs, cc=cc, flags=flags, internal=internal, env=env, wrap=wrap,
                             on_viol=on_viol, timeout=timeout)])

    def harnesses(self, specs):
        if self.viols and os.environ.get('VERIF_STOP'):
            return
        def one(s):
            name, cc, flags = s['name'], s.get('cc', GCC), list(s.get('flags', ('-O1',)))
            part = dict(name=name, kind='monitor', compiler=cc, flags=' '.join(flags))
            with self.lock:
                self.parts.append(part)
            t = time.time()
            src = os.path.join(H, s['src'])
            exe = os.path.join(self.dir, name + '.x')
            rc, err, cmd = self.compile(src, exe, cc, flags, timeout=800)
            if rc != 0:
                if rc is None or RESOURCE.search(err):
                    self.unsure(f'{name}: compiler gave up ({err[:80]})')
                elif s.get('internal'):
                    self.unsure(f'{name}: monitor of internals does not build against this tree')
                else:
                    e = [l for l in err.splitlines() if 'error' in l][:3]
                    self.violate(f'{name}:compile', f'{name}: program over the public interface does not compile: {" | ".join(e)}',
                                 {}, ' '.join(cmd), err[:6000])
                part['built'] = False
                return
            part['build_s'] = round(time.time() - t, 1)

            def go(args):
                if self.stop():
                    return
                run = list(s.get('wrap') or ()) + [exe] + [str(a) for a in args]
                rc, out, err = self.execute(run, s.get('env'), s.get('timeout', 600))
                if rc is None:
                    self.unsure(f'{name}: run {args} timed out')
                    return
                ok = self.absorb(out, part)
                if s.get('judge') == 'sanitizer':
                    if self._alarm(rc, err):
                        self.violate(f'{name}:sanitizer', f'{name} {args}: {self._san(err)} (status {rc})', {}, ' '.join(cmd) + ' && ' + ' '.join(run), out[-1500:] + err)
                    return
                for l in out.splitlines():
                    if l.startswith('SAMPLE ') and len(self.samples) < 12:
                        self.samples.append(f'{name}: {l[7:407]}')
                vs = [l[5:] for l in out.splitlines() if l.startswith('VIOL ')]
                if vs and s.get('on_viol'):
                    s['on_viol'](self, vs, run)
                elif vs:
                    for v in vs[:10]:
                        m = re.match(r'\[key=([^\]]+)\] ', v)
                        self.violate(m.group(1) if m else f'{name}:value', v, {}, ' '.join(cmd) + ' && ' + ' '.join(run), out + err)
                elif not ok or rc != 0:
                    if s.get('internal') and rc and rc < 0 and not s.get('strict'):
                        self.unsure(f'{name}: monitor of internals stopped with {rc}')
                    else:
                        self.violate(f'{name}:crash', f'{name} {args}: stopped with status {rc}: {self._san(err)}', {},
                                     ' '.join(cmd) + ' && ' + ' '.join(run), out + err)
            with ThreadPoolExecutor(JOBS) as ex:
                list(ex.map(go, s.get('runs', ((),))))
            part['runs'] = len(list(s.get('runs', ((),))))
            part['wall_s'] = round(time.time() - t, 1)
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, specs))

    # ------------------------------------------------------------ programs that must compile
    def probes(self, items, cc=GCC, flags=('-O0',)):
        """items: (key, description, source, must_run)"""
        part = dict(name='probes', kind='programs that must compile', programs=len(items), compiler=cc)
        self.parts.append(part)

        def one(it):
            key, desc, text, must_run = it
            src = os.path.join(self.dir, re.sub(r'\W', '_', key) + '.cpp')
            exe = src[:-4] + '.x'
            with open(src, 'w') as f:
                f.write(text)
            rc, err, cmd = self.compile(src, exe, cc, list(flags))
            with self.lock:
                self.evals += 1
                self.distinct += 1
            if rc is None or (rc and RESOURCE.search(err)):
                self.unsure(f'probe {key}: compiler gave up')
            elif rc:
                e = [l for l in err.splitlines() if 'error' in l][:2]
                self.violate(key, f'{desc}: {" | ".join(e)}', {'case.cpp': text}, ' '.join(cmd), err[:4000])
            elif must_run:
                rc, out, err = self.execute([exe])
                if rc:
                    self.violate(key, f'{desc}: {out[:300]}', {'case.cpp': text}, ' '.join(cmd) + f' && {exe}', out + err)
            self._rm(src, exe)
        list(self.pool.map(one, items))

    # ------------------------------------------------------------ verdict
    def finish(self, rule, assumptions, level='exploration'):
        known = load_known(self.pid)
        fresh, listed = [], []
        for v in self.viols:
            k = [x for x in known if x['key'] == v['key']]
            (listed if k else fresh).append((v, k))
        out = {}
        for v, k in listed:
            out.setdefault(k[0]['key'], k[0])
        for k in out.values():
            print(f'KNOWN-FINDING: property={self.pid} {k["text"]}')
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(evaluations=self.evals, distinct_nontrivial=self.distinct, rule=rule, samples=self.samples[:12],
                                programs_compiled=self.compiles, parts=self.parts, counters=self.counts,
                                inconclusive=self.inconclusive[:20], inconclusive_count=len(self.inconclusive),
                                known_findings_seen=sorted(out)),
                  assumptions=assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(fresh))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        rc = 0
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        for i, (v, _) in enumerate(fresh[:3]):
            d = os.path.join(rdir, f'{self.pid}-{i}')
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for fn, txt in v['files'].items():
                with open(os.path.join(d, fn), 'w') as f:
                    f.write(txt)
            cmd = v['cmd']
            if 'case.cpp' in v['files']:
                cmd = re.sub(re.escape(self.dir) + r'/\S+?\.cpp', os.path.join(d, 'case.cpp'), cmd)
            cmd = re.sub(re.escape(self.dir) + r'/\S+?\.x', os.path.join(d, 'case.x'), cmd)
            with open(os.path.join(d, 'replay.txt'), 'w') as f:
                f.write(f'property: {self.pid}\nseed: {self.seed}\nobserved: {v["text"]}\n\ncommand:\n{cmd}\n\noutput:\n{v["out"]}\n')
            print(f'observed: {v["text"][:600]}')
            print(f'VIOLATION property={self.pid} replay={os.path.join(d, "replay.txt")}')
            rc = 1
        if not fresh and self.evals == 0:
            print(f'{self.pid}: nothing was observed (inconclusive): {self.inconclusive[:3]}')
        with open(os.path.join(VERIF, 'evidence', f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print(f'{self.pid} {self.tier} seed={self.seed}: {self.evals} evaluations, {self.distinct} distinct, {self.compiles} programs built, '
              f'{len(fresh)} violations, {len(self.inconclusive)} inconclusive, {ev["wall_s"]} s')
        self.pool.shutdown(wait=False)
        shutil.rmtree(self.dir, ignore_errors=True)
        return rc


def load_known(pid):
    """lines 'known: property=<id> key=<key> <what fails>'; 'fixed:' lines suppress nothing"""
    out = []
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for l in f:
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
                if m and m.group(1) == pid:
                    out.append(dict(key=m.group(2), text=m.group(3).strip()))
    except OSError:
        pass
    return out
