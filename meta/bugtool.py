#!/usr/bin/env python3
"""Author, confirm and run planted bugs (development tool; no check uses it).

    bugtool.py confirm ID...     in a scratch copy: applies, builds, stable tests pass, demo 0 / nonzero
    bugtool.py check ID... [-c C01,C02|own|all] [--tier T]   run checks against the bug
A scratch copy is mounted over /repo in a private mount namespace, so several can run at the same time.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, 'seeded')
TMP = '/tmp/sb'


def ns(repo, cmd, extra=''):
    sh = 'mount --bind %s /repo %s && cd /repo && %s' % (repo, extra, cmd)
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          stdin=subprocess.DEVNULL)


def confirm(b):
    d = os.path.join(SEED, b)
    os.makedirs(TMP, exist_ok=True)
    t = tempfile.mkdtemp(dir=TMP)
    repo = os.path.join(t, 'repo')
    try:
        shutil.copytree('/repo', repo, symlinks=True)
        demo = os.path.join(t, 'demo')
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        r = ns(repo, 'bash /opt/vp/build.sh && timeout 300 bash %s/demo.sh' % demo)
        if r.returncode:
            return b, 'DEMO FAILS ON UNCHANGED: ' + r.stdout.decode()[-800:]
        r = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return b, 'NO APPLY ' + r.stdout.decode()
        r = ns(repo, 'bash /opt/vp/build.sh')
        if r.returncode:
            return b, 'NO BUILD ' + r.stdout.decode()[-800:]
        r = ns(repo, 'timeout 300 bash %s/demo.sh' % demo)
        dm = r.stdout.decode()[-300:]
        if r.returncode == 0:
            return b, 'DEMO PASSES WITH PATCH ' + dm
        r = ns(repo, 'bash /opt/vp/test.sh %s/o.json' % t)
        with open(t + '/o.json') as f:
            passed = set(json.load(f)['passed'])
        with open('/opt/vp/BASELINE.json') as f:
            st = json.load(f)['stable']
        bad = [x for x in st if x not in passed]
        if bad:
            return b, 'TESTS FAIL %d %s' % (len(bad), bad[:4])
        return b, 'ok (demo: %s)' % dm.strip().replace('\n', ' | ')[-160:]
    finally:
        shutil.rmtree(t, ignore_errors=True)


def check(b, cs, tier, patch=True, seed=1):
    """-> {check: (rc, last lines)}"""
    d = os.path.join(SEED, b)
    os.makedirs(TMP, exist_ok=True)
    t = tempfile.mkdtemp(dir=TMP)
    repo, ver = os.path.join(t, 'repo'), os.path.join(t, 'verif')
    try:
        shutil.copytree('/repo', repo, symlinks=True)
        shutil.copytree(ROOT, ver, symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
        os.mkdir(os.path.join(ver, 'evidence'))
        if patch:
            subprocess.check_call(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=repo)
        out = {}
        for c in cs:
            r = ns(repo, 'cd /verif && VERIF_SEED=%d python3 run.py %s --tier %s --seed %d' % (seed, c, tier, seed),
                   '&& mount --bind %s /verif' % ver)
            txt = r.stdout.decode('utf8', 'replace')
            out[c] = (r.returncode, txt[-700:])
        return b, out
    finally:
        shutil.rmtree(t, ignore_errors=True)


def main():
    a = sys.argv[1:]
    cmd = a.pop(0)
    tier, cs, jobs, seed = 'quick', 'own', None, 1
    ids = []
    while a:
        x = a.pop(0)
        if x == '-c':
            cs = a.pop(0)
        elif x == '-j':
            jobs = int(a.pop(0))
        elif x == '--seed':
            seed = int(a.pop(0))
        elif x == '--tier':
            tier = a.pop(0)
        else:
            ids.append(x)
    if ids == ['all']:
        ids = sorted(os.listdir(SEED))
    if cmd == 'confirm':
        with concurrent.futures.ThreadPoolExecutor(jobs or 4) as ex:
            for b, r in ex.map(confirm, ids):
                print(b, r, flush=True)
        return
    with open(os.path.join(ROOT, 'MANIFEST.json')) as f:
        allc = [c['property'] for c in json.load(f)['checks']]
    fn = os.path.join(ROOT, 'meta', 'caught.json')

    def job(b):
        with open(os.path.join(SEED, b, 'meta.json')) as f:
            own = json.load(f)['property']
        lst = [own] if cs == 'own' else allc if cs == 'all' else cs.split(',')
        return check(b, lst, tier, seed=seed)
    with concurrent.futures.ThreadPoolExecutor(jobs or 2) as ex:
        for b, out in ex.map(job, ids):
            caught = {}
            if os.path.exists(fn):
                with open(fn) as f:
                    caught = json.load(f)
            lst = set(caught.get(b, []))
            for c, (rc, txt) in out.items():
                viol = [l for l in txt.splitlines() if l.startswith('VIOLATION')]
                print(b, c, rc, (viol or txt.splitlines()[-3:] or [''])[0][:200], flush=True)
                if rc == 1 and viol:
                    lst.add(c)
                elif cs != 'nope':
                    lst.discard(c)
            caught[b] = sorted(lst)
            with open(fn, 'w') as f:
                json.dump(caught, f, indent=1, sort_keys=True)
                f.write('\n')


if __name__ == '__main__':
    main()
