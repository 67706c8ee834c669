#!/usr/bin/env python3
"""Orchestrator: run one property's monitors and report the verdict.

    run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]

A check module (mon/checks/cXX.py) declares *legs*: monitored executions of
the real code, each in its own interpreter process (and venv).  Every leg
writes a JSON report; this file merges the reports, applies the known-findings
list, writes evidence/<id>.json and decides the exit status:

    0  the monitors observed enough and saw no (unlisted) violation
    1  VIOLATION
    2  inconclusive: a leg crashed / timed out / a monitor was not reached
"""
import argparse
import concurrent.futures
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

VENVS = {'fast': '/opt/venv/bin/python', 'slow': '/opt/venv-slow/bin/python'}
KNOWN = os.path.join(HERE, 'known_findings.txt')


def leg_env(seed, tier):
    env = {
        'HOME': '/root',
        'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
        'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'PYTHONUTF8': '1',
        'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
        'PYTHONPATH': '/repo:' + HERE,
        'VERIF_SEED': str(seed), 'VERIF_TIER': tier,
        'PYTHONWARNINGS': 'ignore',
    }
    return env


def stuck(fn):
    """stack of the main thread if it is inside the library and no thread of
    the interpreter can run (see mon/leg.py)"""
    try:
        with open(fn, encoding='utf8', errors='replace') as f:
            s = f.read()
    except OSError:
        return None
    if 'Timeout (' not in s:
        return None
    main = s.split('\nThread ')[-1]
    if '/repo/pymorphy2/' not in main:
        return None
    return '; '.join(x.strip() for x in main.splitlines()[1:7]) + '; ' + s.split('\n', 1)[0][:300]


def run_leg(check, leg, shard, nshards, seed, tier, scratch):
    out = os.path.join(scratch, '%s-%s-%d.json' % (check, leg['name'], shard))
    work = os.path.join(scratch, '%s-%s-%d.d' % (check, leg['name'], shard))
    os.mkdir(work)
    cmd = [VENVS[leg['venv']], '-m', 'mon.leg', check, leg['name'],
           str(shard), str(nshards), str(seed), tier, out, work]
    env = leg_env(seed, tier)
    env['PYTHONHASHSEED'] = str(leg.get('hashseed', 0))
    env.update(leg.get('env', {}))
    t0 = time.time()
    logfn = out + '.log'
    res = None
    with open(logfn, 'wb') as lf:
        p = subprocess.Popen(cmd, cwd=HERE, env=env, stdin=subprocess.DEVNULL, stdout=lf, stderr=subprocess.STDOUT)
        rc = since = None
        while rc is None:
            try:
                rc = p.wait(5 if since else 1 if time.time() - t0 > 60 else .2)
                continue
            except subprocess.TimeoutExpired:
                pass
            where = stuck(out + '.stuck')
            if where is None:
                since = None
            elif since is None:
                since = time.time()
            elif time.time() - since > 25:
                # the interpreter can't run any thread since HANG seconds
                rc = 0
                res = dict(evaluations=1, nt_bulk=0, nt=[], counters={}, samples=[], require={}, nviol=1, violations=[
                    dict(key='hang', msg='a call does not return: ' + where, detail={})])
            if time.time() - t0 > leg.get('timeout', 600):
                rc = 'timeout'
        if p.poll() is None:
            p.kill()
            p.wait()
    with open(logfn, 'rb') as lf:
        log = lf.read()[-20000:].decode('utf8', 'replace')
    if res is None and os.path.exists(out):
        try:
            with open(out, encoding='utf8', errors='surrogatepass') as f:
                res = json.load(f)
        except ValueError:
            res = None
    shutil.rmtree(work, ignore_errors=True)
    return dict(leg=leg['name'], shard=shard, rc=rc, log=log[-4000:], res=res,
                wall=time.time() - t0)


def load_known(prop):
    keys = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding='utf8') as f:
            for line in f:
                line = line.strip()
                if not line.startswith('finding:'):
                    continue
                rest = line[len('finding:'):].strip()
                parts = rest.split(None, 2)
                kv = dict(p.split('=', 1) for p in parts[:2])
                if kv.get('property') == prop:
                    keys[kv['key']] = parts[2] if len(parts) > 2 else ''
    return keys


def setup():
    """Nothing is built ahead: checks only need what is installed."""
    for name, py in sorted(VENVS.items()):
        p = subprocess.run([py, '-c', 'import sys, pymorphy2, dawg_python; print(sys.version.split()[0], pymorphy2.__file__)'],
                           env=leg_env(1, 'quick'), cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print(name, p.stdout.decode('utf8', 'replace').strip())
        if p.returncode:
            return 1
    return 0 if shutil.which('gcc') else 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('check', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--leg')
    a = ap.parse_args()
    if a.setup:
        sys.exit(setup())
    if a.replay:
        with open(a.replay, encoding='utf8') as f:
            r = json.load(f)
        a.seed, a.tier, a.leg = r['seed'], r['tier'], r['leg']
    prop = a.check
    mod = importlib.import_module('mon.checks.' + prop.lower())
    t0 = time.time()
    legs = mod.legs(a.tier)
    if a.leg:
        legs = [l for l in legs if l['name'] == a.leg]
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        prep = getattr(mod, 'prepare', None)
        try:
            extra = prep(scratch) if prep else None
        except Exception as e:
            sys.stdout.buffer.write(('INCONCLUSIVE: preparation failed: %s\n' % e).encode('utf8', 'backslashreplace'))
            sys.exit(2)
        jobs = []
        for leg in legs:
            if extra:
                leg.setdefault('env', {}).update(extra)
            n = leg.get('shards', 1)
            for s in range(n):
                jobs.append((prop, leg, s, n, a.seed, a.tier, scratch))
        nproc = int(os.environ.get('VERIF_JOBS') or os.cpu_count() or 4)
        with concurrent.futures.ThreadPoolExecutor(nproc) as ex:
            results = list(ex.map(lambda j: run_leg(*j), jobs))
        finish = getattr(mod, 'finish', None)
        merged = merge(results)
        if finish:
            finish(merged, results)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(report(prop, mod, a, merged, results, time.time() - t0))


def merge(results):
    m = dict(evaluations=0, nt_bulk=0, nt=set(), counters={}, samples=[],
             violations=[], nviol=0, problems=[], require={}, dumps=[])
    for r in results:
        res = r['res']
        if res is None or r['rc'] != 0:
            m['problems'].append('leg %s/%d ended with %s\n%s' % (
                r['leg'], r['shard'], r['rc'], r['log'][-1500:]))
        if res is None:
            continue
        m['evaluations'] += res['evaluations']
        m['nt_bulk'] += res['nt_bulk']
        m['nt'].update(res['nt'])
        for k, v in res['counters'].items():
            m['counters'][k] = m['counters'].get(k, 0) + v
        m['require'].update(res['require'])
        for s in res['samples']:
            m['samples'].append({'leg': r['leg'], 'case': s})
        for v in res['violations']:
            v['leg'], v['shard'] = r['leg'], r['shard']
            m['violations'].append(v)
        m['nviol'] += res['nviol']
        if res.get('problem'):
            m['problems'].append('leg %s/%d: %s' % (r['leg'], r['shard'], res['problem']))
        if res.get('dump') is not None:
            m['dumps'].append((r['leg'], r['shard'], res['dump']))
    for k, need in m['require'].items():
        if m['counters'].get(k, 0) < need:
            m['problems'].append('monitor not reached: %s observed %d < %d' % (
                k, m['counters'].get(k, 0), need))
    return m


def report(prop, mod, a, m, results, wall):
    known = load_known(prop)
    hit, fresh = {}, []
    for v in m['violations']:
        if v['key'] in known:
            hit.setdefault(v['key'], v)
        else:
            fresh.append(v)
    # evidence --------------------------------------------------------
    per_leg = {}
    for s in m['samples']:
        per_leg.setdefault(s['leg'], []).append(s['case'])
    samples = []
    for leg, cases in sorted(per_leg.items()):
        step = max(1, len(cases) // 4)
        samples += [{'leg': leg, 'case': c} for c in cases[::step][:4]]
    cov = dict(
        evaluations=m['evaluations'],
        distinct_nontrivial=m['nt_bulk'] + len(m['nt']),
        rule=mod.RULE,
        samples=samples[:16] or [{'note': 'no case completed'}],
        observed=dict(sorted(m['counters'].items())),
        legs=[dict(leg=r['leg'], shard=r['shard'], rc=r['rc'],
                   wall_s=round(r['wall'], 2)) for r in results],
    )
    if getattr(mod, 'EXHAUSTIVE', False):
        cov['exhaustive_part'] = mod.EXHAUSTIVE
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level=mod.LEVEL,
              coverage=cov, assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(wall, 2), violations=len(fresh))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w',
              encoding='utf8', errors='backslashreplace') as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
    # verdict ---------------------------------------------------------
    for k, v in hit.items():
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, known[k]))
    if fresh:
        rdir = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s.json' % prop)
        v = fresh[0]
        with open(path, 'w', encoding='utf8', errors='backslashreplace') as f:
            json.dump(dict(property=prop, seed=a.seed, tier=a.tier,
                           leg=v['leg'], shard=v['shard'],
                           command='./run.py %s --replay %s' % (prop, path),
                           violations=fresh[:20]),
                      f, ensure_ascii=False, indent=1)
        out = getattr(sys.stdout, 'buffer')
        for v in fresh[:5]:
            out.write(('  %s: %s\n' % (v['key'], v['msg'][:1500])).encode('utf8', 'backslashreplace'))
        out.write(('VIOLATION property=%s replay=%s\n' % (prop, path)).encode())
        out.flush()
        return 1
    if m['problems']:
        for p in m['problems']:
            sys.stdout.buffer.write(('INCONCLUSIVE: %s\n' % p[-700:]).encode('utf8', 'backslashreplace'))
        return 2
    print('OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs %s' % (
        prop, cov['evaluations'], cov['distinct_nontrivial'], wall,
        ' '.join('%s=%s' % kv for kv in sorted(m['counters'].items()))))
    return 0


if __name__ == '__main__':
    main()
