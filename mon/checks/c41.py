# -*- coding: utf-8 -*-
"""C41: answers do not depend on the process which gives them."""
LEVEL = 'exploration'
RULE = ('random questions (mon/ops.py) on tokens of every kind, for the full dictionary and small ones, both languages, '
        'command lines, and random source dictionaries to compile, given to fresh processes which differ in hash seed, optimization '
        'flags, locale, working directory (with a relative path of the dictionary), and in the interpreter: PyPy, and '
        'CPython, whose sets really have another order under every hash seed.  Oracle: the answers and the compiled '
        'files are equal.  Non-trivial = distinct (question, process) pairs.')
ASSUMPTIONS = ['the python3 of the machine (without the DAWG extension) imports the pure-Python packages of the PyPy '
               'environment; inspect.getargspec, which the newest Pythons lack, is supplied to it',
               'answers of CPython and PyPy are compared only for characters whose properties are the same in their '
               'versions of Unicode']


def legs(tier):
    return [dict(name='ask', venv='slow', shards=3, timeout=850),
            dict(name='compile', venv='fast', shards=2, timeout=850)]


def prepare(scratch):
    from mon.subset import prepare as sub
    return {'SUBSET': sub(scratch)}


VARIANTS = [
    ('plain', [], {}),
    ('-O', ['-O'], {}),
    ('-OO', ['-OO'], {}),
    ('locale C', [], dict(LC_ALL='C', LANG='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')),
    ('locale POSIX', [], dict(LC_ALL='POSIX', LANG='POSIX', PYTHONUTF8='0')),
    ('other folder', [], dict(C41_CWD='/')),
    ('other folder', [], dict(C41_CWD='/usr/lib', TZ='Asia/Vladivostok', HOME='/nonexistent', USER='nobody')),
    ('hash seed', [], {}),
    ('isolated', ['-s', '-B'], dict(COLUMNS='20', TERM='dumb', PYTHONIOENCODING='latin1')),
    ('bytes warnings', ['-b'], {}),
]


def common(args):
    """the characters of these arguments are old"""
    if isinstance(args, (list, tuple)):
        return all(common(a) for a in args)
    if not isinstance(args, str):
        return True
    return all(32 <= ord(c) < 127 or 'Ѐ' <= c <= 'ґ' or c in '«»—–…№’' for c in args)


def equal(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) < 1e-7    # the last bits of a sum are not the same in all versions
    return a == b


def children(ctx, job, name, n, cpython):
    """(variant, result or None) of processes of both kinds"""
    import concurrent.futures
    import glob
    import json
    import os
    import subprocess
    import sys
    import dawg_python
    rng = ctx.rng
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    src = os.path.join(ctx.work, name + '.json')
    with open(src, 'w', encoding='utf8') as f:
        json.dump(job, f)
    runs = [('PyPy', 'plain', [], {})]
    runs += [('PyPy',) + v for v in rng.sample(VARIANTS[1:], n)]
    runs += [('CPython',) + v for v in [VARIANTS[0]] * 2 + rng.sample(VARIANTS, cpython - 2)]
    site = os.path.dirname(os.path.dirname(os.path.abspath(dawg_python.__file__)))

    def go(i, impl, variant, flags, extra):
        out = os.path.join(ctx.work, '%s-%d.out' % (name, i))
        env = dict(os.environ, PYTHONHASHSEED=str(seeds[i]), C41_SITE=site)
        env.update(extra)
        if impl == 'CPython' and job['what'] == 'compile':
            env['PYTHONPATH'] = os.path.join(here, 'mon', 'stubs_dawg') + os.pathsep + env['PYTHONPATH']
        cmd = [sys.executable if impl == 'PyPy' else 'python3'] + flags + [os.path.join(here, 'mon', 'envchild.py'), src, out]
        with open(out + '.log', 'wb') as log:
            try:
                rc = subprocess.call(cmd, env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT, cwd=here,
                                     timeout=600)
            except (OSError, subprocess.TimeoutExpired) as e:
                rc = repr(e)
        if rc:
            with open(out + '.log', encoding='utf8', errors='replace') as f:
                return None, 'exit status %s: %s' % (rc, f.read()[-1200:])
        with open(out, encoding='utf8') as f:
            return json.load(f), None
    seeds = [rng.randint(1, 2 ** 32 - 1) for _ in runs]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        res = list(ex.map(lambda i: go(i, *runs[i]), range(len(runs))))
    for fn in glob.glob(os.path.join(ctx.work, name + '*')):
        if os.path.isfile(fn):
            os.remove(fn)
    out = []
    for (impl, variant, flags, extra), seed, (r, err) in zip(runs, seeds, res):
        what = '%s (%s, hash seed %d)' % (impl, variant, seed)
        ctx.count('processes')
        if err and impl == 'CPython':
            # that interpreter can't run the library: nothing to compare
            ctx.count('cpython_unusable')
            ctx.sample(dict(unusable=what, why=err))
            continue
        if err:
            ctx.violation('dies', '%s: %s' % (what, err))
            continue
        ctx.count(impl)
        out.append((impl, what, r))
    return out


def run(ctx):
    (ask if ctx.leg == 'ask' else compiling)(ctx)


def ask(ctx):
    import os
    from mon import ops
    from mon.env import Env, ru_path
    rng = ctx.rng
    ctx.require('PyPy', 6)
    for k in range(ctx.budget(1, 4)):
        path, lang = [(ru_path(), 'ru'), (os.environ['SUBSET'], 'ru'), (os.environ['SUBSET'], 'uk')][(ctx.shard + k) % 3]
        env = Env(ctx, path=path, lang=lang, model=False)
        kinds = [x[2:] for x in dir(env.tokens) if x.startswith('k_')]
        questions = ops.make(rng, lambda: env.tokens.gen(rng.choice(kinds)), ctx.budget(3000, 12000))
        commands = []
        for j in range(ctx.budget(6, 20)):
            # the command line, reading a file
            fn = os.path.join(ctx.work, 'text%d.txt' % j)
            toks = [w for w in (env.tokens.gen(rng.choice(kinds)) for _ in range(80)) if common(w)]
            with open(fn, 'w', encoding='utf8') as f:
                f.write(rng.choice(['\n', ' ', ', ']).join(toks) + '\n')
            commands.append(['parse'] + rng.sample(['-l', '-t', '--tokenized', '--cache=3', '--thresh=0.1'], rng.randint(0, 5)) + [fn])
        got = children(ctx, dict(what='ask', path=path, lang=lang, ops=questions, commands=commands), 'ask%d' % k, 5, 4)
        questions += [('command', c) for c in commands]
        old = [common(a) for _, a in questions]
        for i in rng.sample(range(len(questions)), 3):
            ctx.sample(dict(question=repr(questions[i])[:200], lang=lang, processes=[x[1] for x in got],
                            answer=repr(got[0][2][i])[:200] if got else None))
        for impl in ('PyPy', 'CPython'):
            group = [x for x in got if x[0] == impl]
            for _, what, r in group:
                first = [group[0]] if r is not group[0][2] else []
                if impl == 'CPython' and r is group[0][2] and got[0][0] == 'PyPy':
                    first = [got[0]]
                for _, other, r0 in first:
                    for i, q in enumerate(questions):
                        if impl == 'CPython' and other.startswith('PyPy') and (not old[i] or q[0] == 'command'):
                            continue
                        ctx.ev()
                        if not equal(r[i], r0[i]):
                            ctx.violation('differs', '%s%r, %s: in %s, not as in %s: %.600r; %.600r' % (
                                q[0], tuple(q[1]), lang, what, other, r[i], r0[i]))
                            break
                    for i in range(len(questions)):
                        ctx.nt((ctx.shard, k, i, what, other))


def compiling(ctx):
    import os
    from mon.dictgen import Toy, base_grammemes
    rng = ctx.rng
    G = base_grammemes()
    sources = []
    ctx.require('PyPy', 3)
    for k in range(ctx.budget(15, 100)):
        t = Toy(rng, G, prefixes=rng.choice([('', 'по', 'наи'), ('',), ('', 'най', 'якнай')]),
                alphabet=rng.choice(['абвг', 'аеё', 'абвгдеёжзийклмнопрстуфхцчшщъыьэюя']))
        t.fill(rng.randint(20, 120), irregular=rng.choice([0, .2, .4]), min_stem=rng.choice([2, 6]))
        t.add_links(rng.choice([0, 5, 20]), forest=rng.random() < .5)
        opts = dict(paradigm_prefixes=list(t.prefixes))
        if rng.random() < .7:
            opts.update(max_suffix_length=rng.choice([1, 2, 3, 4, 5, 6, 9, 14]), min_ending_freq=rng.randint(1, 4),
                        min_paradigm_popularity=rng.randint(0, 5))
        fn = os.path.join(ctx.work, 'src%d.xml' % k)
        t.to_xml(fn)
        sources.append((fn, opts))
    got = children(ctx, dict(what='compile', sources=sources), 'compile', 4, 4)
    for impl, what, r in got:
        for _, other, r0 in got[:1] + [x for x in got if x[0] == 'CPython'][:1]:
            if r is r0:
                continue
            same_impl = other.startswith(impl)
            for i, (fn, opts) in enumerate(sources):
                ctx.ev()
                ctx.nt((ctx.shard, i, what, other))
                if set(r[i]) != set(r0[i]):
                    ctx.violation('files', '%s writes %r, %s writes %r' % (what, sorted(r[i]), other, sorted(r0[i])))
                    continue
                for name in r[i]:
                    if not same_impl and name.endswith('.dawg'):
                        continue    # another format
                    if r[i][name] != r0[i][name]:
                        ctx.violation('compiled', '%s is not the same when compiled in %s and in %s (options %r)' % (
                            name, what, other, opts))
