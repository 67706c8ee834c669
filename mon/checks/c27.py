# -*- coding: utf-8 -*-
"""C27: both DAWG backends give the same results."""
import os
LEVEL = 'exploration'
RULE = ('the same operations (all token kinds; parse, tags, lexemes, inflection, agreement, dictionary queries and '
        'prefix iteration, custom substitutions and known prefixes) are executed under the C++ DAWG extension and the '
        'pure-Python reader, on the installed, a cut-out and generated dictionaries; the two event logs are compared entry by '
        'entry.  Non-trivial = distinct operations whose result is not empty.')
ASSUMPTIONS = ['the interpreter is the same (PyPy 3.9) under both backends']
SHARDS = 4


def legs(tier):
    return [dict(name='slow', venv='slow', shards=SHARDS, timeout=850),
            dict(name='fast', venv='fast', shards=SHARDS, timeout=850)]


def prepare(scratch):
    from mon.subset import prepare as sub
    from mon.maketoys import prepare as toys
    return {'SUBSET': sub(scratch), 'TOYS': toys(scratch, 2 * SHARDS, os.environ.get('VERIF_SEED') or 1)}


def run(ctx):
    import hashlib
    import json
    import os
    import random
    import pymorphy2
    from mon import ops
    from mon.env import Env, ru_path
    r = random.Random('C27/%s/%s' % (ctx.seed, ctx.shard))
    ctx.rng = r
    log = []

    def record(label, value):
        s = json.dumps(value, ensure_ascii=False, sort_keys=True)
        log.append([label, hashlib.md5(s.encode('utf8', 'surrogatepass')).hexdigest()[:12], s[:500]])
        ctx.ev()
        if ctx.leg == 'slow' and value not in ([], None, False):
            ctx.nt(label)

    def session(path, n, **kw):
        env = Env(ctx, path=path, prefixes=8 if path == ru_path() else 40, model=False)
        m = env.morph
        name = os.path.basename(path)
        kinds = [k for k in env.tokens.kinds if k not in ('sharp',)]
        env.words.words.sort()
        # numbers of random choices are equal in both legs: nothing below
        # may depend on results of the code under test
        pool = [env.tokens.gen(kinds[i % len(kinds)]) for i in range(n)]
        pool += [env.words.pick() for _ in range(n // 2)]
        for o in ops.make(r, lambda: r.choice(pool), n):
            record('%s %s%r' % (name, o[0], o[1]), ops.run(m, o))
        for w in pool:
            record('%s parse(%r)' % (name, w), ops.run(m, ('parse', (w,))))
            record('%s known(%r)' % (name, w), ops.run(m, ('known', (w,))))
        ctx.count('operations', len(log))
        subs = r.choice([None, {u'а': u'о'}, {u'е': u'ё', u'о': u'а', u'и': u'ы'}, {u'c': u'с', u'e': u'ё'}])
        pre = [w[:r.randint(1, 4)].lower() for w in r.sample(pool, 12)]
        pre = sorted(set(p for p in pre if p.strip())) or [u'не']
        m2 = pymorphy2.MorphAnalyzer(path=path, char_substitutes=subs, units=[
            pymorphy2.units.DictionaryAnalyzer(),
            [pymorphy2.units.KnownPrefixAnalyzer(known_prefixes=pre, min_remainder_length=2),
             pymorphy2.units.HyphenatedWordsAnalyzer(skip_prefixes=pre), pymorphy2.units.KnownSuffixAnalyzer()],
            pymorphy2.units.UnknAnalyzer()])
        for w in r.sample(pool, n // 3):
            w = r.choice(pre) + w if r.random() < .5 else w
            record('%s custom %r %r parse(%r)' % (name, subs, pre, w), ops.run(m2, ('parse', (w,))))
            record('%s custom %r tag(%r)' % (name, subs, w), ops.run(m2, ('tag', (w,))))
            record('%s custom %r known(%r)' % (name, subs, w), ops.run(m2, ('known', (w,))))
        for _ in range(n // 10):
            p = r.choice(pool)[:r.randint(1, 3)].lower()
            out = []
            try:
                for i, x in enumerate(m.iter_known_word_parses(p)):
                    out.append([x[0], str(x[1]), x[2], repr(x[4])])
                    if i > 300:
                        break
            except Exception as e:
                out.append(repr(e))
            record('%s iter(%r)' % (name, p), out)
    for k in (0, 1):
        session(os.path.join(os.environ['TOYS'], 'toy%d' % (ctx.shard + k * SHARDS)), ctx.budget(150, 600))
    session(os.environ['SUBSET'], ctx.budget(700, 4000))
    session(ru_path(), ctx.budget(1500, 15000))
    ctx.require('operations', 2000)
    import sys
    ext = 'dawg' in sys.modules
    if ext != (ctx.leg == 'fast'):
        raise RuntimeError('leg %s runs with the wrong backend' % ctx.leg)
    ctx.count('leg_with_extension' if ext else 'leg_without_extension')
    ctx.sample(dict(operation=log[0][0], result=log[0][2][:200]))
    ctx.sample(dict(operation=log[-1][0], result=log[-1][2][:200]))
    ctx.dump = log


def finish(m, results):
    logs = dict(((leg, shard), d) for leg, shard, d in m['dumps'])
    compared = 0
    for s in range(SHARDS):
        a, b = logs.get(('slow', s)), logs.get(('fast', s))
        if a is None or b is None:
            m['problems'].append('event log of shard %d is missing' % s)
            continue
        if len(a) != len(b) or any(x[0] != y[0] for x, y in zip(a, b)):
            m['problems'].append('the legs of shard %d executed different operations' % s)
            continue
        for x, y in zip(a, b):
            compared += 1
            if x[1] != y[1]:
                m['nviol'] += 1
                if len(m['violations']) < 40:
                    m['violations'].append(dict(key='backends', leg=None, shard=s, detail={}, msg=(
                        '%s: pure Python %s, extension %s' % (x[0], x[2], y[2]))))
    m['counters']['compared'] = compared
    if not compared and not m['violations']:
        m['problems'].append('nothing was compared')
