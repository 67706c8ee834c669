# -*- coding: utf-8 -*-
"""C26: pickled/copied analyzers and tags behave like the originals."""
LEVEL = 'exploration'
RULE = ('analyzers of all combinations of result type, pipeline, estimator and substitutions are pickled (all '
        'protocols, repeatedly, before and after use) and copied; unpickled here and in another process with the '
        'other DAWG backend; all results are compared on a mixed workload.  Tags (all of the dictionary, random '
        'ones, with registered grammemes) round-trip with equality, hash, text and attributes.  Non-trivial = '
        'distinct (configuration, protocol, process) combinations and distinct tags.')
ASSUMPTIONS = []


def legs(tier):
    return [dict(name='analyzers', venv='slow', shards=6, timeout=850),
            dict(name='analyzers-fast', venv='fast', shards=1, timeout=850),
            dict(name='tags', venv='slow', shards=1, timeout=850)]


def prepare(scratch):
    from mon.subset import prepare as sub
    return {'SUBSET': sub(scratch)}


OTHER = r'''
import pickle, sys, json
from mon import pickle_types
with open(sys.argv[1], 'rb') as f:
    items, words = pickle.load(f)
out = []
for data in items:
    try:
        out.append(pickle_types.view(pickle.loads(data), words))
    except Exception as e:
        out.append(['raised', repr(e)[:300]])
with open(sys.argv[2], 'w', encoding='utf8') as f:
    json.dump(out, f)
'''


def run(ctx):
    import copy
    import json
    import os
    import pickle
    import random
    import subprocess
    import sys
    import time
    import pymorphy2
    from mon import ops, pickle_types
    from mon.env import Env
    path = os.environ['SUBSET']
    rng = ctx.rng
    j = lambda x: json.loads(json.dumps(x))
    if ctx.leg == 'tags':
        m = pymorphy2.MorphAnalyzer(path=path)
        T = m.TagClass
        tags = list(m.dictionary.gramtab)
        known = sorted(g for g in T.KNOWN_GRAMMEMES if g)
        T.add_grammemes_to_known('Zzzz', 'зззз')
        for _ in range(ctx.budget(1500, 30000)):
            gs = rng.sample(known, rng.randint(1, 7))
            if rng.random() < .1:
                gs.append('Zzzz')
            k = rng.randint(0, len(gs) - 1)
            tags.append(T(','.join(gs[:k + 1]) + (' ' + ','.join(gs[k + 1:]) if k + 1 < len(gs) else '')))
        ctx.require('tags', 1000)
        obs = lambda t: [str(t), repr(t), sorted(t.grammemes), t.cyr_repr, [str(getattr(t, a)) for a in ops.ATTRS], len(t)]
        blob = []
        for i, t in enumerate(tags):
            if rng.random() < .5:
                obs(t)                                   # caches filled or not
            ways = [('pickle %d' % p, lambda p=p: pickle.loads(pickle.dumps(t, p))) for p in range(pickle.HIGHEST_PROTOCOL + 1)]
            ways += [('copy', lambda: copy.copy(t)), ('deepcopy', lambda: copy.deepcopy(t)),
                     ('in a set', lambda: list(pickle.loads(pickle.dumps({t: 1}, 2)))[0])]
            for name, f in ways:
                c = f()
                ctx.ev()
                if not (c == t and not (c != t) and hash(c) == hash(t) and type(c) is type(t) and c in set([t])
                        and obs(c) == obs(t)):
                    ctx.violation('tag', '%s of %r gives %r' % (name, t, obs(c)))
            ctx.count('tags')
            ctx.nt(str(t))
            blob.append(t)
        ctx.sample(dict(tags=[str(t) for t in tags[-3:]]))
        return
    env = Env(ctx, path=path, prefixes=40)
    kinds = [k for k in env.tokens.kinds if k not in ('sharp',)]
    configs = pickle_types.configs(path)
    rng.shuffle(configs)
    ctx.require('analyzers', 30)
    ctx.require('other_process', 20)
    mine = configs[:ctx.budget(45, 270)]
    cross, crossed = [], []
    xwords = [env.tokens.gen(rng.choice(kinds)) for _ in range(10)] + ['стали', 'сталиqq', 'еж', 'q-что-то', 'XIV', 'А', 'Ё']
    for ci, kw in enumerate(mine):
        how = rng.choice(['path', 'path', 'env'])
        if how == 'env':
            kw = dict(kw)
            kw.pop('path')
            kw['lang'] = rng.choice([None, 'ru'])
            os.environ['PYMORPHY2_DICT_PATH'] = path
        else:
            os.environ.pop('PYMORPHY2_DICT_PATH', None)
            if rng.random() < .5:
                kw['lang'] = rng.choice(['ru', 'uk', 'ru-old'])
        words = [env.tokens.gen(rng.choice(kinds)) for _ in range(8)] + [env.words.pick() for _ in range(4)] + xwords
        ctx.current = (how, sorted((k, repr(v)[:60]) for k, v in kw.items()))
        m = pymorphy2.MorphAnalyzer(**kw)
        data0 = pickle.dumps(m, rng.choice([0, 1, 2, pickle.HIGHEST_PROTOCOL]))
        want = pickle_types.view(m, words)
        if len(set(map(repr, want))) < 3:
            raise RuntimeError('results do not discriminate: %r' % want[:3])
        ctx.count('analyzers')
        ways = [('before use', lambda: pickle.loads(data0))]
        for p in rng.sample(range(pickle.HIGHEST_PROTOCOL + 1), 2):
            ways.append(('protocol %d' % p, lambda p=p: pickle.loads(pickle.dumps(m, p))))
        ways += [('twice', lambda: pickle.loads(pickle.dumps(pickle.loads(data0), 2))),
                 ('copy', lambda: copy.copy(m)), ('in a structure', lambda: pickle.loads(pickle.dumps([m, {'x': m}], 2))[1]['x'])]
        if rng.random() < .3:
            ways.append(('deepcopy', lambda: copy.deepcopy(m)))
        for name, f in ways:
            c = f()
            ctx.ev()
            ctx.nt((repr(ctx.current), name))
            got = pickle_types.view(c, words)
            if got != want or c.lang != m.lang or c is m or type(c) is not type(m):
                bad = [(w, a, b) for w, a, b in zip(['pipeline'] + words, got, want) if a != b][:1]
                ctx.violation('pickle', '%s of MorphAnalyzer%r: %.900r (language %r, was %r)' % (name, ctx.current, bad, c.lang, m.lang))
        if pickle_types.view(m, words) != want:
            ctx.violation('pickle', 'pickling changed the analyzer %r' % (ctx.current,))
        if how == 'path':
            cross.append(data0 if rng.random() < .5 else pickle.dumps(m, 2))
            crossed.append((ctx.current, j(pickle_types.view(m, xwords))))
        ctx.sample(dict(config=list(map(str, ctx.current[1])), words=words[:4]))
    os.environ.pop('PYMORPHY2_DICT_PATH', None)
    fi, fo = os.path.join(ctx.work, 'in'), os.path.join(ctx.work, 'out')
    with open(fi, 'wb') as f:
        pickle.dump((cross, xwords), f)
    exe = ['/opt/venv/bin/python', '/opt/venv-slow/bin/python'][ctx.leg.endswith('fast') or ctx.shard % 3 == 2]
    p = subprocess.run([exe, '-c', OTHER, fi, fo], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        ctx.violation('process', 'unpickling in another process: %s' % p.stdout[-800:])
        return
    with open(fo, encoding='utf8') as f:
        res = json.load(f)
    for (cur, want), got in zip(crossed, res):
        ctx.ev()
        ctx.count('other_process')
        ctx.nt((repr(cur), 'process', exe))
        if got != want:
            bad = [(w, a, b) for w, a, b in zip(['pipeline'] + xwords, got, want) if a != b][:1]
            ctx.violation('process', 'unpickled in %s: MorphAnalyzer%r: %.900r' % (exe, cur, bad))
