# -*- coding: utf-8 -*-
"""C17: closed word classes are never predicted."""
LEVEL = 'exploration'
RULE = ('every dictionary word of a closed class (1877 forms) with known prefixes, unknown 1-6 letter prefixes, '
        'as word ending, with letters inserted; generated unknown words.  Monitor: for a token which is not in '
        'the dictionary and has no hyphen, no analysis may be of a closed class.  Non-trivial = the remainder '
        'or ending belongs to a closed-class word.')
ASSUMPTIONS = ['mon/closed_words.json (extracted from the installed dictionary) only seeds the workload']


def legs(tier):
    return [dict(name='closed', venv='slow', shards=8, timeout=800),
            dict(name='noprob', venv='slow', shards=2, timeout=800),
            dict(name='toy', venv='fast', shards=2, timeout=800),
            dict(name='fast', venv='fast', shards=4, timeout=800)]


def run(ctx):
    import json
    import os
    import pymorphy2
    from mon.env import Env
    from mon.gen import CYR
    from mon.dictref import is_productive
    rng = ctx.rng
    if ctx.leg != 'toy':
        env = Env(ctx)
        m, M = env.morph, env.model
    if ctx.leg == 'noprob':
        m = pymorphy2.MorphAnalyzer(path=env.path, probability_estimator_cls=None, char_substitutes={'е': 'ё', 'и': 'й'})
        M.subst = {'е': 'ё', 'и': 'й'}
        M.use_prob = False
    with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), 'closed_words.json'), encoding='utf8') as f:
        closed = [w for w in json.load(f) if '-' not in w]
    ctx.require('out_of_vocabulary', 5000 if ctx.leg != 'toy' else 3000)

    def one(tok, nt=True):
        ctx.current = tok
        if '-' in tok:
            return
        from mon.env import TooManyVariants
        try:
            known = bool(M.lookup(tok.lower()))
        except TooManyVariants:
            return
        if known:
            ctx.count('known')
            return
        ctx.ev()
        ctx.count('out_of_vocabulary')
        if nt:
            ctx.nt(tok)
        bad = [str(p.tag) for p in m.parse(tok) if not is_productive(str(p.tag))]
        bad += [str(t) for t in m.tag(tok) if not is_productive(str(t))]
        if bad:
            ctx.violation('closed', 'unknown word %r is predicted to be %s' % (tok, sorted(set(bad))))
        if rng.random() < .0005:
            ctx.sample(dict(token=tok, tags=[str(t) for t in m.tag(tok)][:3]))

    def rnd(n):
        return ''.join(rng.choice(CYR) for _ in range(n))

    if ctx.leg == 'toy':
        # closed classes with regular paradigms of every size
        from mon.toys import toy_envs
        for env in toy_envs(ctx, ctx.budget(10, 120)):
            m, M = env.morph, env.model
            closed = [w for w in env.words.words if any(not is_productive(env.d.tag(*v)) for v in env.d.exact(w))]
            P = [p for p in env.cfg['prefixes'] if '-' not in p]
            for i in range(400 if closed else 0):
                w = rng.choice(closed)
                one([rng.choice(P), rnd(rng.randint(1, 6)), rng.choice(env.d.prefixes), rng.choice(P) + rng.choice(P),
                     rng.choice(env.d.prefixes) + rnd(2)][i % 5] + w[rng.choice([0, 0, 0, -1, -2, -3, -4, -5]):])
        return
    P = [p for p in env.cfg['prefixes'] if '-' not in p]
    reps = ctx.budget(2, 12) if ctx.leg != 'fast' else 1
    for i, w in enumerate(closed):
        if i % ctx.nshards != ctx.shard or (ctx.leg == 'fast' and ctx.quick and i % 3):
            continue
        for pre in rng.sample(P, min(len(P), 6 * reps)):
            one(pre + w)
        for k in range(1, 7):
            for _ in range(reps):
                one(rnd(k) + w)
        for _ in range(3 * reps):
            one(rng.choice(P) + rng.choice(P) + w)
            one(rnd(rng.randint(2, 5)) + rng.choice(['', rng.choice(P)]) + w[-rng.randint(1, 5):])
            one(rng.choice(['по', 'наи']) + w)
            one(rng.choice(['по', 'наи']) + rnd(3) + w[-rng.randint(1, 5):])
            j = rng.randrange(len(w) + 1)
            one(w[:j] + rng.choice(CYR) + w[j:])
            one((rng.choice(P) + w).upper())
            one(rng.choice(P) + rng.choice(closed) + w)
            one(w.replace('ё', 'е') + w)
    kinds = ['suffix', 'mutated', 'unknown_prefix', 'known_prefix', 'prefix_unknown', 'two_prefixes', 'po_nai', 'random_cyr']
    for kind, tok in env.stream(kinds, ctx.budget(4000, 40000) if ctx.leg != 'fast' else ctx.budget(500, 5000)):
        one(tok, False)
