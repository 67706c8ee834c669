# -*- coding: utf-8 -*-
"""C14: words with hyphens and particles."""
LEVEL = 'exploration'
RULE = ('compounds of two known / unknown / short / non-word parts, words with every particle (also several), '
        '"по-" adverbs, three parts, stray hyphens, prefixes and particles combined.  Oracle: the reference '
        'model (word, tag, normal form, score, whole lexeme).  Besides, without the model: the analyses with '
        'a particle are those without it, whole lexemes included.  Non-trivial = an analysis by one of the hyphen '
        'rules.')
ASSUMPTIONS = ['the particle list is the one recorded in mon/lang_config.json']


def legs(tier):
    return [dict(name='random', venv='slow', shards=12, timeout=800),
            dict(name='toy', venv='fast', shards=2, timeout=800),
            dict(name='fast', venv='fast', shards=4, timeout=800)]


def run(ctx):
    from mon.env import Env
    from mon.lexcmp import short_words
    if ctx.leg == 'toy':
        from mon.toys import toy_envs
        for env in toy_envs(ctx, ctx.budget(12, 150)):
            workload(ctx, env, [w for w in env.words.words if len(w) < 5] or env.words.words, 250)
    else:
        env = Env(ctx)
        workload(ctx, env, short_words(env.d, ctx.rng, 1000),
                 ctx.budget(3000, 26000) if ctx.leg == 'random' else ctx.budget(700, 5000))


def workload(ctx, env, shorts, n):
    from mon.lexcmp import full
    m, rng, W, d, T = env.morph, ctx.rng, env.words, env.d, env.tokens
    parts = env.cfg['particles']
    for k in ('Particle', 'Adverb', 'Both', 'FixedLeft'):
        ctx.require('rule_' + k, 300 if ctx.leg != 'toy' else 50)
    ctx.require('not_adverb', 100)
    ctx.require('direct_rule', 100 if ctx.leg != 'toy' else 20)
    # adjectives in the dative singular, for the adverbs
    adj = [w for w in W.words if any({'ADJF', 'sing', 'datv'} <= set(d.tag(p, i).replace(' ', ',').split(','))
                                     for p, i in d.exact(w))]
    adj = adj or ['русскому', 'нашему']

    def direct(tok, ps):
        """the analyses are those of the token without the particle (no model involved)"""
        low = tok.lower()
        part = next(x for x in parts if low.endswith(x) and low != x)
        ctx.count('direct_rule')

        def seen(ps, tail):
            return set((p.word + tail, str(p.tag), p.normal_form + tail,
                        tuple((f.word + tail, str(f.tag)) for f in p.lexeme)) for p in ps)
        got, exp = seen(ps, ''), seen(m.parse(low[:-len(part)]), part)
        if got != exp:
            x = sorted((got ^ exp))[0]
            ctx.violation('particle', '%r: analysis %r with %d forms %s' % (
                tok, x[:3], len(x[3]), 'is missing' if x in exp else 'is not one of the word without the particle'))

    def one(tok, lex=.5):
        ctx.current = tok
        r = full(ctx, env, tok, lex)
        if not r:
            return
        ks = set(a.kind[-1] for a in r[1])
        for k in ks & {'Particle', 'Adverb', 'Both', 'FixedLeft'}:
            ctx.count('rule_' + k)
            ctx.nt(tok)
        if ks == {'Particle'} and (rng.random() < .3 or '-' in tok.strip('-')[:-4]):
            direct(tok, r[0])
        if len(ctx.samples) < 6 and ks & {'Particle', 'Adverb', 'Both', 'FixedLeft'}:
            ctx.sample(dict(token=ascii(tok), rules=sorted(ks), best=str(r[0][0].tag), n=len(r[0])))
        return ks

    kinds = ['compound', 'compound', 'compound_same', 'compound_same', 'compound_unknown', 'compound_prefix',
             'compound_particle', 'compound_mixed', 'particle', 'particle_unknown', 'two_particles',
             'three_parts', 'po_adverb', 'stray_hyphen']
    for i in range(n):
        x = rng.random()
        if x < .6:
            tok = T.gen(rng.choice(kinds))
        elif x < .68:
            tok = 'по-' + rng.choice(adj)
            if rng.random() < .2:
                tok = 'по-' + T.gen('unknown_prefix')
        elif x < .72:
            # remainders which are not dative adjectives
            tok = rng.choice(['По-', 'по-', 'ПО-']) + rng.choice([W.pick(), rng.choice(shorts), T.gen('mutated')])
        elif x < .82:
            tok = rng.choice(shorts) + '-' + rng.choice(shorts + [W.pick()])
        elif x < .9:
            tok = rng.choice([rng.choice(shorts), W.pick(), T.gen('suffix'), T.gen('compound'), T.gen('number'),
                              T.gen('latin'), T.gen('punct'), rng.choice(adj)]) + rng.choice(parts)
            if rng.random() < .3:
                tok = 'по-' + tok
        elif x < .95:
            tok = rng.choice(W.yo or W.words).replace('ё', 'е') + '-' + rng.choice(W.yo or W.words).replace('ё', 'е')
        else:
            tok = T.case(rng.choice(env.cfg['prefixes'])) + W.pick() + rng.choice(['', rng.choice(parts), '-' + W.pick()])
        if rng.random() < .1:
            tok = rng.choice([tok.upper(), tok.title(), tok.swapcase()])
        ks = one(tok)
        if tok.lower().startswith('по-') and ks is not None and 'Adverb' not in ks:
            ctx.count('not_adverb')
