# -*- coding: utf-8 -*-
"""C12: prediction by prefix."""
LEVEL = 'exploration'
RULE = ('known prefix (every one of the list) + dictionary word / unknown word / compound / short remainder, '
        'stacked prefixes, unknown 1-7 letter prefix + dictionary word; remainders from 1 letter up.  Oracle: '
        'the reference model (word, tag, normal form, score, whole lexeme) and the direct rule "productive '
        'analyses of the remainder, with the prefix attached".  Non-trivial = at least one analysis is a '
        'prefix prediction.')
ASSUMPTIONS = ['dawg_python exact lookup is trusted', 'the prefix list is the one recorded in mon/lang_config.json']


def legs(tier):
    return [dict(name='known', venv='slow', shards=6, timeout=800),
            dict(name='unknown', venv='slow', shards=6, timeout=800),
            dict(name='toy', venv='fast', shards=2, timeout=800),
            dict(name='fast', venv='fast', shards=4, timeout=800)]


def run(ctx):
    from mon.env import Env, TooManyVariants
    from mon.lexcmp import full, short_words
    from mon.dictref import is_productive
    rng = ctx.rng
    if ctx.leg != 'toy':
        env = Env(ctx)
        m, M, W = env.morph, env.model, env.words
        P = env.cfg['prefixes']
        shorts = short_words(env.d, rng)
    ctx.require('known_prefix', 2000 if ctx.leg != 'toy' else 500)
    ctx.require('unknown_prefix', 2000 if ctx.leg != 'toy' else 500)
    if ctx.leg != 'toy':
        ctx.require('every_prefix', len(P))

    def direct(tok, pre, rest):
        """known prefix: analyses of the remainder reappear with the prefix"""
        low = tok.lower()
        try:
            e = M.parse(tok)
        except TooManyVariants:
            return
        if len(rest) < 3 or not e or not all(a.kind[-1] == 'KnownPrefix' for a in e):
            return
        ps = m.parse(tok)
        got = set((p.word, str(p.tag), p.normal_form) for p in ps)
        whole = '-' in rest or rng.random() < .1
        if whole:
            lexemes = set((p.word, str(p.tag), tuple((f.word, str(f.tag)) for f in p.lexeme)) for p in ps)
        for q in m.parse(rest):
            ctx.count('direct_rule')
            k = (pre + q.word, str(q.tag), pre + q.normal_form)
            if whole and is_productive(k[1]):
                ctx.count('direct_lexemes')
                f = tuple((pre + f.word, str(f.tag)) for f in q.lexeme)
                if k[:2] + (f,) not in lexemes:
                    ctx.violation('direct', 'no analysis of %r has the forms of %r with %r: %r...' % (
                        tok, k, pre, [x[0] for x in f[:4]]))
            if is_productive(k[1]) and k not in got:
                # an equal analysis with the same paradigm from a longer prefix is the same analysis
                ctx.violation('direct', 'parse(%r) lacks %r (prefix %r + analysis of %r)' % (tok, k, pre, rest))
            if not is_productive(k[1]) and k in got and sum(x[:2] == k[:2] for x in got) and len(P) == 0:
                ctx.violation('direct', tok)

    def one(tok, lex=.5):
        ctx.current = tok
        r = full(ctx, env, tok, lex)
        if not r:
            return
        kinds = set(a.kind[-1] for a in r[1])
        if 'KnownPrefix' in kinds:
            ctx.count('known_prefix')
            ctx.nt(tok)
        if 'UnknownPrefix' in kinds:
            ctx.count('unknown_prefix')
            ctx.nt(tok)
        if any(a.kind.count('KnownPrefix') > 1 for a in r[1]):
            ctx.count('stacked_prefixes')
        if len(ctx.samples) < 6 and kinds & {'KnownPrefix', 'UnknownPrefix'}:
            ctx.sample(dict(token=tok, kinds=sorted(kinds), best=str(r[0][0].tag)))

    def known(n):
        order = list(P)
        rng.shuffle(order)
        for i in range(n):
            pre = order[i % len(order)]
            x = rng.random()
            if x < .45:
                rest = W.pick()
            elif x < .7:
                rest = rng.choice(shorts)
            elif x < .8:
                rest = env.tokens.gen('mutated')
            elif x < .88:
                rest = rng.choice(P) + W.pick()
            elif x < .94:
                rest = env.tokens.gen(rng.choice(['compound', 'compound_same', 'particle', 'suffix', 'known_yo', 'two_prefixes']))
            else:
                rest = env.tokens.gen(rng.choice(['short', 'random_cyr', 'number', 'latin', 'punct', 'initial', 'roman']))
            tok = pre + rest
            if rng.random() < .2:
                tok = rng.choice([tok.upper(), tok.title(), tok.capitalize()])
            one(tok)
            if i < len(order):
                ctx.count('every_prefix')
            if (x < .8 or '-' in rest) and rng.random() < .4:
                direct(tok, pre, rest.lower())

    def unknown(n):
        from mon.gen import CYR
        for i in range(n):
            k = rng.randint(1, 7)
            pre = ''.join(rng.choice(CYR) for _ in range(k))
            rest = W.pick() if rng.random() < .5 else rng.choice(shorts)
            if rng.random() < .15:
                rest = rng.choice(W.yo or W.words).replace('ё', 'е')
            tok = env.tokens.case(pre + rest)
            one(tok)
    if ctx.leg == 'toy':
        from mon.toys import toy_envs
        for env in toy_envs(ctx, ctx.budget(12, 150)):
            m, M, W = env.morph, env.model, env.words
            P = env.cfg['prefixes']
            shorts = [w for w in W.words if len(w) <= 5] or W.words
            known(150)
            unknown(150)
        return
    if ctx.leg == 'known':
        known(ctx.budget(4500, 40000))
    elif ctx.leg == 'unknown':
        unknown(ctx.budget(6000, 50000))
    else:
        known(ctx.budget(800, 5000))
        unknown(ctx.budget(800, 5000))
