# -*- coding: utf-8 -*-
"""C06: lexemes."""
LEVEL = 'exploration'
RULE = ('tokens of all kinds plus a dictionary sample; for each analysis the complete lexeme is compared '
        'with the recorded paradigm (decoded from the raw dictionary, decorated by the documented prefix / '
        'particle / hyphen rules), the analysed form has to be in it, and the lexeme of every member has to '
        'be the same lexeme.  Non-trivial = a lexeme with at least two forms was compared.')
ASSUMPTIONS = ['for hyphenated compounds with two inflected parts only the composition rule is checked '
               '(membership of the form itself is a documented limitation)']


TOY_KINDS = ['suffix', 'known_yo', 'unknown_prefix', 'known_prefix', 'prefix_unknown', 'particle', 'compound', 'compound_same',
             'compound_unknown', 'po_nai', 'po_adverb', 'compound_particle', 'mutated', 'wrong_yo', 'suffix_yo', 'two_particles']


def legs(tier):
    return [dict(name='tokens', venv='slow', shards=6, timeout=800),
            dict(name='dict', venv='slow', shards=6, timeout=800),
            dict(name='toy', venv='fast', shards=2, timeout=800),
            dict(name='fast', venv='fast', shards=4, timeout=800)]


def check_token(ctx, env, tok, closure=True):
    from mon.lexcmp import pair, compare_lexemes, lex_obs
    m = env.morph
    exp = env.expected(tok)
    if exp is None:
        return
    ps = m.parse(tok)
    for key, real, mod in pair(ps, exp):
        if len(real) != len(mod):
            ctx.violation('analyses', 'analyses of %a: %r is reported %d times, expected %d' % (
                tok, key, len(real), len(mod)))
            continue
        if len(real) > 6:
            ctx.count('skipped_big_group')
            continue
        d = compare_lexemes(real, mod)
        ctx.ev()
        if d:
            ctx.violation('lexeme', 'lexeme of %a as %r: unexpected %r, missing %r' % (tok, key, d[0], d[1]))
        for p, a in zip(real, mod):
            lex = p.lexeme
            ctx.count('lexemes')
            if len(lex) > 1:
                ctx.nt((key, tuple(a.kind)))
            if 'Both' in a.kind:
                ctx.count('both_inflected')
                continue
            forms = [(f.word, str(f.tag)) for f in lex]
            if (p.word, str(p.tag)) not in forms:
                ctx.violation('self', '%r is not in its own lexeme (%a)' % (key, tok))
            if closure:
                base = lex_obs(lex)
                members = lex if len(lex) <= 3 else ctx.rng.sample(lex, 3)
                for f in members:
                    ctx.count('closure')
                    if lex_obs(f.lexeme) != base:
                        ctx.violation('closure', 'the lexeme of %r %s differs from the lexeme of %r it is in' % (
                            f.word, f.tag, key))
                    # through the analyzer object
                if lex_obs(m.get_lexeme(p)) != base:
                    ctx.violation('get_lexeme', 'get_lexeme(%r) differs from .lexeme' % (key,))
        if len(ctx.samples) < 6 and len(real[0].lexeme) > 3:
            ctx.sample(dict(token=ascii(tok), analysis=list(key), forms=len(real[0].lexeme)))


def pinned(ctx):
    """ The known finding: parts whose lexeme has forms with a hyphen of their own """
    import os
    import random
    import pymorphy2
    from mon.dictgen import Toy, compile_toy, base_grammemes
    t = Toy(random.Random(1), base_grammemes(), prefixes=('',), alphabet='абвгё')
    t.add(['NOUN', 'inan', 'masc'], [('как-кит', ['sing', 'nomn']), ('кит', ['plur', 'nomn'])])
    t.add(['NOUN', 'inan', 'masc'], [('дом', ['sing', 'nomn']), ('дома', ['plur', 'nomn'])])
    path = os.path.join(ctx.work, 'pinned')
    compile_toy(t, path)
    m = pymorphy2.MorphAnalyzer(path=path, lang='ru')
    p = [p for p in m.parse('кит-уукит') if len(p.methods_stack[-1]) == 3 and isinstance(p.methods_stack[-1][1], tuple)]
    ctx.count('pinned_compound', len(p))
    if p:
        got = [(f.word, f.normal_form) for f in p[0].lexeme]
        want = [('как-кит-уукак-кит', 'как-кит-уукак-кит'), ('кит-уукит', 'как-кит-уукак-кит')]
        if got != want:
            ctx.violation('hyphenated_parts', 'lexeme of кит-уукит, normal forms: %r' % (got,))


def run(ctx):
    from mon.env import Env
    if ctx.leg == 'toy':
        pinned(ctx)
        from mon.toys import toy_envs
        for env in toy_envs(ctx, ctx.budget(12, 150)):
            for w in ctx.rng.sample(env.words.words, min(len(env.words), 150)):
                ctx.current = (env.path, w)
                check_token(ctx, env, w)
            for kind, tok in env.stream(TOY_KINDS, ctx.budget(120, 400)):
                check_token(ctx, env, tok)
        ctx.require('lexemes', 1000)
        return
    env = Env(ctx)
    ctx.require('lexemes', 3000)
    ctx.require('closure', 3000)
    if ctx.leg == 'dict':
        # known words, shapes of every paradigm: one word per paradigm id seen
        seen = set()
        for p in (ctx.rng.sample(env.words.words, len(env.words.words))):
            for para, idx in env.d.exact(p):
                if (para, idx) in seen:
                    continue
                seen.add((para, idx))
                ctx.current = p
                check_token(ctx, env, p)
                break
            if len(seen) > ctx.budget(6000, 30000):
                break
        ctx.count('paradigm_positions', len(seen))
        return
    n = ctx.budget(7000, 40000) if ctx.leg == 'tokens' else ctx.budget(1000, 6000)
    for kind, tok in env.stream(env.tokens.kinds, n):
        check_token(ctx, env, tok)
