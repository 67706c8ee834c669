# -*- coding: utf-8 -*-
"""C07: normal forms."""
LEVEL = 'exploration'
RULE = ('tokens of all kinds plus a dictionary sample; for each analysis the reported normal form is '
        'compared with the first form of the recorded paradigm (decorated), .normalized has to carry it, '
        'be idempotent, and every form of the lexeme has to normalise to the same form and tag.  '
        'Non-trivial = the form differs from its normal form.')
ASSUMPTIONS = ['compounds with two inflected parts: only the composition rule is checked']


def legs(tier):
    return [dict(name='tokens', venv='slow', shards=6, timeout=800),
            dict(name='dict', venv='slow', shards=6, timeout=800),
            dict(name='toy', venv='fast', shards=2, timeout=800),
            dict(name='fast', venv='fast', shards=4, timeout=800)]


def check_token(ctx, env, tok):
    from mon.lexcmp import pair, hyphenated_parts
    m = env.morph
    exp = env.expected(tok)
    if exp is None:
        return
    ps = m.parse(tok)
    nfs = []
    for p in ps:
        if p.normal_form not in nfs:
            nfs.append(p.normal_form)
    ctx.check_that(sorted(nfs) == sorted(m.normal_forms(tok)), 'normal_forms', 'normal_forms(%a)' % tok)
    for key, real, mod in pair(ps, exp):
        if len(real) != len(mod):
            ctx.violation('analyses', 'analyses of %a: %r is reported %d times, expected %d' % (
                tok, key, len(real), len(mod)))
            continue
        if any(hyphenated_parts(x) for x in mod):
            ctx.count('hyphenated_parts')   # known finding of C06
            continue
        heads = sorted((x.lex()[0][0], x.lex()[0][1], x.lex()[0][2]) for x in mod)
        got = []
        for p in real:
            n = p.normalized
            got.append((n.word, str(n.tag), n.normal_form))
        ctx.ev()
        ctx.count('normalized')
        if sorted(got) != heads:
            ctx.violation('head', 'normalized of %a as %r is %r, expected %r' % (tok, key, got[:3], heads[:3]))
        if any('Both' in a.kind for a in mod):
            ctx.count('both_inflected')
            continue
        for p in real:
            n = p.normalized
            if p.word != p.normal_form:
                ctx.nt((key, mod[0].kind))
            if n.word != p.normal_form or n.normal_form != p.normal_form:
                ctx.violation('word', 'normalized of %r is %r / %r' % (key, n.word, n.normal_form))
            nn = n.normalized
            if (nn.word, str(nn.tag), nn.normal_form) != (n.word, str(n.tag), n.normal_form):
                ctx.violation('idempotent', 'normalized twice: %r -> %r' % (
                    (n.word, str(n.tag)), (nn.word, str(nn.tag))))
            lex = p.lexeme
            for f in (lex if len(lex) <= 4 else ctx.rng.sample(lex, 4)):
                ctx.count('lexeme_members')
                fn = f.normalized
                if f.normal_form != p.normal_form or (fn.word, str(fn.tag)) != (n.word, str(n.tag)):
                    ctx.violation('member', 'forms %r and %r %s of one lexeme normalise differently: %r %r' % (
                        key, f.word, f.tag, (n.word, str(n.tag)), (fn.word, str(fn.tag))))
            if (lex[0].word, str(lex[0].tag)) != (n.word, str(n.tag)):
                ctx.violation('first', 'normalized of %r is not the first form of its lexeme' % (key,))
        ctx.sample(dict(token=ascii(tok), analysis=list(key), normalized=got[0]))


def run(ctx):
    from mon.env import Env
    if ctx.leg == 'toy':
        from mon.toys import toy_envs
        from mon.checks.c06 import TOY_KINDS
        for env in toy_envs(ctx, ctx.budget(12, 150)):
            for w in ctx.rng.sample(env.words.words, min(len(env.words), 150)):
                ctx.current = (env.path, w)
                check_token(ctx, env, w)
            for kind, tok in env.stream(TOY_KINDS, ctx.budget(120, 400)):
                check_token(ctx, env, tok)
        ctx.require('normalized', 1000)
        return
    env = Env(ctx)
    ctx.require('normalized', 3000)
    ctx.require('lexeme_members', 3000)
    if ctx.leg == 'dict':
        seen = set()
        for w in ctx.rng.sample(env.words.words, len(env.words.words)):
            for para, idx in env.d.exact(w):
                if (para, idx) in seen:
                    continue
                seen.add((para, idx))
                ctx.current = w
                check_token(ctx, env, w)
                break
            if len(seen) > ctx.budget(7000, 30000):
                break
        ctx.count('paradigm_positions', len(seen))
        return
    n = ctx.budget(8000, 45000) if ctx.leg == 'tokens' else ctx.budget(1000, 6000)
    for kind, tok in env.stream(env.tokens.kinds, n):
        check_token(ctx, env, tok)
