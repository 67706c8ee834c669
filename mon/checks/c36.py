# -*- coding: utf-8 -*-
"""C36: letter case of a token never matters, except for initials."""
LEVEL = 'exploration'
RULE = ('tokens of all kinds in lower, upper, title, swapped and random case: all answers (analyses with scores, tags, normal '
        'forms, known-ness, lexemes, inflected forms) have to be the same as for the lower-case token, and everything '
        'returned is lower-case.  Non-trivial = distinct tokens with at least one cased letter.')
ASSUMPTIONS = ['tokens whose case mappings are not one-to-one (ß, İ, ...) are left to C03',
               'single letters of the initials alphabet are left to C16']


def legs(tier):
    return [dict(name='tokens', venv='slow', shards=8, timeout=850),
            dict(name='old', venv='slow', shards=1, timeout=850),
            dict(name='toy', venv='fast', shards=2, timeout=800),
            dict(name='fast', venv='fast', shards=3, timeout=850)]


def run(ctx):
    from mon.env import Env, ru_old_path
    if ctx.leg == 'toy':
        from mon.toys import toy_envs
        for env in toy_envs(ctx, ctx.budget(8, 100)):
            workload(ctx, env, 150)
    else:
        env = Env(ctx, model=False, path=ru_old_path() if ctx.leg == 'old' else None)
        workload(ctx, env, ctx.budget(5000, 60000) if ctx.leg == 'tokens' else ctx.budget(700, 6000))


def workload(ctx, env, n):
    m, rng = env.morph, ctx.rng
    G = [{'plur'}, {'sing', 'gent'}, {'datv'}, {'femn'}, {'VERB', 'past'}, {'COMP'}, {'gen2'}]
    ctx.require('compared', 3000 if ctx.leg != 'toy' else 1000)
    kinds = [k for k in env.tokens.kinds if k not in ('initial',)] + ['known', 'suffix', 'unknown_prefix', 'compound', 'particle'] * 2

    def view(t, deep):
        ps = m.parse(t)
        out = [[(p.word, str(p.tag), p.normal_form, p.score, p.is_known) for p in ps], [str(x) for x in m.tag(t)],
               m.normal_forms(t), m.word_is_known(t), m.word_is_known(t, strict=True)]
        if deep:
            i = deep[0] % len(ps)
            p = ps[i]
            f = p.inflect(G[deep[1]])
            a = p.make_agree_with_number(deep[2])
            out += [[(x.word, str(x.tag), x.normal_form) for x in p.lexeme], p.normalized[:3] and (p.normalized.word, str(p.normalized.tag)),
                    f and (f.word, str(f.tag)), a and (a.word, str(a.tag))]
        return out
    for kind, tok in env.stream(kinds, n):
        low = tok.lower()
        if any(len(c.lower()) != 1 or len(c.upper()) != 1 or c.lower().upper() != c.upper() or c.upper().lower() != c.lower()
               for c in tok + low) or len(low) < 2 or low.upper().lower() != low or len(low.upper()) != len(low) or low.title().lower() != low:
            ctx.count('irregular')
            continue
        if low.upper() == low:
            ctx.count('caseless')
        else:
            ctx.nt(low)
        deep = (rng.randrange(50), rng.randrange(len(G)), rng.choice([0, 1, 2, 5, 11, 21, 101])) if rng.random() < .25 else None
        want = view(low, deep)
        for w in want[0]:
            if w[0] != w[0].lower() or w[2] != w[2].lower():
                ctx.violation('lower', 'analysis of %a is not in lower case: %r' % (low, w))
        rnd = ''.join(c.upper() if rng.random() < .5 else c for c in low)
        if rnd.lower() != low:
            rnd = low
        for t in set([low.upper(), low.title(), low.capitalize(), rnd, tok]) - {low}:
            if t.lower() != low:
                continue
            ctx.current = t
            ctx.ev()
            ctx.count('compared')
            got = view(t, deep)
            if got != want:
                k = [i for i in range(len(got)) if got[i] != want[i]][0]
                ctx.violation('case', '%a: %r, for %a: %r' % (t, got[k][:3] if isinstance(got[k], list) else got[k], low,
                                                              want[k][:3] if isinstance(want[k], list) else want[k]))
        if rng.random() < .001:
            ctx.sample(dict(token=ascii(low), analyses=len(want[0])))
