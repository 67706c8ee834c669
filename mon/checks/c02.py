# -*- coding: utf-8 -*-
"""C02: letter substitutions (е may stand for ё, never the other way)."""
LEVEL = 'exploration'
RULE = ('dictionary words with ё, words with е replaced by ё, partially "de-yo-ed" words, and '
        'unknown words (prefix and suffix prediction, compounds) built from them; also analyzers '
        'with custom / empty substitution tables and generated dictionaries.  The oracle enumerates every subset of '
        'substitutions and looks each spelling up in the raw dictionary.  Non-trivial = the token '
        'contains a substitutable or a substituted letter.')
ASSUMPTIONS = ['dawg_python exact lookup is trusted']

TABLES = [{}, {'е': 'ё'}, {'и': 'й', 'е': 'ё'}, {'о': 'а'}, {'ё': 'е'}, {'ь': 'ъ'}, {'г': 'ґ'}, None]


def legs(tier):
    return [dict(name='ru', venv='slow', shards=4, timeout=800),
            dict(name='yo', venv='slow', shards=4, timeout=800),
            dict(name='custom', venv='slow', shards=4, timeout=800),
            dict(name='toy', venv='fast', shards=2, timeout=800),
            dict(name='fast', venv='fast', shards=3, timeout=800)]


def run(ctx):
    from mon.env import Env, sweep, obs, diff_parses, Words, Tokens
    from mon.model import Model
    rng = ctx.rng
    ctx.require('compared', 1000)

    def compare(m, M, tok, subst):
        d = M.d
        try:
            exp = M.parse(tok)
        except Exception as e:
            if type(e).__name__ == 'TooManyVariants':
                ctx.count('skipped')
                return
            raise
        ctx.ev()
        ctx.count('compared')
        got = obs(m.parse(tok))
        if any(c in (subst or {}) or c in (subst or {}).values() for c in tok.lower()):
            ctx.nt(tok)
        dd = diff_parses(got, exp)
        if dd:
            ctx.violation('parse', 'parse(%r) with substitutions %r: %s' % (tok, subst, dd))
        tags = set(str(t) for t in m.tag(tok))
        if tags != set(a.tag for a in exp):
            ctx.violation('tag', 'tag(%r) with substitutions %r is %r, expected %r' % (
                tok, subst, sorted(tags), sorted(set(a.tag for a in exp))))
        # direct statement: reported spelling = input up to allowed substitutions
        low = tok.lower()
        for w, t, nf, s in got:
            if len(w) != len(low) or any(
                    a != b and (subst or {}).get(b) != a for a, b in zip(w, low)):
                ctx.violation('spelling', 'parse(%r) reports the spelling %r' % (tok, w))
        # strictness
        known = m.word_is_known(tok)
        strict = m.word_is_known(tok, strict=True)
        e_strict = bool(d.exact(low))
        e_known = bool(M.lookup(low))
        if known != e_known or strict != e_strict:
            ctx.violation('known', 'word_is_known(%r) = %s / strict %s, recorded: %s / %s' % (
                tok, known, strict, e_known, e_strict))
        ctx.count('known_%s_strict_%s' % (known, strict))
        for p in m.parse(tok):
            if p.is_known != bool(M.lookup(p.word)):
                ctx.violation('is_known', 'Parse.is_known of %r is %s' % (p.word, p.is_known))
            break

    kinds = ['known_yo', 'known_yo', 'wrong_yo', 'known', 'suffix_yo', 'unknown_prefix', 'known_prefix',
             'mutated', 'compound', 'particle', 'prefix_unknown']
    if ctx.leg == 'toy':
        from mon.toys import toy_envs
        for k in range(ctx.scale(12, 150)):
            table = rng.choice([{'е': 'ё'}, {'б': 'а', 'г': 'ё'}, {'а': 'б', 'б': 'а'}, {}, {'к': 'к', 'о': 'т'}, {'е': 'ё', 'ё': 'е'}])
            for env in toy_envs(ctx, 1, subst=table):
                inv = dict((v, k) for k, v in table.items())
                for i in range(200):
                    tok = env.tokens.gen(rng.choice(kinds))
                    if rng.random() < .7:
                        tok = ''.join(inv[c] if c in inv and rng.random() < .6 else c for c in tok.lower())
                    ctx.current = (table, tok)
                    compare(env.morph, env.model, tok, table)
        return
    env = Env(ctx)
    m, M, d = env.morph, env.model, env.d
    if ctx.leg == 'yo':
        # all recorded words with ё: each must be found when typed with е
        step = ctx.scale(2, 1)
        n = 0
        for w, vals in sweep(d, ctx.shard, ctx.nshards):
            if 'ё' not in w:
                continue
            n += 1
            if n % step:
                continue
            t = w.replace('ё', 'е')
            ctx.current = t
            ctx.ev()
            ctx.nt_bulk += 1
            got = set((p[0], str(p[1]), p[2]) for p in m.parse(t))
            for p, i in vals:
                if (w, d.tag(p, i), d.normal_form(w, p, i)) not in got:
                    ctx.violation('yo', 'typed as %r, the recorded word %r is not found' % (t, w))
            if not m.word_is_known(t):
                ctx.violation('yo', 'word_is_known(%r) is False (%r is recorded)' % (t, w))
            if m.word_is_known(t, strict=True) != bool(d.exact(t)):
                ctx.violation('strict', 'word_is_known(%r, strict=True)' % t)
            if not d.exact(t):
                # the reverse substitution never happens
                pass
            if n % 20001 == 1:
                ctx.sample(dict(typed=t, recorded=w))
            ctx.count('yo_words')
            ctx.count('compared')
        return

    if ctx.leg in ('ru', 'fast'):
        n = ctx.budget(9000, 90000) if ctx.leg == 'ru' else ctx.budget(1200, 8000)
        for kind, tok in env.stream(kinds, n):
            compare(m, M, tok, M.subst)
            ctx.sample(dict(kind=kind, token=tok))
        return
    # custom tables
    import pymorphy2
    for ti, table in enumerate(TABLES):
        if ti % ctx.nshards != ctx.shard:
            continue
        m2 = pymorphy2.MorphAnalyzer(path=env.path, char_substitutes=table)
        sub = table or {}
        M2 = Model(M.d, 'ru', subst=sub)
        for i in range(ctx.budget(2500, 20000)):
            tok = env.tokens.gen(rng.choice(kinds))
            low = tok.lower()
            # type some substituted letters the "poor" way
            inv = dict((v, k) for k, v in sub.items())
            tok2 = ''.join(inv[c] if c in inv and rng.random() < .6 else c for c in low)
            ctx.current = (table, tok2)
            compare(m2, M2, tok2, sub)
            if sum(c in sub for c in low) and not any(c in sub for c in tok2):
                pass
        ctx.sample(dict(table=table, token=tok2))
        ctx.count('tables')
