# -*- coding: utf-8 -*-
"""C01: known words get exactly their recorded analyses (exhaustive sweep)."""
LEVEL = 'exploration'
RULE = ('every word form stored in the installed Russian dictionary (enumerated from the '
        'DAWG, completeness checked against the key count in its metadata) is parsed and '
        'tagged, in lower case and in varied letter case; the oracle decodes the raw '
        'dictionary files itself.  Distinct non-trivial = distinct recorded word forms whose '
        'whole set of analyses was compared.  The same for all words of generated dictionaries (other prefixes, suppletive, '
        'repeated and one-letter forms, words written as numbers or in Latin).')
ASSUMPTIONS = ['dawg_python key enumeration and exact lookup are trusted',
               'the installed pymorphy2_dicts_ru dictionary is the ground truth']
EXHAUSTIVE = 'all recorded word forms of the dictionary, lower case, parse() in the slow venv'


def legs(tier):
    L = [dict(name='sweep', venv='slow', shards=16, timeout=800),
         dict(name='fast', venv='fast', shards=4, timeout=800),
         dict(name='toy', venv='fast', shards=2, timeout=800)]
    if tier == 'thorough':
        L[1]['shards'] = 8
        L.append(dict(name='old', venv='slow', shards=16, timeout=800))
    return L


def run(ctx):
    from mon.env import Env, sweep, obs, ru_old_path, TooManyVariants
    if ctx.leg == 'toy':
        return toy(ctx)
    old = ctx.leg == 'old'
    env = Env(ctx, path=ru_old_path() if old else None, words=False,
              lang='ru')
    m, d, M = env.morph, env.d, env.model
    total = d.meta['words_dawg_length']
    step = 1 if ctx.leg != 'fast' else ctx.scale(23, 3)
    rng = ctx.rng
    n = 0
    for w, vals in sweep(d, ctx.shard, ctx.nshards):
        n += 1
        ctx.count('keys_enumerated', len(vals) if ctx.leg == 'sweep' else 0)
        if n % step:
            continue
        ctx.current = w
        try:
            exp = sorted((s, d.tag(p, i), d.normal_form(s, p, i)) for s, p, i in M.lookup(w))
        except TooManyVariants:
            ctx.count('skipped_many_variants')
            exp = None
        got = sorted((p[0], str(p[1]), p[2]) for p in m.parse(w))
        ctx.ev()
        if exp is None:
            have = set(got)
            for p, i in vals:
                ctx.check_that((w, d.tag(p, i), d.normal_form(w, p, i)) in have, 'missing',
                               'recorded analysis missing for %r' % w)
            continue
        ctx.nt_bulk += 1
        if got != exp:
            ctx.violation('parse', 'parse(%r): unexpected %r missing %r' % (
                w, [x for x in got if x not in exp][:4], [x for x in exp if x not in got][:4]) +
                (' (multiplicity)' if set(got) == set(exp) else ''))
        if n % 4 == 0 or ctx.leg == 'fast':
            tags = sorted(str(t) for t in m.tag(w))
            ctx.count('tag_compared')
            if set(tags) != set(t for _, t, _ in exp):
                ctx.violation('tag', 'tag(%r) = %r, recorded: %r' % (w, tags, [t for _, t, _ in exp]))
        if n % 5 == 0 or ctx.leg == 'fast':
            v = rng.choice([w.upper(), w.title(), w.capitalize(),
                            ''.join(c.upper() if rng.random() < .5 else c for c in w)])
            if len(w) > 1 and v.lower() == w:
                ctx.count('case_variants')
                g2 = sorted((p[0], str(p[1]), p[2]) for p in m.parse(v))
                if g2 != exp:
                    ctx.violation('case', 'parse(%r) differs from the recorded analyses of %r: %r' % (v, w, g2[:4]))
                if not m.word_is_known(v):
                    ctx.violation('known', 'word_is_known(%r) is False' % v)
        if n % 7 == 0:
            ctx.count('is_known')
            if not (m.word_is_known(w) and m.word_is_known(w, strict=True) and
                    all(p.is_known for p in m.parse(w))):
                ctx.violation('known', 'recorded word %r is reported as unknown' % w)
        if n % 40000 == 1:
            ctx.sample(dict(word=w, analyses=exp[:3]))
    if ctx.leg == 'sweep':
        ctx.require('keys_enumerated', total)
    ctx.require('case_variants', 1000)
    ctx.require('tag_compared', 1000)


def toy(ctx):
    from mon.toys import toy_envs
    rng = ctx.rng
    for env in toy_envs(ctx, ctx.scale(12, 150), size=90):
        m, d, M = env.morph, env.d, env.model
        for w in env.words.words:
            if w.count('е') > 9:
                continue
            exp = sorted((s, d.tag(p, i), d.normal_form(s, p, i)) for s, p, i in M.lookup(w))
            for v in set([w, w.upper(), w.title(), ''.join(c.upper() if rng.random() < .5 else c for c in w)]):
                if v.lower() != w or len(v) == 1 and v != w:
                    continue
                ctx.current = (env.path, v)
                ctx.ev()
                ctx.count('toy_words')
                ps = m.parse(v)
                got = sorted((p[0], str(p[1]), p[2]) for p in ps)
                if got != exp:
                    ctx.violation('parse', 'parse(%r): unexpected %r missing %r' % (
                        v, [x for x in got if x not in exp][:4], [x for x in exp if x not in got][:4]) +
                        (' (multiplicity)' if set(got) == set(exp) else ''))
                if set(str(t) for t in m.tag(v)) != set(t for _, t, _ in exp):
                    ctx.violation('tag', 'tag(%r) = %r, recorded: %r' % (v, m.tag(v), [t for _, t, _ in exp]))
                if not (m.word_is_known(v) and m.word_is_known(v, strict=True) and all(p.is_known for p in ps)):
                    ctx.violation('known', 'recorded word %r is reported as unknown' % v)
            ctx.nt((ctx.shard, env.path, w))
    ctx.require('toy_words', 3000)
