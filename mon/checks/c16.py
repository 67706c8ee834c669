# -*- coding: utf-8 -*-
"""C16: initials."""
LEVEL = 'exploration'
RULE = ('every Cyrillic, Latin and Greek letter in both cases alone, doubled, dotted and hyphenated; analyzers '
        'with and without probability estimates.  Oracle: the written-out list of 12 first-name and 12 '
        'patronymic readings.  Non-trivial = tokens which are an upper-case letter.')
ASSUMPTIONS = ['the letter list is the one recorded in mon/lang_config.json']
EXHAUSTIVE = 'all single code points below U+3000 (as the letter)'


def legs(tier):
    return [dict(name='ru', venv='slow', shards=3, timeout=800),
            dict(name='noprob', venv='slow', shards=2, timeout=800),
            dict(name='fast', venv='fast', shards=3, timeout=800)]


def run(ctx):
    import pymorphy2
    from mon.env import Env, obs, diff_parses
    from mon.lexcmp import full
    env = Env(ctx, prefixes=3, maxper=300)
    m, rng = env.morph, ctx.rng
    letters = env.cfg['letters']
    if ctx.leg == 'noprob':
        from mon.model import Model
        env.morph = m = pymorphy2.MorphAnalyzer(path=env.path, probability_estimator_cls=None)
        env.model = Model(env.d, 'ru', prob=False)
    cases = 'nomn gent datv accs ablt loct'.split()
    name = dict(((g, c), 'NOUN,anim,%s,Sgtm,Name,Fixd,Abbr,Init sing,%s' % (g, c)) for g in ('masc', 'femn') for c in cases)
    patr = dict((k, v.replace('Name', 'Patr')) for k, v in name.items())
    ctx.require('initials', 29)
    ctx.require('not_initials', 1000)

    def init_tags(ps):
        return sorted(str(p.tag) for p in ps if 'Init' in str(p.tag))

    def check_letter(ch):
        ctx.current = ch
        ps = m.parse(ch)
        ts = [str(t) for t in m.tag(ch)]
        low = ch.lower()
        ctx.count('initials')
        ctx.nt(ch)
        exp = sorted(list(name.values()) + list(patr.values()))
        if init_tags(ps) != exp or sorted(t for t in ts if 'Init' in t) != exp:
            ctx.violation('readings', 'initial %r has the readings %r' % (ch, init_tags(ps)))
        full(ctx, env, ch)
        for p in ps:
            t = str(p.tag)
            if 'Init' not in t:
                continue
            if p.word != low or p.normal_form != low:
                ctx.violation('word', 'initial %r -> %r / %r' % (ch, p.word, p.normal_form))
            g = 'masc' if 'masc' in t else 'femn'
            forms = sorted((f.word, str(f.tag), f.normal_form) for f in p.lexeme)
            if 'Name' in t:
                want = sorted((low, name[g, c], low) for c in cases)
                head = name[g, 'nomn']
            else:
                want = sorted((low, x, low) for x in patr.values())
                head = patr['masc', 'nomn']
            if forms != want:
                ctx.violation('lexeme', 'lexeme of initial %r as %s: %r' % (ch, t, forms))
            n = p.normalized
            if (n.word, str(n.tag)) != (low, head):
                ctx.violation('normalized', 'normalized initial %r %s: %r %s' % (ch, t, n.word, n.tag))
            for c in cases:
                r = p.inflect({c})
                e = [name[g, c]] if 'Name' in t else [patr[g, c]]
                ctx.count('inflections')
                if r is None or str(r.tag) not in e or r.word != low:
                    ctx.violation('inflect', 'initial %r %s in %s: %r' % (ch, t, c, r and str(r.tag)))
            if p.inflect({'plur'}) is not None:
                ctx.violation('plur', 'plural of an initial')
        ctx.sample(dict(letter=ch, analyses=len(ps)))

    for ch in letters:
        check_letter(ch)
    others = []
    for c in range(2, 0x3000):
        ch = chr(c)
        if ch not in letters:
            others.append(ch)
    for L in letters:
        others += [L.lower(), L + L, L + L.lower(), L + '.', L + '-' + L, '-' + L, L + '-', ' ' + L, L + ' ', L + '1',
                   L + '-то', 'псевдо' + L]
        for K in letters:
            others.append(K + L)
    for w in env.words.words[:500]:
        others += [w.upper(), w.title()]
    for s in others:
        ctx.current = s
        ctx.ev()
        ctx.count('not_initials')
        ps = m.parse(s)
        if init_tags(ps) or any('Init' in str(t) for t in m.tag(s)):
            ctx.violation('extra', '%a is analysed as an initial: %r' % (s, init_tags(ps)[:2]))
