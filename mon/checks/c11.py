# -*- coding: utf-8 -*-
"""C11: Cyrillic names of tags and grammemes."""
LEVEL = 'exploration'
RULE = ('every tag of the dictionary and of non-words, every known grammeme, random combinations with '
        'arbitrary separators and unknown tokens, translated both ways; copies of a dictionary with other '
        'grammeme names, also without the grammemes which the analysis rules add.  Oracle: the alias column of the raw '
        'grammeme table.  Non-trivial = at least two grammemes.')
ASSUMPTIONS = ['the alias column has no duplicates (checked)']
EXHAUSTIVE = 'all dictionary tags and all known grammemes, both directions'
EXTRA = dict(NUMB='ЧИСЛО', intg='цел', real='вещ', PNCT='ЗПР', LATN='ЛАТ', ROMN='РИМ', UNKN='НЕИЗВ', Init='иниц')


def legs(tier):
    return [dict(name='tags', venv='slow', shards=6, timeout=800),
            dict(name='fast', venv='fast', shards=4, timeout=800),
            dict(name='aliases', venv='slow', shards=1, timeout=800)]


def prepare(scratch):
    from mon.subset import prepare as sub
    return {'SUBSET': sub(scratch)}


def aliases(ctx):
    """dictionaries which give their grammemes other names, each in a process of its own"""
    import json
    import os
    import re
    import shutil
    from mon.forks import forked
    rng = ctx.rng
    src = os.environ['SUBSET']
    own = dict(EXTRA, Name='имя', Patr='отч')
    for k in range(ctx.budget(10, 60)):
        path = os.path.join(ctx.work, 'al%d' % k)
        shutil.copytree(src, path)

        def edit(fn, f):
            fn = os.path.join(path, fn)
            with open(fn, encoding='utf8') as h:
                x = json.load(h)
            x = f(x)
            with open(fn, 'w', encoding='utf8') as h:
                json.dump(x, h, ensure_ascii=False)
            return x
        # grammemes which the units of the library use may be missing from the dictionary
        gone = set(g for g in ('Name', 'Patr', 'Init') if rng.random() < .4)
        new = [rng.choice(['%s' % g, g.upper() + 'ъ', '%s-%d' % (g, rng.randint(0, 99)), 'имя%d' % i, 'ё' * (i + 1)])
               for i, g in enumerate(['a%d' % i for i in range(200)])]
        rng.shuffle(new)
        mode = rng.choice(['some', 'all', 'names'])

        def gr(x):
            out = []
            for g in x:
                if g[0] in gone:
                    g = ['Z' + g[0][1:]] + g[1:3] + g[3:]
                if g[0] == 'Init' and g[0] not in gone or mode == 'all' or mode == 'some' and rng.random() < .3 or \
                        g[0][0] == 'Z' or g[0] in ('Name', 'Patr'):
                    g[2] = 'ю%d%s' % (len(out), new[len(out)][:6])
                out.append(g)
            if 'Init' not in gone and not any(g[0] == 'Init' for g in out):
                out.append(['Init', '', 'юинициал', 'x'])
            return out
        table = edit('grammemes.json', gr)
        tags = edit('gramtab-opencorpora-int.json', lambda x: [
            re.sub('|'.join(sorted(gone)), lambda m: 'Z' + m.group()[1:], t) if gone else t for t in x])
        alias = dict(own)
        alias.update((g[0], g[2]) for g in table)
        if len(set(alias.values())) < len(alias):
            raise RuntimeError('two grammemes of the generated table share an alias')

        def probe():
            import pymorphy2
            m = pymorphy2.MorphAnalyzer(path=path, lang='ru')
            out = []
            for rnd in range(2):
                out += [[g, m.lat2cyr(g), alias[g]] for g in sorted(alias)]
                out += [[c, m.cyr2lat(c), g] for g, c in sorted(alias.items())]
                names = [str(t) for w in 'АЯ' for t in m.tag(w)]
                for t in tags + names:
                    e = ' '.join(','.join(alias[g] for g in part.split(',')) for part in t.split())
                    out += [[t, m.TagClass(t).cyr_repr, e], [e, m.cyr2lat(e), t]]
                m = pymorphy2.MorphAnalyzer(path=path, lang='ru')
            return [out, names]
        ctx.current = sorted(gone), mode
        st, v = forked(probe)
        ctx.count('tables')
        if st != 'ok':
            ctx.violation('aliases', 'with a dictionary without %s: %s' % (sorted(gone), v))
            continue
        if not any('Init' in t for t in v[1]):
            raise RuntimeError('no initials')
        for x, got, want in v[0]:
            ctx.ev()
            if got != want:
                ctx.violation('aliases', '%r is translated to %r, recorded is %r (own grammemes missing: %s)' % (x, got, want, sorted(gone)))
                break
        ctx.nt((k, tuple(map(tuple, table))))
    ctx.require('tables', 5)


def run(ctx):
    import re
    if ctx.leg == 'aliases':
        return aliases(ctx)
    from mon.env import Env
    from mon.dictref import DictRef
    env = Env(ctx, model=False, words=False)
    rng = ctx.rng
    d = DictRef(env.path, prediction=False)
    m = env.morph
    Tag = m.TagClass
    alias = dict((g[0], g[2]) for g in d.grammemes)
    alias.update(EXTRA)
    # the name and patronymic grammemes keep the dictionary alias
    back = dict((v, k) for k, v in alias.items())
    if len(back) != len(alias):
        ctx.problem = 'alias table of the dictionary has duplicates'
    known = sorted(alias)
    ctx.require('tags', 1000)
    ctx.require('strings', 1000)

    def tr(s, table):
        return ' '.join(','.join(table.get(g, g) for g in part.split(',')) for part in s.split())

    for g in known:
        ctx.ev()
        if m.lat2cyr(g) != alias[g] or m.cyr2lat(alias[g]) != g:
            ctx.violation('grammeme', '%r -> %r, %r -> %r' % (g, m.lat2cyr(g), alias[g], m.cyr2lat(alias[g])))
    extra_tags = ['NUMB,intg', 'NUMB,real', 'PNCT', 'LATN', 'ROMN', 'UNKN'] + [
        str(t) for w in ('А', 'Я') for t in m.tag(w)]
    strings = sorted(set(d.gramtab + extra_tags))
    for i, s in enumerate(strings):
        if i % ctx.nshards != ctx.shard:
            continue
        ctx.current = s
        t = Tag(s)
        e = tr(s, alias)
        ctx.ev()
        ctx.count('tags')
        if ',' in s or ' ' in s:
            ctx.nt_bulk += 1
        first = rng.random() < .5
        if first:
            gc = t.grammemes_cyr
        got = (t.cyr_repr, m.lat2cyr(t), m.lat2cyr(s), Tag.lat2cyr(t), t.cyr_repr)
        if set(got) != {e}:
            ctx.violation('lat2cyr', '%r -> %r, expected %r' % (s, got, e))
        if m.cyr2lat(t.cyr_repr) != s or Tag.cyr2lat(e) != s:
            ctx.violation('roundtrip', '%r -> %r -> %r' % (s, e, m.cyr2lat(e)))
        gc = t.grammemes_cyr
        if set(gc) != set(alias[g] for g in t.grammemes) or set(t.grammemes_cyr) != set(gc):
            ctx.violation('grammemes_cyr', '%r: %r' % (s, sorted(gc)))
        if m.cyr2lat(s) != s or m.lat2cyr(e) != e:
            ctx.violation('already', 'an already translated tag is changed: %r %r' % (m.cyr2lat(s), m.lat2cyr(e)))
        if len(ctx.samples) < 5:
            ctx.sample(dict(tag=s, cyr=e))
    for _ in range(ctx.budget(3000, 30000)):
        toks = [rng.choice(known) if rng.random() < .8 else rng.choice(['foo', 'Бар', '1per2', 'NOUNs', '=', ''])
                for _ in range(rng.randint(1, 6))]
        s = ''
        for i, g in enumerate(toks):
            if i:
                s += rng.choice([',', ',', ' '])
            s += g
        s = ' '.join(s.split())
        ctx.current = s
        ctx.ev()
        ctx.count('strings')
        ctx.nt(s)
        e = tr(s, alias)
        if m.lat2cyr(s) != e:
            ctx.violation('lat2cyr', '%r -> %r, expected %r' % (s, m.lat2cyr(s), e))
        c = ''.join(alias.get(x, x) for x in re.split('([, ])', s))
        if m.cyr2lat(c) != tr(c, back):
            ctx.violation('cyr2lat', '%r -> %r, expected %r' % (c, m.cyr2lat(c), tr(c, back)))
