# -*- coding: utf-8 -*-
"""C08: inflection."""
LEVEL = 'exploration'
RULE = ('analyses of tokens of all kinds x grammeme sets: every single grammeme of the lexeme, pairs and '
        'triples, sets copied from other members of the lexeme, rare cases, sets no form has, unknown '
        'grammemes.  Oracle: own computation of candidates and of grammeme conflicts from the raw grammeme '
        'tree.  Non-trivial = the lexeme has several candidate forms, or none.')
ASSUMPTIONS = ['ties between equally similar forms may be resolved either way']
RARE = {'gen1': 'gent', 'gen2': 'gent', 'acc1': 'accs', 'acc2': 'accs', 'loc1': 'loct', 'loc2': 'loct',
        'voct': 'nomn'}


def legs(tier):
    return [dict(name='tokens', venv='slow', shards=5, timeout=800),
            dict(name='dict', venv='slow', shards=5, timeout=800),
            dict(name='raw', venv='slow', shards=2, timeout=800),
            dict(name='toy', venv='fast', shards=2, timeout=800),
            dict(name='fast', venv='fast', shards=4, timeout=800)]


def conflicts(grammemes):
    """grammeme -> set of grammemes it excludes: members of the same category
    of the tree (direct and nested), and genders for the plural."""
    parent = dict((g[0], g[1]) for g in grammemes)
    below = {}
    for name, par, _, _ in grammemes:
        while par:
            below.setdefault(par, set()).add(name)
            if parent.get(par) is None or par not in parent:
                break
            par = parent[par]
            if len(below) > 10 ** 6:
                break
    out = {}
    for name, par, _, _ in grammemes:
        c = set(below.get(par, ())) if par else set()
        if name == 'plur':
            c |= {'GNdr'} | below.get('GNdr', set())
        out[name] = c - {name}
    return out


def expected(lex, form_gr, req, conf):
    """(candidates, best scores) or None"""
    cand = [f for f in lex if req <= f[2]]
    if not cand:
        req = frozenset(RARE.get(g, g) for g in req)
        cand = [f for f in lex if req <= f[2]]
    if not cand:
        return None
    target = set(form_gr) | req
    for g in req:
        target -= conf.get(g, set())
    best, res = None, []
    for f in cand:
        s = 10 * len(target & f[2]) - len(target ^ f[2])
        if best is None or s > best:
            best, res = s, [f]
        elif s == best:
            res.append(f)
    return cand, res


def run(ctx):
    from mon.env import Env
    import pymorphy2
    rng = ctx.rng
    if ctx.leg == 'toy':
        env = None
    else:
        env = Env(ctx, model=False)
        m = env.morph
        conf = conflicts(env.d.grammemes)
        known = sorted(conf)
    raw = pymorphy2.MorphAnalyzer(path=env.path, result_type=None) if ctx.leg == 'raw' else None
    ctx.require('inflected', 3000)
    ctx.require('none', 300)
    ctx.require('choice', 1000)
    ctx.require('rare_fallback', 50)

    def one(p, lex, req, key):
        req = frozenset(req)
        exp = expected(lex, p.tag.grammemes, req, conf)
        ctx.ev()
        r = p.inflect(req if rng.random() < .5 else set(req))
        if exp is None:
            ctx.count('none')
            ctx.nt((key, tuple(sorted(req))))
            if r is not None:
                ctx.violation('not_none', 'inflect(%r) of %r is %r %s although no form of the lexeme has them' % (
                    sorted(req), key, r.word, r.tag))
            return
        ctx.count('inflected')
        if r is None:
            ctx.violation('none', 'inflect(%r) of %r is None although %r has them' % (
                sorted(req), key, exp[0][0][:2]))
            return
        cand, best = exp
        if len(cand) > 1:
            ctx.count('choice')
            ctx.nt((key, tuple(sorted(req))))
        if not req <= cand[0][2]:
            ctx.count('rare_fallback')
        got = (r.word, str(r.tag))
        if got not in [c[:2] for c in cand]:
            ctx.violation('grammemes', 'inflect(%r) of %r is %r, which lacks the grammemes or is not in the lexeme' % (
                sorted(req), key, got))
        elif got not in [b[:2] for b in best]:
            ctx.violation('closest', 'inflect(%r) of %r is %r, closest forms are %r' % (
                sorted(req), key, got, [b[:2] for b in best][:3]))
        if r.normal_form not in [c[3] for c in cand if c[:2] == got] and cand:
            ctx.violation('nf', 'inflect(%r) of %r has normal form %r' % (sorted(req), key, r.normal_form))

    def sets(p, lex):
        tags = [f[2] for f in lex]
        allg = sorted(set().union(*tags))
        out = [()]
        out += [(g,) for g in (allg if len(allg) < 12 else rng.sample(allg, 12))]
        for _ in range(6):
            t = sorted(rng.choice(tags))
            out.append(rng.sample(t, min(len(t), rng.randint(1, 4))))
        for _ in range(2):
            out.append(rng.sample(allg, min(len(allg), 2)))
        out += [('gen2',), ('loc2', 'sing'), ('voct',), ('plur', rng.choice(sorted(RARE)))]
        out.append((rng.choice(known),))
        out.append((rng.choice(known), rng.choice(allg)))
        out.append(set(p.tag.grammemes))
        return out

    def token(tok, limit=3):
        ps = m.parse(tok)
        for p in (ps if len(ps) <= limit else rng.sample(ps, limit)):
            lex = [(f.word, str(f.tag), f.tag.grammemes, f.normal_form) for f in p.lexeme]
            key = (p.word, str(p.tag))
            ss = sets(p, lex)
            for s in (ss if len(lex) > 3 else rng.sample(ss, 5)):
                if 'acc1' in s and 'acc1' not in conf:
                    continue
                one(p, lex, s, key)
            if rng.random() < .05:
                ctx.count('unknown_grammeme')
                bad = rng.choice(['foobar', 'nOun', 'sin', 'СУЩ', ''])
                try:
                    r = p.inflect({bad, 'sing'})
                    ctx.violation('unknown', 'inflect with the unknown grammeme %r returned %r' % (bad, r))
                except ValueError:
                    pass
            num = rng.randint(0, 10 ** rng.randint(1, 5))
            a = p.make_agree_with_number(num)
            b = p.inflect(p.tag.numeral_agreement_grammemes(num))
            ctx.count('agreement')
            if (a and (a.word, str(a.tag))) != (b and (b.word, str(b.tag))):
                ctx.violation('agree', 'make_agree_with_number(%d) of %r' % (num, key))
            one_number(ctx, p, lex, num, key, conf)
            if len(ctx.samples) < 4 and len(lex) > 6:
                r = p.inflect({'plur'})
                ctx.sample(dict(token=ascii(tok), form=list(key), plur=r and [r.word, str(r.tag)]))

    def one_number(ctx, p, lex, num, key, conf):
        from mon.checks.c09 import agreement
        req = agreement(str(p.tag), num)
        exp = expected(lex, p.tag.grammemes, frozenset(req), conf)
        a = p.make_agree_with_number(num)
        if exp is None:
            ctx.check_that(a is None, 'agree', 'make_agree_with_number(%d) of %r is %r' % (num, key, a))
        elif a is None or (a.word, str(a.tag)) not in [b[:2] for b in exp[1]]:
            ctx.violation('agree', 'make_agree_with_number(%d) of %r is %r, expected %r' % (
                num, key, a and (a.word, str(a.tag)), [b[:2] for b in exp[1]][:3]))

    if ctx.leg == 'toy':
        from mon.toys import toy_envs
        from mon.checks.c06 import TOY_KINDS
        for env in toy_envs(ctx, ctx.budget(10, 150)):
            m = env.morph
            conf = conflicts(env.d.grammemes)
            known = sorted(conf)
            for w in rng.sample(env.words.words, min(len(env.words), 60)):
                ctx.current = (env.path, w)
                token(w, 4)
            for kind, tok in env.stream(TOY_KINDS, 60):
                token(tok)
        return
    if ctx.leg == 'dict':
        seen = set()
        for w in rng.sample(env.words.words, len(env.words.words)):
            vals = env.d.exact(w)
            fresh = [v for v in vals if v not in seen]
            if not fresh:
                continue
            seen.update(fresh)
            ctx.current = w
            token(w, 4)
            if len(seen) > ctx.budget(4000, 30000):
                break
        ctx.count('paradigm_positions', len(seen))
        return
    if ctx.leg == 'raw':
        # plain tuples: lexeme via the analyzer; inflection only via Parse -> same lexeme basis
        for kind, tok in env.stream(env.tokens.kinds, ctx.budget(600, 6000)):
            for a, b in zip(raw.parse(tok), m.parse(tok)):
                la = [(f[0], str(f[1]), f[2]) for f in raw.get_lexeme(a)]
                lb = [(f.word, str(f.tag), f.normal_form) for f in b.lexeme]
                ctx.ev()
                ctx.check_that(la == lb, 'raw', 'lexeme of plain tuple differs for %a' % tok)
        # inflection on words with rare cases
        rare = [w for w in env.words.words
                if any(set(RARE) & set(env.d.tag(p, i).replace(' ', ',').split(','))
                       for para, _ in env.d.exact(w) for p, i in [(para, k) for k in range(len(env.d.paradigms[para]))])]
        for w in rng.sample(rare, min(len(rare), ctx.budget(500, 5000))):
            ctx.current = w
            ctx.count('rare_words')
            token(w, 5)
        return
    n = ctx.budget(3500, 30000) if ctx.leg == 'tokens' else ctx.budget(500, 4000)
    for kind, tok in env.stream(env.tokens.kinds, n):
        token(tok)
