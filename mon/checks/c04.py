# -*- coding: utf-8 -*-
"""C04: parse(), tag(), normal_forms() and unwrapped results agree."""
LEVEL = 'exploration'
RULE = ('tokens of all generated kinds and a dictionary sample; for each, the set of tags from tag() '
        'is compared with the tags of parse(), normal_forms() with the distinct normal forms of parse() '
        'in order, and an analyzer with result_type=None / a custom result type with the default one '
        '(every call).  Non-trivial = more than one analysis or an out-of-vocabulary token.')
ASSUMPTIONS = []


def legs(tier):
    return [dict(name='tokens', venv='slow', shards=8, timeout=800),
            dict(name='noprob', venv='slow', shards=2, timeout=800),
            dict(name='old', venv='slow', shards=2, timeout=800),
            dict(name='toy', venv='fast', shards=2, timeout=800),
            dict(name='fast', venv='fast', shards=4, timeout=800)]


def run(ctx):
    import pymorphy2
    from mon.env import Env, ru_old_path
    if ctx.leg == 'toy':
        from mon.toys import toy_envs
        for i in range(ctx.budget(10, 120)):
            kw = dict(probability_estimator_cls=None) if i % 3 == 2 else {}
            for env in toy_envs(ctx, 1, **kw):
                workload(ctx, env, 150, not kw, **kw)
        return
    kw = {}
    path = None
    if ctx.leg == 'noprob':
        kw['probability_estimator_cls'] = None
    if ctx.leg == 'old':
        path = ru_old_path()
    env = Env(ctx, path=path, model=False, **kw)
    n = {'tokens': ctx.budget(11000, 150000), 'noprob': ctx.budget(7000, 60000),
         'old': ctx.budget(7000, 60000), 'fast': ctx.budget(1200, 9000)}[ctx.leg]
    workload(ctx, env, n, ctx.leg in ('tokens', 'fast'), **kw)


def answers(ctx, tok, m, raw, mine, MyParse, ps, rp, cp):
    """every other call of analyzers with different result types"""
    v = lambda x: None if x is None else (tuple(x)[:4] + (repr(x[4]),))
    ctx.count('all_answers')
    for strict in (False, True):
        a = [x.word_is_known(tok, strict=strict) for x in (m, raw, mine)]
        if len(set(a)) != 1:
            ctx.violation('known', 'word_is_known(%a) depends on the result type: %r' % (tok, a))
    pre = tok.lower()[:3]
    if pre:
        import itertools
        its = [list(itertools.islice(x.iter_known_word_parses(pre), 30)) for x in (m, raw, mine)]
        if not ([v(x) for x in its[0]] == [v(x) for x in its[1]] == [v(x) for x in its[2]]) or \
                any(type(x) is not tuple for x in its[1]) or any(not isinstance(x, MyParse) for x in its[2]):
            ctx.violation('iterate', 'iteration over %a depends on the result type' % pre)
    i = ctx.rng.randrange(len(ps))
    ls = [m.get_lexeme(ps[i]), raw.get_lexeme(rp[i]), mine.get_lexeme(cp[i]), raw.get_lexeme(ps[i]), ps[i].lexeme, cp[i].lexeme]
    if any([v(x) for x in l] != [v(x) for x in ls[0]] for l in ls):
        ctx.violation('lexeme', 'lexeme of %a depends on the result type' % tok)
    if any(type(x) is not tuple for x in ls[1]) or any(not isinstance(x, MyParse) for x in ls[2] + ls[5]) or \
            any(type(x) is not type(ps[0]) for x in ls[0] + ls[4]):
        ctx.violation('type', 'forms of the lexeme of %a have other types: %r' % (tok, [type(l[0]) for l in ls]))
    for f in (lambda p: p.normalized, lambda p: p.inflect({'plur'}), lambda p: p.inflect({'gent', 'sing'}),
              lambda p: p.make_agree_with_number(2), lambda p: p.is_known):
        a, b = f(ps[i]), f(cp[i])
        if isinstance(a, bool):
            if a != b:
                ctx.violation('answer', 'is_known of %a depends on the result type' % tok)
        elif v(a) != v(b) or b is not None and not isinstance(b, MyParse):
            ctx.violation('answer', 'an answer about %a depends on the result type: %r, %r' % (tok, a, b))


def workload(ctx, env, n, estimates, **kw):
    import pymorphy2
    m = env.morph
    raw = pymorphy2.MorphAnalyzer(path=env.path, result_type=None, **kw)

    class MyParse(pymorphy2.analyzer.Parse):
        extra = 'x'
    mine = pymorphy2.MorphAnalyzer(path=env.path, result_type=MyParse, **kw)
    kinds = [k for k in env.tokens.kinds] + ['known'] * 6 + ['known_yo', 'mutated', 'suffix', 'unknown_prefix'] * 2
    ctx.require('tokens', 2000 if ctx.leg != 'toy' else 1000)
    ctx.require('ambiguous', 200)
    ctx.require('all_answers', 100)
    for kind, tok in env.stream(kinds, n):
        ctx.ev()
        ctx.count('tokens')
        ps = m.parse(tok)
        tags = m.tag(tok)
        if len(ps) > 1:
            ctx.count('ambiguous')
        if len(ps) > 1 or kind not in ('known', 'known_yo'):
            ctx.nt(tok)
        a, b = set(map(str, tags)), set(str(p.tag) for p in ps)
        if a != b:
            ctx.violation('tags', 'tag(%a) and parse(%a) disagree: only tag() %r only parse() %r' % (
                tok, tok, sorted(a - b)[:4], sorted(b - a)[:4]))
        if estimates and len(set(p.score for p in ps)) > 1:
            # with corpus estimates both are ordered by them
            est = [env.d.prob(tok.lower(), str(t)) for t in tags]
            if sum(est):
                ctx.count('ordered_by_estimate')
                if any(x < y - 1e-12 for x, y in zip(est, est[1:])):
                    ctx.violation('order', 'tag(%a) is not ordered by P(t|w): %r' % (tok, est))
                if str(tags[0]) not in [str(p.tag) for p in ps if abs(p.score - ps[0].score) < 1e-9]:
                    ctx.violation('best', 'best tag of %a: tag() %s, parse() %s' % (tok, tags[0], ps[0].tag))
        exp = []
        for p in ps:
            if p.normal_form not in exp:
                exp.append(p.normal_form)
        got = m.normal_forms(tok)
        if got != exp:
            ctx.violation('normal_forms', 'normal_forms(%a) = %r, parse() gives %r' % (tok, got, exp))
        # unwrapped / custom wrapped
        rp = raw.parse(tok)
        if [tuple(p)[:4] for p in ps] != [tuple(p)[:4] for p in rp]:
            ctx.violation('raw', 'result_type=None changes parse(%a)' % tok)
        if any(type(p) is not tuple for p in rp):
            ctx.violation('rawtype', 'result_type=None returns %r' % type(rp[0]))
        if raw.normal_forms(tok) != got or set(map(str, raw.tag(tok))) != a:
            ctx.violation('raw', 'result_type=None changes normal_forms/tag of %a' % tok)
        cp = mine.parse(tok)
        if [tuple(p)[:4] for p in cp] != [tuple(p)[:4] for p in ps] or not all(
                isinstance(p, MyParse) and p.extra == 'x' for p in cp):
            ctx.violation('custom', 'custom result type changes parse(%a)' % tok)
        if ctx.rng.random() < .1:
            answers(ctx, tok, m, raw, mine, MyParse, ps, rp, cp)
        if ctx.rng.random() < .2:
            i = ctx.rng.randrange(len(ps))
            l1 = [tuple(x)[:3] for x in m.get_lexeme(ps[i])]
            l2 = [tuple(x)[:3] for x in raw.get_lexeme(rp[i])]
            l3 = [tuple(x)[:3] for x in cp[i].lexeme]
            l4 = [tuple(x)[:3] for x in ps[i].lexeme]
            ctx.count('lexemes')
            if not (l1 == l2 == l3 == l4):
                ctx.violation('lexeme', 'lexeme of %a depends on the result type' % tok)
        if len(ps) > 2:
            ctx.sample(dict(token=ascii(tok), tags=sorted(a)[:4]))
