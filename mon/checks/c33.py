# -*- coding: utf-8 -*-
"""C33: custom pipelines of analysis units."""
LEVEL = 'exploration'
RULE = ('random pipelines: (a) of recording stand-in units in nested groups, with random answers - the trace of calls has to '
        'be exactly the documented one (units in order, all of a group, nothing after the first group which has found '
        'something), and results, lexemes, normal forms and tags are those of the units; (b) of the library\'s own units in '
        'random order and grouping with random parameters, compared with the reference model.  The same unit objects are '
        'used for several analyzers (and pickled), which may not influence each other; (c) several units of one class, each with parameters of its own.  Non-trivial = distinct '
        '(pipeline, token).')
ASSUMPTIONS = ['pipelines of library units start with the dictionary unit']


def legs(tier):
    return [dict(name='stubs', venv='slow', shards=3, timeout=850),
            dict(name='units', venv='slow', shards=6, timeout=850),
            dict(name='fast', venv='fast', shards=3, timeout=850)]


def prepare(scratch):
    from mon.subset import prepare as sub
    return {'SUBSET': sub(scratch, 200)}


def run(ctx):
    import os
    path = os.environ['SUBSET']
    nested(ctx, path)
    twins(ctx, path)
    if ctx.leg != 'units':
        stubs(ctx, path)
    if ctx.leg != 'stubs':
        units(ctx, path)


def rebound(m, pipe):
    """the pipeline with the units which are in use by analyzer m"""
    if not all(isinstance(x, tuple) and len(x) == 2 for x in getattr(m, '_units', [None])):
        return pipe  # the analyzer keeps them elsewhere
    it = iter(u for u, last in m._units)
    return [[next(it) for _ in g] if isinstance(g, (list, tuple)) else next(it) for g in pipe]


def nested(ctx, path):
    """ units and estimators which work with an analyzer of their own """
    import threading
    import pymorphy2
    from pymorphy2 import units as U
    from pymorphy2.units.base import BaseAnalyzerUnit
    ctx.require('nested_analyzers', 6)
    plain = pymorphy2.MorphAnalyzer(path=path)
    words = ['кот', 'люди', 'стали', 'ёж', 'еж', 'бегемотик', 'кот-дом']

    class Delegating(BaseAnalyzerUnit):
        def init(self, morph):
            super(Delegating, self).init(morph)
            ctx.count('nested_analyzers')
            self.own = pymorphy2.MorphAnalyzer(path=path, result_type=None)

        def parse(self, word, word_lower, seen):
            return self.own.parse(word)

        def tag(self, word, word_lower, seen):
            return self.own.tag(word)

    class Late(Delegating):
        def init(self, morph):
            BaseAnalyzerUnit.init(self, morph)

        def parse(self, word, word_lower, seen):
            return pymorphy2.MorphAnalyzer(path=path, result_type=None).parse(word)

    class Estimator(pymorphy2.analyzer.ProbabilityEstimator):
        def __init__(self, dict_path):
            super(Estimator, self).__init__(dict_path)
            ctx.count('nested_analyzers')
            self.own = pymorphy2.MorphAnalyzer(path=dict_path)

        def apply_to_parses(self, word, word_lower, parses):
            assert len(self.own.parse(word)) >= 0
            return parses

    for kw in (dict(units=[Delegating()], probability_estimator_cls=None), dict(units=[[Delegating(), U.RomanNumberAnalyzer()], U.UnknAnalyzer()], probability_estimator_cls=None),
               dict(units=[Late()], probability_estimator_cls=None),
               dict(units=[Delegating(), U.UnknAnalyzer()], probability_estimator_cls=Estimator)):
        if 'probability_estimator_cls' in kw and kw['probability_estimator_cls'] and not plain.prob_estimator:
            continue
        ctx.current = ('units with an analyzer of their own', sorted(kw))
        # if creating never returns, then no other thread may be stopped by it
        box = []
        t = threading.Thread(target=lambda: box.append(pymorphy2.MorphAnalyzer(path=path, **kw)))
        t.daemon = True
        t.start()
        t.join(60)
        ctx.ev()
        if t.is_alive():
            ctx.violation('nested', 'creating an analyzer of %r never returns' % kw)
            from mon.leg import StopLeg
            raise StopLeg()
        if not box:
            ctx.violation('nested', 'creating an analyzer of %r fails' % kw)
            continue
        for w in words:
            g = [(p[0], str(p[1]), p[2]) for p in box[0].parse(w)]
            x = [(p.word, str(p.tag), p.normal_form) for p in plain.parse(w)]
            if g != x:
                ctx.violation('nested', 'parse(%r) by a delegating unit: %r, its own analyzer says %r' % (w, g[:3], x[:3]))
            ctx.count('nested_results')


def twins(ctx, path):
    """ several units of one class: each one works by its own parameters """
    import pickle
    import pymorphy2
    from pymorphy2 import units as U
    rng = ctx.rng
    ctx.require('twins', 100)
    words = ['кот', 'люди', 'стали', 'дом', 'красивый']

    def silly(u):
        return pymorphy2.MorphAnalyzer(path=path, units=[U.DictionaryAnalyzer(), u, U.UnknAnalyzer()])

    def obs(ps):
        return [(p[0], str(p[1]), p[2], round(p[3], 9)) for p in ps]

    def cases():
        x = ['зю', 'фы', 'жы', 'чя']
        rng.shuffle(x)
        a, b, c = ['%s' % s for s in x[:3]]
        w = rng.choice(words)
        KP, PT, HY = U.KnownPrefixAnalyzer, U.HyphenSeparatedParticleAnalyzer, U.HyphenatedWordsAnalyzer
        yield lambda: KP([a]), lambda: KP([b]), b + w
        yield lambda: KP([a, b], min_remainder_length=20), lambda: KP([b, a]), b + w
        yield lambda: KP([a], .3), lambda: KP([b], .3), b + w
        yield lambda: PT(['-' + a]), lambda: PT(['-' + b]), w + '-' + b
        yield lambda: PT(['-' + a], .2), lambda: PT(['-' + c, '-' + b], .2), w + '-' + b
        yield lambda: HY([w]), lambda: HY([a]), w + '-' + rng.choice(words)
        yield lambda: U.AbbreviatedFirstNameAnalyzer('АБ'), lambda: U.AbbreviatedFirstNameAnalyzer('ВГ'), 'В'
        yield lambda: U.AbbreviatedPatronymicAnalyzer(['А', 'Б']), lambda: U.AbbreviatedPatronymicAnalyzer(['В']), 'В'
        yield (lambda: U.AbbreviatedPatronymicAnalyzer('А', 'NOUN,%(gender)s sing,%(case)s'),
               lambda: U.AbbreviatedPatronymicAnalyzer('В', 'ADJF %(gender)s,sing,%(case)s'), 'В')
        yield lambda: U.KnownSuffixAnalyzer(min_word_length=60), lambda: U.KnownSuffixAnalyzer(), 'ъ' * 7 + w
    for k in range(ctx.budget(4, 30)):
        for mute, main, tok in cases():
            units = [mute(), main()]
            if rng.random() < .3:
                units.append(mute())
            if rng.random() < .3:
                units = [units]
            if rng.random() < .3:
                # (the ones in use are copied)
                pymorphy2.MorphAnalyzer(path=path, units=[U.DictionaryAnalyzer()] + units)
            m = pymorphy2.MorphAnalyzer(path=path, units=[U.DictionaryAnalyzer()] + units + [U.UnknAnalyzer()])
            if rng.random() < .2:
                m = pickle.loads(pickle.dumps(m))
            one = silly(main())
            ctx.current = ('twins', tok, repr(units))
            ctx.ev()
            ctx.count('twins')
            g, x = m.parse(tok), one.parse(tok)
            if obs(g) != obs(x):
                ctx.violation('twins', 'parse(%r) of units %r is %r, by the second unit alone %r' % (tok, units, obs(g)[:3], obs(x)[:3]))
                continue
            if [str(t) for t in m.tag(tok)] != [str(t) for t in one.tag(tok)]:
                ctx.violation('twins', 'tag(%r) of units %r is %r, by the second unit alone %r' % (tok, units, m.tag(tok)[:3], one.tag(tok)[:3]))
            for p, q in list(zip(g, x))[:6]:
                if obs(p.lexeme) != obs(q.lexeme) or obs([p.normalized]) != obs([q.normalized]):
                    ctx.violation('twins', 'lexeme or normal form of %r of units %r differ from those by the second unit alone' % (obs([p]), units))
            ctx.nt((tok, repr(units)))
            ctx.count('twins_unknown' if 'UNKN' in x[0][1].grammemes else 'twins_found')
    ctx.require('twins_found', 50)


def stubs(ctx, path):
    import copy
    import pickle
    import pymorphy2
    from pymorphy2.units.base import BaseAnalyzerUnit
    from mon import pickle_types
    rng = ctx.rng
    ctx.require('traces', 500)
    ctx.require('stopped_early', 100)
    ctx.require('exhausted', 30)
    base = pymorphy2.MorphAnalyzer(path=path)
    TAGS = ['NOUN,inan,masc sing,nomn', 'VERB,perf,tran sing,past,indc', 'ADVB', 'CONJ', 'UNKN', 'NOUN,inan,masc sing,gent',
            'NPRO,masc,3per,Anph sing,nomn', 'LATN']
    LOG = pickle_types.LOG
    Unit, TagUnit = pickle_types.RecordingUnit, pickle_types.RecordingTagUnit

    def make(depth_ids):
        k = len(depth_ids)
        depth_ids.append(k)
        table = {}
        for w in WORDS:
            if rng.random() < .3:
                table[w] = [(rng.choice(TAGS), rng.choice(['x', 'y', w]), rng.choice([.1, .5, 1.]))
                            for _ in range(rng.randint(1, 3))]
        return rng.choice([Unit, Unit, TagUnit])(k, table)
    WORDS = ['слово', 'кот', 'Кот', 'a-b', '', 'Ё', 'дом', 'unknown', ' пробел ', 'ДОМ']
    for k in range(ctx.budget(150, 1000) if ctx.leg == 'stubs' else 30):
        ids, pipe, groups = [], [], []
        for _ in range(rng.randint(1, 6)):
            n = rng.choice([0, 0, 1, 2, 3])
            if n == 0:
                u = make(ids)
                pipe.append(u)
                groups.append([u])
            else:
                g = [make(ids) for _ in range(n)]
                pipe.append(rng.choice([list, tuple])(g))
                groups.append(g)
        given = rng.choice([list, tuple])(pipe)
        kw = dict(path=path, units=given, probability_estimator_cls=None, result_type=rng.choice([None, pymorphy2.analyzer.Parse]))
        before = repr(given), [dict(vars(u)) for g in groups for u in g]
        m = pymorphy2.MorphAnalyzer(**kw)
        m2 = pymorphy2.MorphAnalyzer(**kw)
        ms = [m, m2]
        if rng.random() < .5:
            ms.append(pickle.loads(pickle.dumps(m)))
            ctx.count('pickled')
        if rng.random() < .5:
            # units which already work for another analyzer
            ms.append(pymorphy2.MorphAnalyzer(**dict(kw, units=rebound(m, given))))
            ctx.count('rebound')
        if (repr(given), [dict(vars(u)) for g in groups for u in g]) != before:
            ctx.violation('units', 'creating analyzers changed the units passed in')
        ctx.count('pipelines')
        for w in WORDS:
            an = rng.choice(ms)
            ctx.current = (k, w)
            ctx.ev()
            ctx.nt((ctx.shard, k, w))
            low = w.lower()
            exp, trace, stop = [], [], False
            for g in groups:
                for u in g:
                    trace.append(u.ident)
                    exp += [(low, t, nf, s, u.ident) for t, nf, s in u.table.get(w, ())]
                if exp:
                    stop = g is not groups[-1]
                    break
            ctx.count('stopped_early' if stop else 'exhausted' if not exp else 'last_group')
            for call in ('parse', 'tag', 'normal_forms'):
                del LOG[:]
                try:
                    r = getattr(an, call)(w)
                except Exception as e:
                    ctx.violation('error', '%s(%r) with stand-in units: %r' % (call, w, e))
                    continue
                ctx.count('traces')
                got = [(i, a, b) for i, a, b, who, c in LOG]
                if got != [(i, w, low) for i in trace]:
                    ctx.violation('trace', '%s(%r): units called %r, expected %r' % (call, w, got, trace))
                if any(who is not an for i, a, b, who, c in LOG):
                    ctx.violation('bound', '%s(%r) uses units bound to another analyzer' % (call, w))
                if call == 'parse':
                    o = [(p[0], str(p[1]), p[2], p[3], p[4][-1][0].ident) for p in r]
                    if o != exp:
                        ctx.violation('result', 'parse(%r) = %r, expected %r' % (w, o, exp))
                    if kw['result_type'] is None:
                        if any(type(p) is not tuple for p in r):
                            ctx.violation('result', 'parse() results are wrapped: %r' % r[0])
                        lexs = [[f[:3] for f in an.get_lexeme(p)] for p in r]
                    else:
                        lexs = [[tuple(f)[:3] for f in p.lexeme] for p in r]
                        for p in r:
                            nn = p.normalized
                            if nn.word != 'norm-%d' % p[4][-1][0].ident:
                                ctx.violation('normalized', 'normalized of %r is %r' % (p, nn))
                            if p.normalized.normalized.word != nn.word or not isinstance(nn, type(p)):
                                ctx.violation('normalized', 'normalized of %r is %r' % (p, nn))
                    for p, l in zip(r, lexs):
                        i = p[4][-1][0].ident
                        if [(x[0], str(x[1]), x[2]) for x in l] != [(p[0], str(p[1]), p[2]), ('lex-%d' % i, 'ADVB', 'lex')]:
                            ctx.violation('lexeme', 'lexeme of %r: %r' % (p, l))
                elif call == 'tag':
                    e = []
                    for g in groups:
                        seen = e
                        for u in g:
                            for t, _, _ in u.table.get(w, ()):
                                if t not in e:
                                    e.append(t)
                        if e:
                            break
                    if [str(t) for t in r] != e:
                        ctx.violation('tag', 'tag(%r) = %r, expected %r' % (w, [str(t) for t in r], e))
                else:
                    e = []
                    for x in exp:
                        if x[2] not in e:
                            e.append(x[2])
                    if r != e:
                        ctx.violation('normal_forms', 'normal_forms(%r) = %r, expected %r' % (w, r, e))
        if k % 20 == 0:
            ctx.sample(dict(pipeline=[[u.ident for u in g] for g in groups]))


def units(ctx, path):
    import pickle
    import pymorphy2
    from pymorphy2 import units as U
    from mon.dictref import DictRef
    from mon.model import Model, obs, diff_parses, lang_config
    from mon.gen import Words, Tokens
    from mon.env import TooManyVariants
    rng = ctx.rng
    d = DictRef(path)
    cfg = lang_config('ru')
    W = Words(d, rng, 10, 500)
    ctx.require('compared', 3000)
    NAMES = ['AbbrName', 'AbbrPatr', 'Number', 'Punct', 'Roman', 'Latin', 'Particle', 'Adverb', 'Hyphenated', 'KnownPrefix',
             'UnknownPrefix', 'KnownSuffix']

    def score():
        return rng.choice([.1, .25, .3, .8, 1.])
    for k in range(ctx.budget(110, 800) if ctx.leg == 'units' else 40):
        params, c = {}, dict(cfg)
        custom = rng.random() < .7
        if custom:
            c['prefixes'] = rng.choice([cfg['prefixes'], rng.sample(['зю', 'зюс', 'кот', 'a-', 'зюсы'], 5), ['не']])
            c['skip_prefixes'] = rng.choice([c['prefixes'], ['кот'], ['зю']])
            c['particles'] = rng.choice([cfg['particles'], ['-зю', '-ка'], ['-то']])
            c['letters'] = rng.choice([cfg['letters'], 'АБZ'])
            for n in NAMES:
                if rng.random() < .5:
                    params[n] = score()
            if rng.random() < .5:
                params['min_remainder'] = rng.randint(1, 6)
            if rng.random() < .5:
                params['min_word'] = rng.randint(1, 8)
        s = lambda n, key='score_multiplier': {key: params[n]} if n in params else {}
        mk = dict(
            AbbrName=lambda: U.AbbreviatedFirstNameAnalyzer(list(c['letters']), **s('AbbrName', 'score')),
            AbbrPatr=lambda: U.AbbreviatedPatronymicAnalyzer(list(c['letters']), **s('AbbrPatr', 'score')),
            Number=lambda: U.NumberAnalyzer(**s('Number', 'score')), Punct=lambda: U.PunctuationAnalyzer(**s('Punct', 'score')),
            Roman=lambda: U.RomanNumberAnalyzer(**s('Roman', 'score')), Latin=lambda: U.LatinAnalyzer(**s('Latin', 'score')),
            Particle=lambda: U.HyphenSeparatedParticleAnalyzer(c['particles'], **s('Particle')),
            Adverb=lambda: U.HyphenAdverbAnalyzer(**s('Adverb')),
            Hyphenated=lambda: U.HyphenatedWordsAnalyzer(c.get('skip_prefixes', c['prefixes']), **s('Hyphenated')),
            KnownPrefix=lambda: U.KnownPrefixAnalyzer(c['prefixes'], **dict(s('KnownPrefix'), **(
                dict(min_remainder_length=params['min_remainder']) if 'min_remainder' in params else {}))),
            UnknownPrefix=lambda: U.UnknownPrefixAnalyzer(**s('UnknownPrefix')),
            KnownSuffix=lambda: U.KnownSuffixAnalyzer(**dict(s('KnownSuffix'), **(
                dict(min_word_length=params['min_word']) if 'min_word' in params else {}))),
            Unkn=lambda: U.UnknAnalyzer(), Dict=lambda: U.DictionaryAnalyzer())
        names = [n for n in NAMES if rng.random() < .8]
        if rng.random() < .5:
            rng.shuffle(names)
        groups = [['Dict']]
        for n in names:
            if rng.random() < .35 and len(groups) > 0:
                groups[-1].append(n)
            else:
                groups.append([n])
        if rng.random() < .8:
            groups.append(['Unkn'])
        given = dict((x, list(v)) for x, v in c.items() if isinstance(v, (list, tuple)))
        pipe = []
        for g in groups:
            us = [mk[n]() for n in g]
            pipe.append(us[0] if len(us) == 1 and rng.random() < .7 else rng.choice([list, tuple])(us))
        prob = rng.random() < .5
        kw = dict(path=path, units=pipe)
        if not prob:
            kw['probability_estimator_cls'] = None
        m = pymorphy2.MorphAnalyzer(**kw)
        r = rng.random()
        if r < .2:
            m = pickle.loads(pickle.dumps(m))
        elif r < .4:
            # units which already work for an analyzer with other rules
            other = pymorphy2.MorphAnalyzer(path=path, units=pipe, char_substitutes={}, probability_estimator_cls=None)
            other.tag('кот-зю')
            kw['units'] = rebound(other, pipe)
            m = pymorphy2.MorphAnalyzer(**kw)
            ctx.count('rebound')
        elif r < .6:
            # the same unit objects in another analyzer, too
            other = pymorphy2.MorphAnalyzer(path=path, units=list(reversed(pipe)), char_substitutes={})
            other.tag('кот-зю')
        M = Model(d, 'ru', prob=prob, groups=groups, cfg=c, params=params)
        toks = Tokens(W, rng, c)
        ctx.count('pipelines')
        for i in range(ctx.budget(60, 250)):
            t = toks.gen() if i % 5 else rng.choice(['зюкот', 'зюскот', 'зюсыкот', 'зюсыт', 'зюсыны', 'кот-зю', 'кот-ка', 'котдом', 'не-кот', 'кот-дом', 'ZZ', 'Z', 'А',
                                                     'a-кот', 'неж', 'зюя', 'некот', 'по-красивому', 'XIV', 'xiv-то', '1,5'])
            ctx.current = (groups, params, t)
            try:
                e = M.parse(t)
            except TooManyVariants:
                continue
            ps = m.parse(t)
            ctx.ev()
            ctx.count('compared')
            ctx.nt((k, ctx.shard, t))
            dd = diff_parses(obs(ps), e)
            if dd:
                ctx.violation('parse', 'pipeline %r %r: parse(%a): %s' % (groups, params, t, dd))
                break
            a, b = set(str(x) for x in m.tag(t)), set(x.tag for x in e)
            if a != b:
                ctx.violation('tag', 'pipeline %r: tag(%a) %r, parse() has %r' % (groups, t, sorted(a)[:5], sorted(b)[:5]))
                break
            if ps and rng.random() < .3:
                p = rng.choice(ps)
                p.lexeme, p.normalized, p.is_known
        for x, v in given.items():
            if list(c[x]) != v:
                ctx.violation('units', 'the list of %s passed to the units was changed: %r -> %r' % (x, v[:8], list(c[x])[:8]))
        if k % 10 == 0:
            ctx.sample(dict(pipeline=groups, params=params))
