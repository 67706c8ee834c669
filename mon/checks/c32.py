# -*- coding: utf-8 -*-
"""C32: which dictionary and language rules an analyzer uses."""
LEVEL = 'exploration'
RULE = ('all combinations of path argument x PYMORPHY2_DICT_PATH x lang argument over dictionaries which declare ru, uk, an '
        'unknown language or none, installed and missing ones; for each, the analyzer has to use the dictionary, language '
        'and rules the documented precedence gives (compared by analysing words with the reference model of that '
        'dictionary and language), with the documented warnings or errors.  Substitution, unit and estimator arguments '
        'are varied on top; packages with dictionaries are installed and removed between creations in one process.  Non-trivial = distinct configurations.')
ASSUMPTIONS = ['without path and lang arguments the language is ru']
EXHAUSTIVE = 'path x environment variable x lang combinations of 7 x 6 x 6 values'


def legs(tier):
    return [dict(name='slow', venv='slow', shards=6, timeout=850),
            dict(name='fast', venv='fast', shards=2, timeout=850)]


def prepare(scratch):
    from mon.subset import prepare as sub
    a = sub(scratch, 150, None, 'A')
    b = sub(scratch, 150, 'other', 'B')
    return {'DICT_A': a, 'DICT_B': b}


def run(ctx):
    import itertools
    import json
    import os
    import shutil
    import warnings
    import pymorphy2
    from pymorphy2.analyzer import ProbabilityEstimator
    from mon.dictref import DictRef, ru_path, ru_old_path
    from mon.model import Model, obs, diff_parses, lang_config
    from mon.gen import Words, Tokens
    rng = ctx.rng
    ENV = 'PYMORPHY2_DICT_PATH'
    os.environ.pop(ENV, None)

    def copy(src, name, lang, prob=True):
        out = os.path.join(ctx.work, name)
        shutil.copytree(src, out)
        fn = os.path.join(out, 'meta.json')
        with open(fn, encoding='utf8') as f:
            meta = [x for x in json.load(f) if x[0] != 'language_code' and (prob or x[0] != 'P(t|w)')]
        if lang:
            meta.insert(1, ['language_code', lang])
        with open(fn, 'w', encoding='utf8') as f:
            json.dump(meta, f)
        if not prob:
            os.unlink(os.path.join(out, 'p_t_given_w.intdawg'))
        return out
    A, B = os.environ['DICT_A'], os.environ['DICT_B']
    D = dict(ru=copy(A, 'ru', 'ru'), uk=copy(B, 'uk', 'uk'), xx=copy(B, 'xx', 'xx'), nolang=copy(A, 'nolang', None),
             ru2=copy(B, 'ru2', 'ru', prob=False), missing=os.path.join(ctx.work, 'missing'))
    declared = dict(ru='ru', uk='uk', xx='xx', nolang=None, ru2='ru', installed='ru', old=None)
    old = ru_old_path()
    models, refs, toks = {}, {}, {}
    for n, p in D.items():
        if n != 'missing':
            refs[n] = DictRef(p)
            w = Words(refs[n], rng, 10, 400)
            cfgs = [lang_config('ru'), lang_config('uk')]
            toks[n] = [Tokens(w, rng, c) for c in cfgs]

    def model(n, lang, **kw):
        key = n, lang, repr(kw)
        if key not in models:
            models[key] = Model(refs[n], lang, **kw)
        return models[key]

    def conf(lang):
        return {'ru-old': 'ru', 'uk': 'uk'}.get(lang, 'ru')

    def create(**kw):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            try:
                m = pymorphy2.MorphAnalyzer(**kw)
            except (ValueError, IOError, OSError) as e:
                return e, []
        return m, [str(w.message) for w in ws if issubclass(w.category, UserWarning)
                   and w.category.__name__ not in ('PkgResourcesDeprecationWarning', 'PEP440Warning')
                   and 'pkg_resources' not in str(w.message)]
    SPECIAL = ['га', 'ґанок', 'еж', 'а-но', 'кот-то', 'Ґ', 'Э', 'Є', 'якнайкот', 'щонайкрасивий', 'супермама', 'екскот',
               'небезкот', 'по-ивановски', 'xiv', 'XIV', 'Latin', '12', '?!', 'Вася-то', 'мамо-стол']

    def behaviour(m, n, lang, label, **kw):
        c = conf(lang)
        M = model(n, c, **kw)
        words = rng.sample(SPECIAL, 8) + [toks[n][i % 2].gen() for i in range(ctx.budget(26, 120))]
        for t in words:
            ctx.current = (label, t)
            try:
                e = M.parse(t)
            except Exception as x:
                if type(x).__name__ == 'TooManyVariants':
                    continue
                raise
            d = diff_parses(obs(m.parse(t)), e)
            ctx.count('compared')
            if d:
                ctx.violation('behaviour', '%s: parse(%a): %s' % (label, t, d))
                break
    combos = list(itertools.product([None, 'ru', 'uk', 'xx', 'nolang', 'ru2', 'missing'],
                                    [None, 'ru', 'uk', 'nolang', 'ru2', 'missing'],
                                    [None, 'ru', 'uk', 'xx', 'ru-old', 'de']))
    ctx.require('configurations', len(combos) if ctx.leg == 'slow' else 20)
    ctx.require('compared', 3000)
    ctx.require('refused', 30)
    for i, (p, env, lang) in enumerate(combos):
        if i % ctx.nshards != ctx.shard or ctx.leg == 'fast' and i % 5:
            continue
        label = 'path=%s %s=%s lang=%r' % (p, ENV, env, lang)
        ctx.current = label
        if p is None and env is None and lang in (None, 'ru') and i % 2:
            pass
        kw = {}
        if p or rng.random() < .5:
            kw['path'] = D[p] if p else None
        if lang or rng.random() < .5:
            kw['lang'] = lang
        if env:
            os.environ[ENV] = D[env]
        try:
            m, ws = create(**kw)
        finally:
            os.environ.pop(ENV, None)
        ctx.ev()
        ctx.nt(label)
        ctx.count('configurations')
        eff_lang = lang
        if p is None and lang is None:
            eff_lang = 'ru'
        n = p or env
        exc = None
        if n is None:
            if eff_lang == 'ru':
                n = 'installed'
            elif eff_lang == 'ru-old' and old:
                n = 'old'
            else:
                exc = ValueError
        elif n == 'missing':
            exc = (IOError, OSError)
        if exc:
            ctx.count('refused')
            if not isinstance(m, exc):
                ctx.violation('refuse', '%s: %r instead of an error' % (label, m))
            elif exc is ValueError and repr(lang).strip('u') not in str(m):
                ctx.violation('refuse', '%s: the error does not name the language: %s' % (label, m))
            continue
        if isinstance(m, Exception):
            ctx.violation('error', '%s: %r' % (label, m))
            continue
        dl = declared[n]
        want = []
        if eff_lang is None:
            if dl is None:
                want.append("doesn't declare")
            eff_lang = dl or 'ru'
        elif eff_lang != dl:
            want.append("doesn't match")
        if eff_lang not in ('ru', 'uk', 'ru-old'):
            want.append('unknown language')
        got = [k for k in ("doesn't declare", "doesn't match", 'unknown language') if any(k in w for w in ws)]
        ctx.count('warnings', len(got))
        if sorted(want) != sorted(got) or [w for w in ws if not any(k in w for k in want)]:
            ctx.violation('warnings', '%s: warnings %r, expected %r' % (label, ws, want))
        if m.lang != eff_lang:
            ctx.violation('lang', '%s: language %r, expected %r' % (label, m.lang, eff_lang))
        real = ru_path() if n == 'installed' else old if n == 'old' else D[n]
        if n == 'installed':
            # the same dictionary is installed in each environment
            same = dict(m.dictionary.meta).get('words_dawg_length') == DictRef(real, prediction=False, prob=False).meta['words_dawg_length']
        else:
            same = os.path.realpath(m.dictionary.path) == os.path.realpath(real)
        if not same:
            ctx.violation('dictionary', '%s: uses %s, expected %s' % (label, m.dictionary.path, real))
        if n in refs:
            behaviour(m, n, eff_lang, label)
        if i % 30 == 0:
            ctx.sample(dict(config=label, dictionary=n, language=eff_lang, warnings=ws))

    # dictionary packages installed (and removed) while the process is running
    import sys
    ctx.require('installed_later', 2)

    def package(lang, path, k):
        root = os.path.join(ctx.work, 'site%d' % k)
        mod = 'pymorphy2_dicts_%s_%d' % (lang, k)
        info = os.path.join(root, mod + '-1.0.dist-info')
        os.makedirs(info)
        os.makedirs(os.path.join(root, mod))
        for fn, text in ((os.path.join(root, mod, '__init__.py'), 'def get_path():\n    return %r\n' % path),
                         (os.path.join(info, 'METADATA'), 'Metadata-Version: 2.1\nName: %s\nVersion: 1.0\n' % mod),
                         (os.path.join(info, 'entry_points.txt'), '[pymorphy2_dicts]\n%s = %s\n' % (lang, mod))):
            with open(fn, 'w', encoding='utf8') as f:
                f.write(text)
        return root
    seq = ['uk', 'xx', 'de', 'uk'] if ctx.leg == 'slow' else ['uk', 'de']
    for k, lang in enumerate(seq):
        n = {'de': 'ru'}.get(lang, lang)
        ctx.current = 'package %d for %s' % (k, lang)
        m, ws = create(lang=lang)
        if not isinstance(m, ValueError) or repr(lang) not in str(m):
            ctx.violation('package', 'lang=%r without a dictionary package: %r' % (lang, m))
        root = package(lang, D[n], k)
        sys.path.append(root)
        try:
            m, ws = create(lang=lang)
            ctx.ev()
            ctx.nt((lang, k, 'package'))
            if isinstance(m, Exception):
                ctx.violation('package', 'a package with a dictionary for %r was installed after the first analyzer was '
                              'made: %r' % (lang, m))
                continue
            ctx.count('installed_later')
            if os.path.realpath(m.dictionary.path) != os.path.realpath(D[n]) or m.lang != lang:
                ctx.violation('package', 'lang=%r uses %s (language %r), expected %s' % (lang, m.dictionary.path, m.lang, D[n]))
            behaviour(m, n, lang, 'package for %s' % lang)
            os.environ[ENV] = D['ru2']
            m, ws = create(lang=lang)
            os.environ.pop(ENV)
            if isinstance(m, Exception) or os.path.realpath(m.dictionary.path) != os.path.realpath(D['ru2']):
                ctx.violation('package', '%s=%s is not preferred to the package for %r' % (ENV, D['ru2'], lang))
        finally:
            os.environ.pop(ENV, None)
            sys.path.remove(root)

    # arguments which override the language's rules
    class Est(ProbabilityEstimator):
        made = []

        def __init__(self, path):
            self.made.append(path)
            super(Est, self).__init__(path)
    ctx.require('overrides', 20)
    for k in range(ctx.budget(10, 60) if ctx.leg == 'slow' else 4):
        n = rng.choice(['ru', 'uk', 'ru2', 'nolang'])
        lang = rng.choice([None, 'ru', 'uk'])
        eff = lang or declared[n] or 'ru'
        kw, mk = dict(path=D[n], lang=lang), {}
        sub = rng.choice(['auto', None, {}, {'о': 'а'}, {'г': 'ґ', 'е': 'ё'}])
        if sub != 'auto':
            kw['char_substitutes'] = sub
            mk['subst'] = sub or {}
        est = rng.choice(['auto', None, Est])
        if est is Est and n == 'ru2':
            est = None
        if est != 'auto':
            kw['probability_estimator_cls'] = est
            mk['prob'] = est is not None
        rt = rng.random() < .3
        if rt:
            kw['result_type'] = None
        m, ws = create(**kw)
        label = 'override %s %s subst=%r est=%r' % (n, lang, sub, est)
        ctx.ev()
        ctx.nt(label)
        ctx.count('overrides')
        if isinstance(m, Exception):
            ctx.violation('error', '%s: %r' % (label, m))
            continue
        if est is Est and Est.made[-1:] != [D[n]]:
            ctx.violation('estimator', 'the estimator class was created with %r for %s' % (Est.made[-1:], D[n]))
        has = m.prob_estimator is not None
        if has != (est is Est or est == 'auto' and n != 'ru2'):
            ctx.violation('estimator', '%s: estimator %r' % (label, m.prob_estimator))
        behaviour(m, n, eff, label, **mk)
