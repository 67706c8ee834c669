# -*- coding: utf-8 -*-
"""C31: dictionary membership and prefix iteration."""
LEVEL = 'exploration'
RULE = ('every prefix (0-4 characters) of the words of small dictionaries and random prefixes of the installed one '
        'are iterated and compared, as multisets, with the raw dictionary; each analysis is used (lexeme, normal '
        'form, known-ness); membership is asked, strictly and not, for words, words with substituted letters (both '
        'directions), single-edit neighbours, prefixes of words and non-words, in varied case.  Non-trivial = '
        'distinct prefixes with results and distinct membership questions.')
ASSUMPTIONS = ['dawg_python key enumeration and exact lookup are trusted']


# (no U+0000, U+0001: the readers use them)
SIGNS = ['\xad', ' ', '\n', '\xa0', '\u200b', '\ufeff', '\u0301', '\u0308', '.', '-', "'", '\u2019', '\u0483', '\t', 'ъ', ':']


def legs(tier):
    return [dict(name='small', venv='slow', shards=3, timeout=850),
            dict(name='small-fast', venv='fast', shards=1, timeout=850),
            dict(name='installed', venv='slow', shards=3, timeout=850),
            dict(name='toy', venv='fast', shards=2, timeout=850),
            dict(name='installed-fast', venv='fast', shards=1, timeout=850)]


def prepare(scratch):
    from mon.subset import prepare as sub
    return {'SUBSET': sub(scratch), 'SUBSET2': sub(scratch, 30, 'c31', 'subset2')}


def run(ctx):
    import collections
    import os
    import pymorphy2
    from mon.env import Env, ru_path, ru_old_path, TooManyVariants
    rng = ctx.rng
    ctx.require('prefixes', 100)
    ctx.require('forms', 10000)
    ctx.require('questions', 10000)
    ctx.require('known', 1000)
    ctx.require('unknown', 1000)
    ctx.require('only_by_substitution', 100)

    def session(path, subst, nq, nprefix, env=None, **kw):
        env = env or Env(ctx, path=path, prefixes=40 if 'subset' in path else 10, model=False, **kw)
        m, d = env.morph, env.d
        plain = pymorphy2.MorphAnalyzer(path=path, result_type=None)
        words = env.words.words

        inv = dict((v, k) for k, v in subst.items())

        def prefixes():
            if nprefix is None:
                seen = set([''])
                for w in words:
                    for n in range(1, 5):
                        seen.add(w[:n])
                out = sorted(seen)
                rng.shuffle(out)
                for p in out[:ctx.budget(700, 5000)] + ['']:
                    yield p
            else:
                for _ in range(nprefix):
                    w = rng.choice(words)
                    yield w[:rng.randint(3, 6)]
            # almost prefixes: substituted letters, other case, signs around
            yos = [w for w in words[::37] if set(w) & set(subst.values())] or words
            for _ in range(120):
                w = rng.choice(rng.choice([words, yos]))
                w = w[:rng.choice([3 if nprefix else 2, 4, 5, 6, len(w)])]
                k = rng.randrange(5)
                if k < 2:
                    w = ''.join(inv.get(c, c) for c in w)
                elif k == 2:
                    w = ''.join(subst.get(c, c) for c in w)
                elif k == 3:
                    w = rng.choice([w.upper(), w.title(), w[:-1] + w[-1:].upper()])
                else:
                    w = rng.choice([w + rng.choice(SIGNS), rng.choice(SIGNS) + w])
                if len(w) > 1:
                    yield w
            for _ in range(60):
                yield rng.choice(['ъы', 'q', '1', 'ё', 'Е', '-', 'наибъ', 'стало', ' ', 'ж' * 9]) + rng.choice(['', 'щ'])
        for p in prefixes():
            ctx.current = ('iterate', path, p)
            want = collections.Counter()
            for w, (para, idx) in d.iter_words(p):
                want[(w, d.tag(para, idx), d.normal_form(w, para, idx))] += 1
            got = collections.Counter()
            use_plain = rng.random() < .2
            it = (plain if use_plain else m).iter_known_word_parses(p) if p or rng.random() < .5 else m.iter_known_word_parses()
            some = []
            for x in it:
                got[(x[0], str(x[1]), x[2])] += 1
                if len(some) < 5 or rng.random() < .01:
                    some.append(x)
            ctx.ev()
            ctx.count('prefixes')
            ctx.count('forms', sum(got.values()))
            if got:
                ctx.nt((path, p))
            if got != want:
                ctx.violation('iterate', 'iteration over %a of %s: missing %r, extra %r' % (
                    p, path, list((want - got).items())[:4], list((got - want).items())[:4]))
                continue
            for x in some[:12]:
                lexs = [sorted((f[0], str(f[1])) for f in (plain if use_plain else m).get_lexeme(x))]
                ok = [sorted(d.lexeme(x[0], para, idx)) for para, idx in d.exact(x[0])
                      if d.tag(para, idx) == str(x[1]) and d.normal_form(x[0], para, idx) == x[2]]
                if lexs[0] not in ok:
                    ctx.violation('lexeme', 'lexeme of iterated %r is %r' % (x, lexs[0][:5]))
                if x[3] != 1.0:
                    ctx.violation('score', 'score of iterated %r' % (x,))
                if not use_plain and not (x.is_known and x.normalized.word == x.normal_form):
                    ctx.violation('usable', 'iterated %r: is_known %r, normalized %r' % (x, x.is_known, x.normalized))
        ctx.sample(dict(dictionary=os.path.basename(path), prefix=p, forms=sum(got.values())))
        alpha = 'абвгдеёжзийклмнопрстуфхцчшщъыьэюяq-1'

        def question():
            w = rng.choice(words) if rng.random() < .9 else env.tokens.gen(rng.choice(['unicode', 'latin', 'compound', 'po_nai']))
            k = rng.randrange(9)
            i = rng.randrange(len(w)) if w else 0
            if k == 0:
                pass
            elif k == 1:
                w = ''.join(inv.get(c, c) for c in w)
            elif k == 2:
                w = ''.join(rng.choice([c, inv.get(c, c), subst.get(c, c)]) for c in w)
            elif k == 3:
                w = w[:i] + rng.choice(alpha) + w[i + 1:]
            elif k == 4:
                w = w[:i] + w[i + 1:]
            elif k == 5:
                w = w[:i] + rng.choice(alpha) + w[i:]
            elif k == 6:
                w = w[:i]
            elif k == 7:
                w = rng.choice([w + rng.choice(SIGNS), rng.choice(SIGNS) + w, w[:i] + rng.choice(SIGNS) + w[i:]])
            else:
                w = rng.choice(words)[:rng.randint(1, 4)] + w[i:]
            return env.tokens.case(w)
        for _ in range(nq):
            q = question()
            if not q or '\x00' in q or '\x01' in q or any(0xd800 <= ord(c) < 0xe000 for c in q):
                continue
            low = q.lower()
            ctx.current = ('known', path, q)
            try:
                loose = any(d.exact(v) for v in d.variants(low, subst))
            except TooManyVariants:
                continue
            strict = bool(d.exact(low))
            ctx.ev()
            ctx.count('questions')
            ctx.nt((path, q))
            ctx.count('known' if loose else 'unknown')
            if loose and not strict:
                ctx.count('only_by_substitution')
            if bool(m.word_is_known(q)) != loose:
                ctx.violation('known', 'word_is_known(%a) is %r with substitutions %r' % (q, not loose, subst))
            if bool(m.word_is_known(q, strict=True)) != strict:
                ctx.violation('strict', 'word_is_known(%a, strict=True) is %r' % (q, not strict))
            p = m.parse(q)
            if any(x.is_known for x in p) != loose:
                ctx.violation('is_known', '%a: is_known of the analyses is %r, the word is %sknown' % (
                    q, [x.is_known for x in p], '' if loose else 'not '))

    ru = {'е': 'ё'}
    if ctx.leg == 'toy':
        from mon.toys import toy_envs
        for i in range(ctx.budget(12, 120)):
            sub = rng.choice([ru, ru, {}, {'а': 'о', 'е': 'ё'}, {'б': 'а', 'а': 'б'}])
            kw = {} if sub is ru else dict(subst=sub)
            for env in toy_envs(ctx, 1, rng.choice([5, 60]), **kw):
                session(env.path, sub, 300, None, env=env)
    elif ctx.leg.startswith('small'):
        session(os.environ['SUBSET'], ru, ctx.budget(6000, 60000), None)
        sub = {'о': 'а', 'е': 'ё', 'и': 'ы'}
        session(os.environ['SUBSET2'], sub, ctx.budget(3000, 40000), 100, char_substitutes=sub)
        session(os.environ['SUBSET2'], {}, ctx.budget(1000, 10000), 40, char_substitutes=None)
    else:
        session(ru_path(), ru, ctx.budget(6000, 100000), ctx.budget(250, 4000))
        if ru_old_path() and ctx.shard == 0:
            session(ru_old_path(), ru, ctx.budget(1000, 20000), ctx.budget(50, 500))
