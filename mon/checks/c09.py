# -*- coding: utf-8 -*-
"""C09: agreement with numerals."""
LEVEL = 'exploration'
RULE = ('every tag of the dictionary tag table x all numbers 0..1129 (plus large numbers); words of every '
        'declension class x numbers through make_agree_with_number.  Oracle: the agreement rule written out '
        'independently.  Returned sets are modified by the monitor, later answers may not change.  '
        'Non-trivial = the tag is a noun, full adjective or participle.')
ASSUMPTIONS = ['numbers are non-negative integers']
EXHAUSTIVE = 'all tags of the installed dictionary x all residues modulo 1000'


def legs(tier):
    return [dict(name='tags', venv='slow', shards=4, timeout=800),
            dict(name='words', venv='slow', shards=4, timeout=800),
            dict(name='toy', venv='fast', shards=2, timeout=800),
            dict(name='fast', venv='fast', shards=2, timeout=800)]


CASES = ('nomn gent datv accs ablt loct voct gen1 gen2 acc2 loc1 loc2').split()


def agreement(tag, n):
    """The set of grammemes the counted word has to carry (empty: unchanged)."""
    gr = tag.replace(' ', ',').split(',')
    pos = gr[0]
    if pos not in ('NOUN', 'ADJF', 'PRTF'):
        return set()
    case = [g for g in gr if g in CASES]
    case = case[0] if case else None
    if n % 100 in (11, 12, 13, 14):
        form = 'many'
    elif n % 10 == 1:
        form = 'one'
    elif n % 10 in (2, 3, 4):
        form = 'few'
    else:
        form = 'many'
    if pos == 'NOUN' and case not in ('nomn', 'accs'):
        return {'sing' if form == 'one' else 'plur', case}
    if form == 'one':
        return {'sing', 'nomn' if case == 'nomn' else 'accs'}
    if form == 'few':
        if pos == 'NOUN':
            return {'sing', 'gent'}
        return {'plur', 'nomn'} if 'femn' in gr else {'plur', 'gent'}
    return {'plur', 'gent'}


def run(ctx):
    from mon.env import Env
    if ctx.leg == 'toy':
        from mon.toys import toy_envs
        for env in toy_envs(ctx, ctx.budget(15, 150)):
            words(ctx, env, 100)
        return
    env = Env(ctx, model=False, words=ctx.leg != 'tags')
    if ctx.leg == 'tags':
        from mon.dictref import DictRef
        env.d = DictRef(env.path, prediction=False)
    m, rng = env.morph, ctx.rng
    Tag = m.TagClass
    ctx.require('tags', 1000)
    ctx.require('agreements', 1000)
    if ctx.leg != 'words':
        nums = list(range(1130)) + [10 ** k + d for k in range(4, 20, 3) for d in (0, 1, 2, 4, 5, 11, 12, 14, 21, 22, 111, 112)]
        if ctx.leg == 'fast':
            nums = list(range(0, 240)) + nums[-20:]
        for ti, ts in enumerate(env.d.gramtab):
            if ti % ctx.nshards != ctx.shard:
                continue
            t = Tag(ts)
            ctx.count('tags')
            if ts[:4] in ('NOUN', 'ADJF', 'PRTF'):
                ctx.nt_bulk += 1
            for n in nums:
                got = t.numeral_agreement_grammemes(n)
                ctx.ev()
                if set(got) != agreement(ts, n):
                    ctx.violation('rule', 'agreement of %r with %d is %r, expected %r' % (
                        ts, n, sorted(got), sorted(agreement(ts, n))))
                if n % 97 == 1 and isinstance(got, set):
                    got.add('plur')
                    got.discard('sing')
                    got.discard('nomn')
            for n in (1, 2, 5, 11, 21):
                got = t.numeral_agreement_grammemes(n)
                if set(got) != agreement(ts, n):
                    ctx.violation('mutated', 'after a caller modified an earlier answer, agreement of %r with %d is %r' % (ts, n, sorted(got)))
            if ti % 900 == 3:
                ctx.sample(dict(tag=ts, with_2=sorted(agreement(ts, 2))))
            ctx.count('agreements')
    # whole words
    if ctx.leg == 'tags':
        return
    words(ctx, env, ctx.budget(5000, 50000) if ctx.leg == 'words' else ctx.budget(700, 5000))


def words(ctx, env, n):
    m, rng = env.morph, ctx.rng
    from mon.checks.c08 import conflicts, expected
    conf = conflicts(env.d.grammemes)
    for w in (env.words.pick() for _ in range(n)):
        ctx.current = w
        tok = w if rng.random() < .8 else env.tokens.gen(rng.choice(['suffix', 'known_prefix', 'compound', 'unknown_prefix']))
        ps = m.parse(tok)
        for p in ps[:3]:
            ts = str(p.tag)
            lex = [(f.word, str(f.tag), f.tag.grammemes, f.normal_form) for f in p.lexeme]
            for num in rng.sample(range(30), 3) + [rng.randint(0, 10 ** 6)]:
                req = agreement(ts, num)
                exp = expected(lex, p.tag.grammemes, frozenset(req), conf)
                a = p.make_agree_with_number(num)
                ctx.ev()
                ctx.count('agreements')
                ctx.nt((p.word, ts, num))
                if exp is None:
                    ctx.count('no_such_form')
                    if a is not None:
                        ctx.violation('word', 'make_agree_with_number(%d) of %r %s is %r %s' % (num, p.word, ts, a.word, a.tag))
                elif a is None or (a.word, str(a.tag)) not in [b[:2] for b in exp[1]]:
                    ctx.violation('word', 'make_agree_with_number(%d) of %r %s is %r, expected %r' % (
                        num, p.word, ts, a and (a.word, str(a.tag)), [b[:2] for b in exp[1]][:3]))
                elif not req:
                    ctx.count('unchanged_pos')
        ctx.sample(dict(word=tok, with_5=(ps[0].make_agree_with_number(5) or ps[0]).word))
