# -*- coding: utf-8 -*-
"""C15: tokens which are not words (numbers, punctuation, Latin, Roman)."""
LEVEL = 'exploration'
RULE = ('all Unicode code points as one-character tokens, all Roman-letter strings up to 5 (quick) or 6 letters, '
        'all Roman numerals 1..4999, random integers/reals/near-numbers, punctuation runs, Latin words with '
        'digits and signs, mixed-script tokens.  Oracles: arithmetic (Roman numerals), a numeric grammar, Unicode '
        'categories and names.  Non-trivial = tokens which have a shape or nearly have one.')
ASSUMPTIONS = ['tokens stored in the dictionary keep their dictionary analyses and are skipped',
               'nan/inf-like words, underscores in numbers, surrounding spaces and '
               'the letters dotted/dotless I are left open']
EXHAUSTIVE = 'single code points; Roman-letter strings up to length 5; Roman numerals 1..4999'


def legs(tier):
    return [dict(name='chars', venv='slow', shards=4, timeout=800),
            dict(name='roman', venv='slow', shards=4, timeout=800),
            dict(name='tokens', venv='slow', shards=5, timeout=800),
            dict(name='fast', venv='fast', shards=3, timeout=800)]


SHAPES = {'NUMB,intg', 'NUMB,real', 'PNCT', 'LATN', 'ROMN'}


def run(ctx):
    import itertools
    import re
    import unicodedata
    from mon.env import Env
    from mon.gen import roman
    env = Env(ctx, words=ctx.leg in ('tokens', 'fast'), model=False)
    from mon.dictref import DictRef
    d = getattr(env, 'd', None) or DictRef(env.path, prediction=False)
    m, rng = env.morph, ctx.rng
    VAL = dict(i=1, v=5, x=10, l=50, c=100, d=500, m=1000)

    def is_roman(s):
        low = s.lower()
        if not low or any(c not in VAL for c in low):
            return False
        tot = 0
        for a, b in itertools.zip_longest(low, low[1:]):
            tot += -VAL[a] if b and VAL[a] < VAL[b] else VAL[a]
        return 1 <= tot <= 4999 and roman(tot).lower() == low

    INT = re.compile(r'[+-]?[0-9]+\Z')
    REAL = re.compile(r'[+-]?([0-9]+[.,][0-9]*|[.,][0-9]+)([eE][+-]?[0-9]+)?\Z|[+-]?[0-9]+[eE][+-]?[0-9]+\Z')
    OPEN = re.compile(r'(?i)[+-]?(nan|inf|infinity)\Z')

    def shapes(s):
        """expected set of shape tags; None = left open"""
        if not s or any(c.isspace() for c in s) and any(c.isdigit() for c in s) or OPEN.match(s.strip()) or '_' in s:
            return None
        if any(unicodedata.category(c) == 'Nd' and not '0' <= c <= '9' for c in s):
            return {'NUMB,intg'} if len(s) == 1 else None
        if INT.match(s):
            return {'NUMB,intg'}
        if REAL.match(s):
            return {'NUMB,real'}
        if all(unicodedata.category(c)[0] == 'P' or c.isspace() for c in s):
            return {'PNCT'} if any(unicodedata.category(c)[0] == 'P' for c in s) else set()
        out = set()
        if is_roman(s):
            out.add('ROMN')
        letters = [c for c in s if c.isalpha()]
        if letters and all('LATIN' in unicodedata.name(c, '') for c in letters):
            out.add('LATN')
        return out

    def one(s):
        ctx.current = s
        e = shapes(s)
        ctx.ev()
        if e is None:
            ctx.count('open')
            return
        low = s.lower()
        from mon.env import TooManyVariants
        try:
            if any(d.exact(v) for v in d.variants(low, {'е': 'ё'})):
                ctx.count('in_dictionary')
                return
        except TooManyVariants:
            return
        ps = m.parse(s)
        got = sorted(str(p.tag) for p in ps)
        tags = sorted(str(t) for t in m.tag(s))
        if not e:
            ctx.count('no_shape')
            if low.startswith(tuple(env.cfg['prefixes'])):
                # the analyses of the remainder are kept (C12)
                ctx.count('known_prefix')
                return
            if set(got) & SHAPES and '-' not in s or set(tags) & SHAPES and '-' not in s:
                ctx.violation('wrong', '%a is analysed as %r' % (s, got))
            elif got == ['LATN'] or got == ['PNCT'] or got[0][:4] == 'NUMB':
                # with hyphens: a particle or a compound never turns a token
                # into a single number/punctuation/Latin token ...
                base = [x for x in env.cfg['particles'] if low.endswith(x)]
                if not base:
                    ctx.violation('wrong', '%a is analysed as %r' % (s, got))
            return
        for t in e:
            ctx.count('shape_' + t)
        ctx.nt(s)
        if got != sorted(e) or tags != sorted(e):
            ctx.violation('shape', '%a is analysed as %r / %r, expected %r' % (s, got, tags, sorted(e)))
            return
        for p in ps:
            if p.word != low or p.normal_form != low or [(f.word, str(f.tag)) for f in p.lexeme] != [(low, str(p.tag))] \
                    or p.normalized.word != low or p.normalized.tag != p.tag:
                ctx.violation('form', 'analysis of %a: %r, lexeme %r' % (s, p[:3], [f[:3] for f in p.lexeme]))
            if p.inflect({'plur'}) is not None:
                ctx.violation('inflect', '%a can be inflected' % s)
        if rng.random() < .01:
            ctx.sample(dict(token=ascii(s), tags=got))

    if ctx.leg == 'chars':
        for c in range(ctx.shard, 0x110000, ctx.nshards):
            if not 0xd800 <= c <= 0xdfff and c != 0 and c != 1:
                one(chr(c))
                ctx.count('code_points')
        ctx.require('shape_LATN', 1000)
        ctx.require('shape_PNCT', 700)
        ctx.require('shape_NUMB,intg', 500)
        ctx.require('code_points', 0x110000 - 0x800 - 2)
        return
    if ctx.leg == 'roman':
        i = 0
        for n in range(1, ctx.scale(5, 6) + 1):
            for t in itertools.product('ivxlcdm', repeat=n):
                i += 1
                if i % ctx.nshards != ctx.shard:
                    continue
                s = ''.join(t)
                one(rng.choice([s, s.upper(), s.title()]))
                ctx.count('roman_strings')
        for n in range(1, 5000):
            if n % ctx.nshards == ctx.shard:
                s = roman(n)
                one(s)
                one(s.lower())
                x = rng.randrange(len(s) + 1)
                one(s[:x] + rng.choice('IVXLCDM') + s[x:])
                one(s + rng.choice(['.', ',', '-', ' ', '1', 'а', 'й']))
                one(rng.choice([s + '\n', s + ' ', '\n' + s, s + '\r\n', s.replace('I', 'ı'), s.replace('I', 'İ'), s.lower() + '\u2028']))
        for n in range(5000, 5040):
            one('MMMMM' + roman(n - 4999))
        ctx.require('shape_ROMN', 9000)
        return
    T = env.tokens
    kinds = ['number', 'number', 'numberish', 'punct', 'latin', 'latin', 'roman', 'roman_like', 'mixed_script',
             'unicode', 'word_unicode', 'space', 'sharp', 'known', 'mutated', 'stray_hyphen', 'compound_mixed']
    for kind, tok in env.stream(kinds, ctx.budget(12000, 120000) if ctx.leg == 'tokens' else ctx.budget(3000, 20000)):
        one(tok)
        x = rng.random()
        if x < .1:
            one('%s%d%s%d' % (rng.choice(['', '+', '-', '--', '+-']), rng.getrandbits(rng.randint(1, 200)),
                              rng.choice(['.', ',', '..', '.,', ':', 'e', 'E-', ' ', 'x']), rng.randint(0, 999)))
        elif x < .15:
            one(rng.choice(['.5', ',5', '5.', '5,', '1e5', '1,5e3', '-.5', '0x10', '1.000.000', '1,000', '١٢', '½', '²', '5%', '1/2',
                            '+', '-', '1-', '-1', '--1', '00', '-0', '+7', '1 000', '1.5.2', '1,5,2', '1.,2']))
        elif x < .3:
            tok2 = ''.join(rng.choice(['foo', 'É', 'x', '1', '-', '.', '_', ' ', 'ъ', 'Ω', 'æ', 'ﬁ', "'", '%', '中'])
                           for _ in range(rng.randint(1, 5)))
            one(tok2)
        elif x < .4:
            one(''.join(rng.choice('.,!?-—…«»()"\'%&*+=<>|~^$№') for _ in range(rng.randint(1, 4))))
    for n in (100, 308, 309, 310, 400, 1000, 4299, 4300, 4301, 5000, 9000):
        for s in ('7' * n, '+' + '10' * (n // 2), '-0' + '3' * n, '0' * n, '1.' + '5' * n, '9' * n + ',5', '8' * n + '.', '.' + '2' * n,
                  '1e' + '9' * 300, '5' * n + ',1.', '5' * n + 'x', '.' * n, '-' * n + '!', 'x' * n, 'M' * n, 'MMMM' + 'C' * n, '7' * n + '-' + '7' * n):
            one(s)
            ctx.count('long_tokens')
    ctx.require('shape_NUMB,real', 300)
    ctx.require('no_shape', 1000)
