# -*- coding: utf-8 -*-
"""C39: the work for one token is bounded."""
LEVEL = 'exploration'
RULE = ('function calls are counted (sys.setprofile) while a token is parsed, tagged and lemmatised: tokens of all '
        'kinds, and families u*n + word + v*n with random repeated parts (known prefixes, particles, "по-", letters, '
        'hyphens, digits, pieces of words) with growing n, up to thousands of characters, runs of every kind of character closed by another one, long texts for the tokenizer.  Monitors: calls <= a '
        'polynomial in the length, and calls <= a constant times the number of sub-tokens the documented rules '
        'consider (computed independently).  Non-trivial = tokens in which several rules nest.')
ASSUMPTIONS = ['work inside the DAWG extension is not counted (the pure-Python reader is)']


def legs(tier):
    return [dict(name='kinds', venv='slow', shards=3, timeout=800),
            dict(name='families', venv='slow', shards=4, timeout=800),
            dict(name='fast', venv='fast', shards=2, timeout=800)]


PER_NODE = 40000


def polynomial(n):
    return 60000 + 6000 * n + 150 * n * n


class TooMuch(BaseException):
    pass


def run(ctx):
    import sys
    from mon.env import Env
    sys.setrecursionlimit(20000)
    env = Env(ctx, model=False)
    m, rng, cfg = env.morph, ctx.rng, env.cfg
    prefixes = sorted(set(cfg['prefixes']))
    particles = list(cfg['particles'])

    def nodes(tok):
        """sub-tokens the rules look at (with repetitions)"""
        memo = {}

        def T(s):
            if s in memo:
                return memo[s]
            r = 1
            memo[s] = r
            for p in prefixes:
                if s.startswith(p) and len(s) - len(p) >= 3:
                    r += T(s[len(p):])
            for x in particles:
                if s.endswith(x) and len(s) > len(x):
                    r += T(s[:-len(x)])
                    break
            if s.startswith('по-') and len(s) >= 5:
                r += T(s[3:])
            if s.count('-') == 1 and s[0] != '-' != s[-1]:
                a, b = s.split('-')
                r += T(a) + T(b)
            memo[s] = r
            return r
        return T(tok.lower())

    state = [0, 0]

    def prof(fr, ev, arg):
        if ev == 'call':
            state[0] += 1
            if state[0] > state[1]:
                raise TooMuch()

    def calls(f, tok, cap):
        state[0], state[1] = 0, cap
        sys.setprofile(prof)
        try:
            f(tok)
        except TooMuch:
            pass
        finally:
            sys.setprofile(None)
        return state[0]

    def one(tok, fs=(m.parse, m.tag)):
        ctx.current = tok
        T = nodes(tok)
        if len(tok) > 300:
            cap = polynomial(len(tok))
        else:
            cap = min(polynomial(len(tok)), PER_NODE * T)
        ctx.ev()
        if T > 2:
            ctx.nt(tok)
        for f in fs:
            c = calls(f, tok, cap)
            ctx.count('calls', c)
            ctx.counters['most_calls'] = max(ctx.counters.get('most_calls', 0), c)
            if c <= cap:
                continue
            if PER_NODE * T > polynomial(len(tok)):
                # the rules themselves consider that many sub-tokens
                ctx.violation('nested_prefixes', '%s(%a): more than %d calls' % (f.__name__, tok, cap))
            else:
                ctx.violation('work', '%s(%a): more than %d calls for %d characters, %d sub-tokens' % (
                    f.__name__, tok[:100], cap, len(tok), T))

    if ctx.leg in ('kinds', 'fast'):
        for kind, tok in env.stream(env.tokens.kinds, ctx.budget(3000, 40000) if ctx.leg == 'kinds' else ctx.budget(700, 6000)):
            one(tok)
            ctx.count('tokens')
            ctx.sample(dict(token=ascii(tok), sub_tokens=nodes(tok)))
        ctx.require('tokens', 3000)
        if ctx.leg == 'kinds':
            # one lexeme / inflection
            for kind, tok in env.stream(['known', 'suffix', 'compound_same', 'two_prefixes', 'particle', 'number'], ctx.budget(400, 4000)):
                for p in m.parse(tok)[:2]:
                    n = len(p.lexeme)
                    c = calls(lambda t: (p.lexeme, p.normalized, p.inflect(set(['plur']))), tok, 10 ** 6)
                    ctx.ev()
                    ctx.count('lexemes')
                    if c > 6000 + 900 * n:
                        ctx.violation('lexeme', 'lexeme of %a (%d forms): %d calls' % (tok, n, c))
            return
    W = env.words

    def piece():
        x = rng.random()
        if x < .25:
            return rng.choice(prefixes)
        if x < .45:
            return rng.choice(particles)
        if x < .55:
            return 'по-'
        if x < .7:
            return ''.join(rng.choice('абвеёио-') for _ in range(rng.randint(1, 3)))
        if x < .8:
            return rng.choice(['-', '--', '.', '1', '1-', 'x', 'x-', 'е', 'ё', 'А', ' ', '\u0301', 'I', 'во'])
        w = W.pick()
        i = rng.randrange(len(w))
        return w[i:i + rng.randint(1, 5)] + rng.choice(['', '', '-'])

    for k in range(ctx.budget(60, 700) if ctx.leg == 'families' else ctx.budget(20, 150)):
        u, v = rng.choice([('', piece()), (piece(), ''), (piece(), piece())])
        w = rng.choice([W.pick(), '', 'кот', rng.choice('абя1x-')])
        for n in (1, 2, 4, 8, 16, 32) + ((200,) if k % 4 == 0 else ()):
            if len(u + v) * n > 900:
                break
            one(u * n + w + v * n)
            ctx.count('family_tokens')
        ctx.count('families')
        ctx.sample(dict(u=u, w=w, v=v))
    # long runs of each kind of character, ending with another one
    from pymorphy2.tokenizers import simple_word_tokenize
    runs = ['а', 'я', 'ё', 'А', 'x', 'X', 'I', 'IV', 'xv', 'é', 'ϕ', '1', '12', '1.', '1,', '0', '.', ',', '!', '?', '-', '--', '_',
            ' ', '\n', "'", '"', '(', '«', '$', '%', 'а-', '-а', '1-', 'x-', 'x1', 'а1', 'ая', '\u0301', '\u4e2d', '\U0001d4d0', '+', '/', '\\',
            '&', '\u00ad', '\u200b', 'й', 'и\u0306', 'mm', 'xI', '..', '._', '- ']
    for i, u in enumerate(runs):
        if i % ctx.nshards != ctx.shard:
            continue
        for t in ['', rng.choice(runs), rng.choice('а-1xI.!'), '!', '-', 'ё', 'q', '\u2603']:
            for n in (35, 150, 900):
                one(u * n + t)
                ctx.count('runs')
            s = (u * rng.randint(200, 400) + t) * 20
            ctx.current = ('tokenize', s)
            state[0] = calls(simple_word_tokenize, s, 10 ** 9)
            ctx.count('tokenized_chars', len(s))
            if state[0] > 2000 + 12 * len(s):
                ctx.violation('tokenize', '%d calls for %d characters of %a ...' % (state[0], len(s), s[:50]))
    ctx.require('runs', 500)
    if ctx.shard == 0 and ctx.leg == 'families':
        one('недо' * 14 + 'кот', (m.parse,))
    for u in particles + ['по-', 'ё', 'е', 'я']:
        one('кот' + u * 14)
        one(u * 14 + 'кот' + u * 14)
    ctx.require('families', 100)
    ctx.require('family_tokens', 500)
