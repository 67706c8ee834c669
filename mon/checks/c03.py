# -*- coding: utf-8 -*-
"""C03: every Unicode token is analysed; analyses are well formed and usable."""
LEVEL = 'exploration'
RULE = ('every Unicode code point (except lone surrogates) as a one-character token, plus generated '
        'tokens of ~45 kinds (words, predictions, compounds, numbers, mixed scripts, random Unicode, '
        'whitespace, irregular case mappings); each is parsed, tagged, lemmatised, and every returned '
        'analysis is asked for its lexeme, normalised form and inflections.  Distinct non-trivial = '
        'distinct tokens.')
ASSUMPTIONS = ['lone surrogates are not Unicode text; long tokens are regular (digits, Latin, punctuation, one letter); words up to ~120 characters']
EXHAUSTIVE = 'all one-character tokens (0x0-0x10ffff without surrogates), slow venv'


def legs(tier):
    return [dict(name='chars', venv='slow', shards=4, timeout=800),
            dict(name='tokens', venv='slow', shards=6, timeout=800),
            dict(name='toy', venv='fast', shards=2, timeout=800),
            dict(name='fast', venv='fast', shards=3, timeout=800)]


def usable(ctx, m, tok, deep=True):
    """Monitor: one token through the whole API."""
    ctx.ev()
    ctx.nt(tok)
    ps = m.parse(tok)
    ts = m.tag(tok)
    nf = m.normal_forms(tok)
    if not ps or not ts or not nf:
        ctx.violation('empty', 'no result for %a: parse %d tag %d normal_forms %d' % (tok, len(ps), len(ts), len(nf)))
        return
    low = tok.lower()
    sub = {'е': 'ё'}
    for p in ps:
        if len(p.word) != len(low) or any(a != b and sub.get(b) != a for a, b in zip(p.word, low)):
            ctx.violation('word', 'parse(%a) reports the word %a' % (tok, p.word))
        if not p.normal_form and tok:
            ctx.violation('nf', 'empty normal form for %a' % tok)
        if not isinstance(p.score, float) or not (0 <= p.score <= 1.0000001):
            ctx.violation('score', 'score %r for %a' % (p.score, tok))
        for x in (p.word, p.normal_form):
            if not isinstance(x, str):
                ctx.violation('type', 'not text: %r' % (x,))
        if not str(p.tag):
            ctx.violation('tag', 'empty tag')
    if len(ps) > 1:
        keys = [(p.word, p.tag, p.normal_form, p.methods_stack) for p in ps]
        if len(set(keys)) != len(keys):
            ctx.violation('twice', 'parse(%a) returns the same analysis twice: %a' % (tok, [k[:3] for k in keys]))
    if any(str(p.tag) == 'UNKN' and len(p.methods_stack) == 1 for p in ps) or set(map(str, ts)) == {'UNKN'} and (
            not low.startswith(PREFIXES) and not low.endswith(PARTICLES) and '-' not in low):
        ctx.count('unknown')
        if len(ps) != 1 or len(ts) != 1 or str(ts[0]) != 'UNKN' or str(ps[0].tag) != 'UNKN' or \
                ps[0].word != low or ps[0].normal_form != low or nf != [low] or ps[0].lexeme != [ps[0]] or ps[0].normalized != ps[0]:
            ctx.violation('unknown', 'unknown token %a: %a, tags %r' % (tok, [p[:3] for p in ps], ts))
    if deep:
        rng = ctx.rng
        before = [tuple(p) + (repr(p),) for p in ps]
        sample = ps if len(ps) <= 4 else rng.sample(ps, 4)
        for p in sample:
            lex = p.lexeme
            n = p.normalized
            ctx.count('lexemes')
            if not lex:
                ctx.violation('lexeme', 'empty lexeme for %a %s' % (tok, p.tag))
                continue
            if not n.word:
                if tok:
                    ctx.violation('normalized', 'normalized of %a is empty' % tok)
            for gr in (set(), {'plur'}, {'gent'}, set(rng.choice(lex).tag.grammemes)):
                try:
                    r = p.inflect(gr)
                except ValueError:
                    r = 0
                if r == 0:
                    ctx.violation('inflect', 'inflect(%r) of %a raised ValueError' % (gr, tok))
                ctx.count('inflected' if r else 'not_inflected')
            p.make_agree_with_number(rng.randint(0, 200))
            p.is_known
        if [tuple(p) + (repr(p),) for p in ps] != before:
            ctx.violation('changed', 'asking the analyses of %a for their lexeme etc. changed them' % tok)


def run(ctx):
    from mon.env import Env
    global PREFIXES, PARTICLES
    if ctx.leg == 'toy':
        from mon.toys import toy_envs
        for env in toy_envs(ctx, ctx.budget(15, 150)):
            PREFIXES, PARTICLES = tuple(env.cfg['prefixes']), tuple(env.cfg['particles'])
            for kind, tok in env.stream(env.tokens.kinds, 150):
                usable(ctx, env.morph, tok)
        return
    env = Env(ctx, model=False)
    m, rng = env.morph, ctx.rng
    PREFIXES, PARTICLES = tuple(env.cfg['prefixes']), tuple(env.cfg['particles'])
    if ctx.leg == 'chars':
        for c in range(ctx.shard, 0x110000, ctx.nshards):
            if 0xd800 <= c <= 0xdfff:
                continue
            ch = chr(c)
            ctx.current = ch
            interesting = ch.isalpha() and c < 0x3000 or c < 0x600
            usable(ctx, m, ch, deep=interesting)
            ctx.count('code_points')
            if c % 7 == 0:
                usable(ctx, m, 'а' + ch + 'е', deep=False)
            if c % 30011 == 1:
                ctx.sample(dict(token=ascii(ch), tag=str(m.tag(ch)[0])))
        ctx.require('code_points', 0x110000 - 0x800)
        return
    ctx.require('lexemes', 1000)
    n = ctx.budget(5000, 60000) if ctx.leg == 'tokens' else ctx.budget(900, 6000)
    for kind, tok in env.stream(env.tokens.kinds, n):
        usable(ctx, m, tok)
        if rng.random() < .02:
            tok2 = tok * rng.randint(2, 8)
            if len(tok2) < 120 and tok2.count('небез') < 8:
                ctx.current = tok2
                usable(ctx, m, tok2)
        ctx.count('kind_' + kind)
        ctx.sample(dict(kind=kind, token=ascii(tok)))
    # long tokens: nothing may depend on a limit of numbers, recursion ...
    for n in (200, 308, 309, 400, 1000, 4299, 4300, 4301, 4400, 7000):
        if ctx.leg == 'fast' and n > 1000:
            continue
        for t in ('7' * n, '-' + '12' * (n // 2), '1.' + '5' * n, '9' * n + ',5', '1e' + '9' * min(n, 400), 'x' * n, 'MDC' * (n // 3),
                  '.' * n, '-' * n, ' ' * n, 'a-' * (n // 2), '1-' * (n // 2), 'ы' * min(n, 1000), '\u0301' * n, '\u4e2d' * n):
            ctx.current = (t[:4], n)
            usable(ctx, m, t)
            ctx.count('long_tokens')
    ctx.require('long_tokens', 100)
    if ctx.shard == 0 and ctx.leg == 'tokens':
        # rules applied to their own result thousands of times
        for t in ('кот' + '-то' * 5000, 'по-' * 5000 + 'русски'):
            ctx.current = (t[:9], len(t))
            for f in (m.parse, m.tag, m.normal_forms):
                try:
                    r = f(t)
                except RecursionError:
                    ctx.violation('deep_nesting', '%s(%a...) of %d characters: RecursionError' % (f.__name__, t[:12], len(t)))
                else:
                    if not r:
                        ctx.violation('empty', 'no result for %a...' % t[:12])
                ctx.ev()
    for part in env.cfg['particles']:
        for w in ('кот', 'ъ', '1', '.', 'x', '-', 'по-русски', 'А'):
            ctx.current = w + part
            usable(ctx, m, w + part)
            usable(ctx, m, w + part + part)
