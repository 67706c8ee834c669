# -*- coding: utf-8 -*-
"""C28: tokenization."""
LEVEL = 'exploration'
RULE = ('every Unicode code point in several contexts, and random texts (words, hyphens, underscores, punctuation, all '
        'kinds of whitespace, any script) of up to 300000 characters.  Monitors: conservation (tokens concatenated = '
        'text without whitespace), maximality (words with inner hyphens are one token, any other character is a token '
        'of its own), splitting at whitespace is a homomorphism, tokens are fixed points.  Non-trivial = distinct '
        'texts with at least two tokens.')
ASSUMPTIONS = []
EXHAUSTIVE = 'all code points 0x0-0x10ffff without surrogates, in 6 contexts'


def legs(tier):
    return [dict(name='chars', venv='slow', shards=4, timeout=850),
            dict(name='texts', venv='slow', shards=2, timeout=850),
            dict(name='texts-fast', venv='fast', shards=1, timeout=850)]


def expected(text):
    """Written out character by character."""
    out, word = [], []
    for c in text:
        if c.isalnum() or c == '_' or c == '-':
            word.append(c)
            continue
        if word:
            out.append(''.join(word))
            word = []
        if not c.isspace():
            out.append(c)
    if word:
        out.append(''.join(word))
    return out


def run(ctx):
    from pymorphy2.tokenizers import simple_word_tokenize as tok
    rng = ctx.rng

    def check(text, deep=True):
        got = list(tok(text))
        ctx.ev()
        want = expected(text)
        ctx.current = text
        if ''.join(got) != ''.join(c for c in text if not c.isspace()):
            ctx.violation('conservation', 'tokens of %a are %a: characters lost, invented or reordered' % (text[:200], got[:20]))
            return
        if got != want:
            k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            ctx.violation('boundaries', 'tokens of %a: ...%a, expected ...%a' % (text[:200], got[k:k + 4], want[k:k + 4]))
            return
        if deep:
            for t in got[:20]:
                if list(tok(t)) != [t]:
                    ctx.violation('fixed', 'token %a of %a is split further: %a' % (t, text[:100], tok(t)))
            # (not text.split(): PyPy's splits at U+180E, which isn't a space by isspace)
            parts = ''.join(' ' if c.isspace() else c for c in text).split(' ')
            if len(parts) < 200 and [x for p in parts for x in tok(p)] != got:
                ctx.violation('spaces', 'pieces of %a tokenized separately differ' % text[:200])
        return got
    if ctx.leg == 'chars':
        n = 0
        for cp in range(ctx.shard, 0x110000, ctx.nshards):
            if 0xd800 <= cp < 0xe000:
                continue
            c = chr(cp)
            check(c + 'а' + c + ' я-' + c + c + '-я' + c, deep=False)
            check('б' + c + 'ж_' + c, deep=False)
            n += 1
        ctx.nt_bulk += n
        ctx.count('code_points', n)
        ctx.require('code_points', 0x110000 - 2048)
        ctx.sample(dict(contexts='{c}а{c} я-{c}{c}-я{c} / б{c}ж_{c}'))
        return
    ctx.require('texts', 2000)
    ctx.require('tokens', 10000)
    spaces = [c for c in map(chr, range(0x3001)) if c.isspace()]
    words = 'мама Ростов-на-Дону кто-то XIV 3,14 q_w -5 -- - _ ё Ёж 1-й 2.0 café naïve 日本語 हिन्दी ﷺ а́ п.п. т.е. don\'t a+b=c'.split()
    signs = list('.,!?;:()[]{}«»“”„…—–-+=*/\\|@#$%^&~`\'"<>№§€') + ['...', '--', '-', '\u0301', '\u200d', '\ufeff']

    def text(n):
        out = []
        for _ in range(n):
            x = rng.random()
            if x < .45:
                out.append(rng.choice(words))
            elif x < .6:
                out.append(''.join(rng.choice('абвёжzQ-_09') for _ in range(rng.randint(1, 8))))
            elif x < .8:
                out.append(rng.choice(signs))
            elif x < .97:
                out.append(rng.choice(spaces) * rng.randint(1, 3))
            else:
                out.append(chr(rng.choice([rng.randint(1, 0x2fff), rng.randint(0xe000, 0x10ffff)])))
        return ''.join(out)
    for t in ['', ' ', '\n', '-', '--', '_', 'а', 'а-', '-а', 'а--б', '- -', '\t а\n']:
        check(t)
    # time: ten times the text takes about ten times as long
    import time
    units = ['а', '-', 'а-', '--а', ' ', '\n', '. ', '_', '1,', 'а ', '-_', '\u0301', 'а\u0301', '..', 'слово-', '-а.', 'Ж1_-']
    for u in units + [text(3) or 'а' for _ in range(ctx.budget(10, 60))]:
        t = u * (30000 // len(u) + 1)
        t0 = time.process_time()
        check(t, deep=False)
        t1 = time.process_time()
        check(t * 10, deep=False)
        t2 = time.process_time()
        ctx.count('long_texts')
        if t2 - t1 > 10 and t2 - t1 > 40 * (t1 - t0):
            ctx.violation('time', 'tokenizing %a repeated to %d characters takes %.2f s, to %d characters %.2f s' % (
                u[:40], len(t), t1 - t0, 10 * len(t), t2 - t1))
    ctx.require('long_texts', 20)
    for i in range(ctx.budget(4000, 120000)):
        t = text(rng.choice([1, 2, 3, 5, 12, 60]) if i % 400 else 20000)
        got = check(t)
        ctx.count('texts')
        if got:
            ctx.count('tokens', len(got))
            if len(got) > 1:
                ctx.nt(t)
        if i % 997 == 0:
            ctx.sample(dict(text=t[:80], tokens=(got or [])[:8]))
