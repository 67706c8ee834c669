# -*- coding: utf-8 -*-
"""C29: restoring letter case."""
LEVEL = 'exploration'
RULE = ('every pair of case patterns (up to 4 letters per part, up to 3 hyphenated parts), every letter with a '
        'one-to-one case mapping, and random words x examples of any kind.  Monitors: only letter case may change; the '
        'number of parts stays; every part takes the lower / upper / capitalised form of the matching part of the '
        'example, lower case when nothing matches; the function is idempotent.  Non-trivial = distinct (word, example) '
        'pairs with a cased example.')
ASSUMPTIONS = ['letters whose case mapping changes the length of the text are only checked for case-folded equality']
EXHAUSTIVE = 'all case patterns of examples with up to 3 parts of up to 3 letters'


def legs(tier):
    return [dict(name='case', venv='slow', shards=3, timeout=850)]


def expected_part(word, example):
    cased = [c for c in example if c.isupper() or c.islower() or c.istitle()]
    if cased and all(c.islower() for c in cased):
        return word.lower()
    if cased and all(c.isupper() for c in cased):
        return word.upper()
    # capitalised: upper-case letters only at the start of runs of letters
    prev, ok = False, bool(cased)
    for c in example:
        if c.isupper() or c.istitle():
            ok = ok and not prev
            prev = True
        elif c.islower():
            ok = ok and prev
            prev = True
        else:
            prev = False
    return word.title() if ok else word.lower()


def run(ctx):
    import itertools
    import warnings
    from pymorphy2.shapes import restore_capitalization as rc
    from pymorphy2 import shapes
    rng = ctx.rng

    def check(word, example):
        got = rc(word, example)
        ctx.ev()
        ctx.current = (word, example)
        if '-' in example:
            ex = example.split('-')
            want = '-'.join(expected_part(p, ex[i]) if i < len(ex) else p.lower() for i, p in enumerate(word.split('-')))
        else:
            want = expected_part(word, example)
        if got.lower() != word.lower() and got.casefold() != word.casefold():
            ctx.violation('letters', 'restore_capitalization(%a, %a) = %a: not the same letters' % (word, example, got))
        elif got != want:
            ctx.violation('case', 'restore_capitalization(%a, %a) = %a, expected %a' % (word, example, got, want))
        elif rc(got, example) != got:
            ctx.violation('idempotent', 'restore_capitalization(%a, %a) = %a' % (got, example, rc(got, example)))
        if example.lower() != example.upper():
            ctx.nt((word, example))
    ctx.require('patterns', 1000)
    ctx.require('random', 1000)
    parts = ['']
    for n in (1, 2, 3):
        parts += [''.join(p) for p in itertools.product('aA1', repeat=n)]
    parts = [p.replace('a', 'ж').replace('A', 'Ж') for p in parts]
    words = ['дом', 'Дом', 'ДОМ', 'дОМ', '', 'дом-стол', 'Дом-СТОЛ', 'дом-стол-стул', 'д', 'дом--стол', '-дом', 'дом-', "об'ект", '123-й']
    k = 0
    for n in (1, 2, 3):
        for ex in itertools.product(parts if n < 3 else parts[:20], repeat=n):
            k += 1
            if k % ctx.nshards != ctx.shard:
                continue
            ctx.count('patterns')
            for w in (words if n < 3 else rng.sample(words, 3)):
                check(w, '-'.join(ex))
    letters = [c for c in map(chr, range(0x20, 0x3000)) if c.isalpha() and len(c.lower()) == len(c.upper()) == 1
               and c.upper().lower() == c.lower() and c.lower().upper() == c.upper() and c.title() == c.upper()]
    for i, c in enumerate(letters):
        if i % ctx.nshards == ctx.shard:
            for ex in ('Ы', 'ы', 'Ыы', 'ыЫ', '5', '-Ы', 'Ыы-'):
                check(c + c.upper() + 'x-' + c, ex)
                check('слово', c.upper() + c.lower())
                check('слово', c.upper() + c.upper())
    alpha = "абвёЁАБВqQxX19-.'"
    for i in range(ctx.budget(30000, 1000000)):
        w = ''.join(rng.choice(alpha) for _ in range(rng.randint(0, 9)))
        e = ''.join(rng.choice(alpha) for _ in range(rng.randint(0, 9)))
        check(w, e)
        ctx.count('random')
        if i % 9999 == 0:
            ctx.sample(dict(word=w, example=e, result=rc(w, e)))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if hasattr(shapes, 'restore_word_case') and shapes.restore_word_case('дом-стол', 'Ж-ЖЖ') != 'ДОМ-СТОЛ':
            ctx.violation('alias', 'the old alias differs')
