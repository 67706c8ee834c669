# -*- coding: utf-8 -*-
"""C13: prediction by word ending."""
LEVEL = 'exploration'
RULE = ('unknown words built from random beginnings and the endings of dictionary words (1-7 letters), with '
        'the paradigm prefixes, with е for ё, short words, plus every ending of the prediction tables once; toy '
        'dictionaries compiled with endings of up to 1-9 letters and other paradigm prefixes.  '
        'Oracle: the reference model reading the prediction tables (longest matching ending per paradigm '
        'prefix, productive classes only, score proportional to the recorded counts, whole lexeme).  '
        'Non-trivial = at least one ending-based analysis.')
ASSUMPTIONS = ['dawg_python exact lookup is trusted']


def legs(tier):
    return [dict(name='random', venv='slow', shards=6, timeout=800),
            dict(name='table', venv='slow', shards=6, timeout=800),
            dict(name='toy', venv='fast', shards=3, timeout=800),
            dict(name='fast', venv='fast', shards=4, timeout=800)]


def run(ctx):
    if ctx.leg == 'toy':
        return toy(ctx)
    from mon.env import Env
    from mon.gen import CYR
    from mon.lexcmp import full
    env = Env(ctx)
    m, rng, W, d = env.morph, ctx.rng, env.words, env.d
    ctx.require('by_ending', 5000)
    ctx.require('with_paradigm_prefix', 200)
    ctx.require('table_endings', 5000)

    def one(tok, lex=.3):
        ctx.current = tok
        r = full(ctx, env, tok, lex)
        if not r:
            return
        ks = [a for a in r[1] if a.kind[-1] == 'KnownSuffix']
        if ks:
            ctx.count('by_ending')
            ctx.nt(tok)
            if any(d.paradigms[a.stack[0][2]][a.stack[0][3]][0] for a in ks):
                ctx.count('with_paradigm_prefix')
            if len(set(round(a.score, 6) for a in ks)) > 1:
                ctx.count('different_counts')
            for p in r[0][:2]:
                if len(p.word) != len(tok.lower()):
                    ctx.violation('word', 'parse(%r) -> %r' % (tok, p.word))
            if len(ctx.samples) < 6:
                ctx.sample(dict(token=tok, best=str(r[0][0].tag), score=r[0][0].score, n=len(ks)))
        else:
            ctx.count('no_ending_' + ('Unkn' if r[1] and r[1][0].kind == ['Unkn'] else 'other'))

    def beginning(n):
        if rng.random() < .08 and n:
            # any characters may come before the ending
            return ''.join(rng.choice([rng.choice(CYR), env.tokens.uchar(), rng.choice('0129xZ.,_\'+ -')]) for _ in range(n))
        return ''.join(rng.choice(CYR) for _ in range(n))

    ends = sorted(set(k for dawg in d.pred[1:] for k, v in dawg.iteritems(''))) or ['ее']

    def random_words(n):
        for i in range(n):
            x = rng.random()
            w = W.pick() if rng.random() < .85 else rng.choice(W.yo or W.words)
            k = rng.randint(1, 7)
            b = beginning(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8]))
            tok = b + w[-k:]
            if x < .2:
                tok = rng.choice(['по', 'наи']) + b + rng.choice([w[-k:], rng.choice(ends), rng.choice(ends)])
            if rng.random() < .15:
                tok = tok.replace('ё', 'е')
            elif rng.random() < .1:
                tok = tok.replace('е', 'ё', 1)
            one(env.tokens.case(tok))

    def table(step):
        n = 0
        for pid, dawg in enumerate(d.pred):
            last = None
            for k, v in dawg.iteritems(''):
                if k == last:
                    continue
                last = k
                n += 1
                if n % ctx.nshards != ctx.shard or (n // ctx.nshards) % (1 if pid else step):
                    continue
                ctx.count('table_endings')
                tok = beginning(rng.randint(3, 6)) + k
                if pid:
                    tok = d.prefixes[pid] + tok
                if rng.random() < .2:
                    tok = tok.replace('ё', 'е')
                one(tok, .1)
    if ctx.leg == 'random':
        random_words(ctx.budget(9000, 70000))
    elif ctx.leg == 'table':
        table(ctx.scale(12, 1))
    else:
        random_words(ctx.budget(900, 6000))
        table(ctx.scale(150, 20))


def toy(ctx):
    """Dictionaries whose prediction tables differ from the installed ones."""
    import os
    import shutil
    import pymorphy2
    from mon.dictgen import Toy, compile_toy, base_grammemes
    from mon.dictref import DictRef
    from mon.gen import Words, Tokens
    from mon.env import lang_config, TooManyVariants
    from mon.model import Model
    from mon.lexcmp import full
    rng = ctx.rng
    G = base_grammemes()
    sets = [('', 'по', 'наи'), ('',), ('', 'най', 'якнай'), ('', 'пере', 'по', 'на', 'наи')]

    class E(object):
        def expected(self, tok):
            try:
                return self.model.parse(tok)
            except TooManyVariants:
                return None

    for k in range(ctx.budget(20, 200)):
        t = Toy(rng, G, prefixes=rng.choice(sets), alphabet=rng.choice(['абвгё', 'аеё', 'абвгдеёжзийклмнопрстуфхцчшщъыьэюя']))
        maxlen = rng.choice([1, 2, 3, 4, 6, 7, 8, 9])
        opts = dict(max_suffix_length=maxlen, min_ending_freq=rng.randint(1, 2), min_paradigm_popularity=rng.randint(0, 3))
        stems = [t.letters(6, 9) for _ in range(4)]
        for _ in range(rng.randint(20, 120)):
            # stems with common endings: long endings are shared by many words
            t.regular(stem=t.letters(4, 5) + rng.choice(stems))
        out = os.path.join(ctx.work, 't%d' % k)
        ctx.current = 'dictionary %d %r' % (k, opts)
        compile_toy(t, out, **opts)
        e = E()
        e.d = DictRef(out)
        e.model = Model(e.d, 'ru')
        e.morph = pymorphy2.MorphAnalyzer(path=out, lang='ru')
        ctx.count('toy_dictionaries')
        words = [w for w, v in e.d.iter_words('')]
        for _ in range(150):
            w = rng.choice(words)
            tok = t.letters(1, 8) + w[-rng.randint(1, maxlen + 1):]
            if rng.random() < .3:
                tok = rng.choice(t.prefixes) + tok
            if rng.random() < .2:
                tok = tok.replace('ё', 'е')
            ctx.current = (opts, tok)
            r = full(ctx, e, tok, .3)
            if r and any(a.kind[-1] == 'KnownSuffix' for a in r[1]):
                ctx.count('toy_by_ending')
                ctx.nt(tok)
                n = max(len(a.stack[1][1]) for a in r[1] if a.kind[-1] == 'KnownSuffix')
                ctx.count('toy_ending_length_%d' % n)
        shutil.rmtree(out)
    ctx.require('toy_by_ending', 1000)
    ctx.require('toy_ending_length_7', 50)
