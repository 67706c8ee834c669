# -*- coding: utf-8 -*-
"""C19: prediction tables of a compiled dictionary."""
LEVEL = 'exploration'
RULE = ('random OpenCorpora XML dictionaries with shared declension classes, compiled with random options '
        '(ending length, frequency and popularity thresholds, paradigm prefixes).  Oracle: brute-force counting '
        'over the generated lexemes.  Afterwards unknown words are analysed with the compiled dictionary and '
        'compared with the reference model.  Non-trivial = distinct (ending, count, paradigm, form) records.')
ASSUMPTIONS = []


def legs(tier):
    return [dict(name='tables', venv='fast', shards=8, timeout=800)]


def run(ctx):
    import collections
    import os
    import shutil
    import pymorphy2
    from mon.dictgen import Toy, compile_toy, base_grammemes
    from mon.dictref import DictRef, TooManyVariants
    from mon.model import Model, obs, diff_parses
    from mon.gen import Words, Tokens
    from mon.env import lang_config
    rng = ctx.rng
    G = base_grammemes()
    ctx.require('records', 3000)
    ctx.require('predicted_words', 1000)
    ctx.require('stemless', 100)
    sets = [('', 'по', 'наи'), ('',), ('', 'най', 'якнай', 'щонай'), ('', 'по', 'наи')]
    for k in range(ctx.budget(40, 400)):
        t = Toy(rng, G, prefixes=rng.choice(sets), alphabet=rng.choice(['абвг', 'аеё', 'абвгдеёжзийклмнопрстуфхцчшщъыьэюя']))
        opts = {}
        if rng.random() < .8:
            opts = dict(max_suffix_length=rng.choice([1, 2, 3, 4, 5, 6, 9, 14]), min_ending_freq=rng.randint(1, 4),
                        min_paradigm_popularity=rng.randint(0, 5))
        lo = rng.choice([1, 2, 4, 6])
        for _ in range(rng.randint(10, 150)):
            t.regular(lo, 9)
            if rng.random() < .12:
                # a word which consists of the endings of its class
                base, forms = rng.choice(t.classes)
                if all(e for _, e, _ in forms):
                    t.add(base, [(p + e, g) for p, e, g in forms])
                    ctx.count('stemless')
            if rng.random() < .1:
                pos = rng.choice(t.pos)
                t.add([pos], [(t.letters(rng.randint(1, 7), 9), [g]) for g in rng.sample(t.other, rng.randint(1, 3)) if g != pos])
            if rng.random() < .1:
                i = rng.choice(list(t.lexemes))       # the same lexeme again
                t.add(*t.lexemes[i])
        t.add_links(rng.choice([0, 0, 5]), forest=True)
        out = os.path.join(ctx.work, 'd%d' % k)
        ctx.current = 'dictionary %d %r' % (k, opts)
        compile_toy(t, out, **opts)
        ctx.ev()
        ctx.count('dictionaries')
        d = DictRef(out)
        maxlen = opts.get('max_suffix_length', 5)
        min_end = opts.get('min_ending_freq', 2)
        min_pop = opts.get('min_paradigm_popularity', 3)
        # lexemes as compiled: order of forms is taken from the compiled
        # lexeme with the same multiset of forms (C18 decides that part)
        by_set = collections.defaultdict(set)
        for w, v in d.iter_words(''):
            if v[1] == 0:
                by_set[tuple(sorted(d.lexeme(w, *v)))].add((w, v[0]))
        lexs = []
        for head, forms, members in t.merged():
            c = by_set.get(tuple(sorted(forms)))
            if not c or len(c) != 1:
                lexs = None
                break
            (w, para), = c
            lexs.append((para, d.lexeme(w, para, 0)))
        if lexs is None:
            ctx.count('skipped_ambiguous_lexeme')
            shutil.rmtree(out)
            continue
        pop = collections.Counter(p for p, _ in lexs)
        ends = collections.Counter()
        table = [collections.defaultdict(lambda: collections.defaultdict(collections.Counter)) for _ in d.prefixes]
        for para, forms in lexs:
            if pop[para] < min_pop:
                continue
            for i, (w, tag) in enumerate(forms):
                pre, _, suf = d.paradigms[para][i]
                if len(pre) + len(suf) == len(w):
                    continue
                pos = tag.replace(' ', ',').split(',')[0]
                for n in range(max(1, len(suf)), min(maxlen, len(w)) + 1):
                    ends[w[-n:]] += 1
                    table[d.prefixes.index(pre)][w[-n:]][pos][para, i] += 1
        for pid in range(len(d.prefixes)):
            exp = set()
            for e, byp in table[pid].items():
                if ends[e] < min_end:
                    continue
                for pos, cnt in byp.items():
                    top = max(cnt.values())
                    exp.update((e, c, p, i) for (p, i), c in cnt.items() if c == top)
            got = collections.Counter((e, v[0], v[1], v[2]) for e, v in d.pred[pid].iteritems(''))
            ctx.count('records', len(exp))
            for r in list(exp)[:200]:
                ctx.nt((k, ctx.shard, pid, r))
            if set(got) != exp or any(c > 1 for c in got.values()):
                a, b = sorted(set(got) - exp)[:4], sorted(exp - set(got))[:4]
                ctx.violation('table', 'prediction table %d (%r, prefixes %r): unexpected %r missing %r' % (
                    pid, opts, d.prefixes, a, b))
        if len(d.pred) != len(t.prefixes) or d.max_suffix != maxlen:
            ctx.violation('options', 'options %r are recorded as %r' % (opts, d.meta['compile_options']))
        # prediction with this dictionary
        m = pymorphy2.MorphAnalyzer(path=out)
        M = Model(d, 'ru', prob=False)
        ws = [w for _, f in lexs for w, _ in f]
        for _ in range(60):
            w = rng.choice(ws)
            tok = t.letters(2, 5) + w[-rng.randint(1, 7):]
            if rng.random() < .3:
                tok = rng.choice(d.prefixes) + tok
            ctx.current = tok
            try:
                exp = M.parse(tok)
            except TooManyVariants:
                continue
            ctx.count('predicted_words')
            dd = diff_parses(obs(m.parse(tok)), exp)
            if dd:
                ctx.violation('predict', 'parse(%r) with the compiled dictionary: %s' % (tok, dd))
        ctx.sample(dict(options=opts, lexemes=len(lexs), records=sum(len(x) for x in table)))
        shutil.rmtree(out)
        os.remove(out + '.xml')
