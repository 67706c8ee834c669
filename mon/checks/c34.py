# -*- coding: utf-8 -*-
"""C34: estimating P(tag|word) from a corpus."""
LEVEL = 'exploration'
RULE = ('random annotated corpora (known, unknown, ambiguous and unambiguous words in any letter case, е for ё, tokens with '
        'several or no remaining analyses, tags in other spellings, unknown and outdated tags) are fed to the estimation '
        'command\'s function for a small dictionary; the written estimates, read raw, are compared with brute-force Laplace '
        'counting, the metadata with the counts, and an analyzer of the resulting dictionary with the estimates.  All other '
        'files have to stay as they were.  Non-trivial = distinct (word, tag) estimates.')
ASSUMPTIONS = ['nltk and opencorpora-tools are not installed: stand-ins with their documented semantics (mon/stubs)',
               'estimates may be rounded to a neighbouring millionth']


def legs(tier):
    return [dict(name='estimate', venv='fast', shards=6, timeout=850)]


def prepare(scratch):
    from mon.subset import prepare as sub
    return {'SUBSET': sub(scratch, 150)}


def run(ctx):
    import collections
    import json
    import os
    import shutil
    import subprocess
    import sys
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, os.path.join(here, 'stubs'))
    import pymorphy2
    from pymorphy2.opencorpora_dict.probability import add_conditional_tag_probability
    from mon.dictref import DictRef, tag_grammemes
    from mon.model import Model, obs, diff_parses
    from mon.gen import Words, Tokens
    from mon.model import lang_config
    rng = ctx.rng
    REPL = dict(gen1='gent', loc1='loct', acc1='accs')
    src = os.environ['SUBSET']
    ref = DictRef(src)
    W = Words(ref, rng, 12, 600)
    toks = Tokens(W, rng, lang_config('ru'))
    ctx.require('corpora', 20)
    ctx.require('estimates', 2000)
    ctx.require('used', 1000)
    ctx.require('dropped_rare', 50)
    ctx.require('dropped_equal', 20)

    def norm(tag):
        return frozenset(REPL.get(g, g) for g in tag.replace(' ', ',').split(','))

    def respell(t):
        r = rng.random()
        if r < .6:
            return t
        gr = t.replace(' ', ',').split(',')
        if r < .8:
            back = dict((v, k) for k, v in REPL.items())
            gr = [back.get(g, g) for g in gr]
        rest = gr[1:]
        rng.shuffle(rest)
        k = rng.randint(0, len(rest))
        return ','.join([gr[0]] + rest[:k]) + (' ' + ','.join(rest[k:]) if rest[k:] else '')

    def snapshot(p):
        out = {}
        for f in sorted(os.listdir(p)):
            with open(os.path.join(p, f), 'rb') as fh:
                out[f] = fh.read()
        return out
    for k in range(ctx.budget(18, 150)):
        out = os.path.join(ctx.work, 'd%d' % k)
        shutil.copytree(src, out)
        with_old = rng.random() < .5
        mf = os.path.join(out, 'meta.json')
        if not with_old:
            os.unlink(os.path.join(out, 'p_t_given_w.intdawg'))
            with open(mf, encoding='utf8') as f:
                meta = [x for x in json.load(f) if not x[0].startswith('P(t|w)')]
            with open(mf, 'w', encoding='utf8') as f:
                json.dump(meta, f)
        M = Model(DictRef(out, prob=False), 'ru', prob=False)

        def tags_of(w):
            ts = []
            for a in M.parse(w):
                if a.tag not in ts:
                    ts.append(a.tag)
            return ts
        vocab = [W.pick() for _ in range(60)] + [toks.gen(rng.choice(
            ['known', 'known_yo', 'suffix', 'unknown_prefix', 'initial', 'compound', 'punct', 'latin', 'roman', 'known_prefix', 'particle']
        )) for _ in range(40)]
        # words recorded twice with the same tag are left open (it is not
        # documented whether such a tag counts once or twice), and so are
        # words which are analysed by such a part
        def doubtful(v):
            v = v.lower()
            for x in (v, v.replace('ё', 'е')):
                for end in [len(x)] + [n for n, c in enumerate(x) if c == '-']:
                    for start in range(end):
                        t = [ref.tag(p, i) for _, p, i in M.lookup(x[start:end])]
                        if len(set(t)) < len(t):
                            return True
            return False
        vocab = [v for v in vocab if v.strip() and ':' not in v and not doubtful(v)]
        lines = []
        for _ in range(rng.choice([30, 300, 1500])):
            w = rng.choice(vocab[:rng.choice([5, 30, len(vocab)])])
            w = rng.choice([w, w, w.title(), w.upper()]) if len(w) > 1 else w
            if rng.random() < .1:
                w = w.replace('ё', 'е')
            ts = tags_of(w)
            r = rng.random()
            if r < .1:
                parses = [('x', t) for t in ts] + [('y', 'UNKN')]        # still ambiguous
            elif r < .13:
                parses = []
            elif r < .15:
                parses = [('x', ts[0]), ('y', ts[0])] if ts else []      # two lexemes with the same tag: ambiguous, too
            elif r < .2:
                parses = [('x', 'UNKN')]
            elif r < .27:
                parses = [('x', rng.choice(ref.gramtab))]                # perhaps not a tag of this word
            else:
                parses = [('x', respell(ts[0] if rng.random() < .5 else rng.choice(ts)))]
            lines.append((w, parses))
        fn = out + '.corpus'
        with open(fn, 'w', encoding='utf8') as f:
            for l in lines:
                f.write(json.dumps(l) + '\n')
        minf = rng.choice([1, 1, 2, 3, 5, '2'])
        ctx.current = 'corpus %d (%d tokens, min_word_freq %r)' % (k, len(lines), minf)
        before = snapshot(out)
        add_conditional_tag_probability(fn, out, minf)
        ctx.ev()
        ctx.count('corpora')
        after = snapshot(out)
        for f in set(before) | set(after):
            if f not in ('meta.json', 'p_t_given_w.intdawg') and before.get(f) != after.get(f):
                ctx.violation('files', 'estimating changed %s' % f)
        # brute force ---------------------------------------------------
        cnt = collections.defaultdict(collections.Counter)
        for w, parses in lines:
            if len(parses) == 1 and len(tags_of(w)) > 1 and norm(parses[0][1]) != {'UNKN'}:
                cnt[w.lower()][norm(parses[0][1])] += 1
        exp = {}
        for w, c in cnt.items():
            n = sum(c.values())
            if n < int(minf):
                ctx.count('dropped_rare')
                continue
            ts = tags_of(w)
            bins = max(len(ts), len(c))
            probs = dict((t, (c[norm_set(t)] + 1.0) / (n + bins)) for t in ts)
            if len(set(probs.values())) <= 1:
                ctx.count('dropped_equal')
                continue
            for t, p in probs.items():
                exp['%s:%s' % (w, t)] = p
        d2 = DictRef(out)
        got = dict(d2.ptw.iteritems(''))
        ctx.count('estimates', len(exp))
        for x in exp:
            ctx.nt((x, round(exp[x], 6)))
        if set(got) != set(exp):
            ctx.violation('keys', 'unexpected estimates %r, missing %r (%s)' % (
                sorted(set(got) - set(exp))[:4], sorted(set(exp) - set(got))[:4], ctx.current))
        else:
            for x in exp:
                if abs(got[x] - exp[x] * 1e6) > 1.01:
                    ctx.violation('value', 'estimate of %r is %d, expected %.2f' % (x, got[x], exp[x] * 1e6))
        meta = d2.meta
        want = {'P(t|w)': True, 'P(t|w)_unique_words': len(cnt), 'P(t|w)_outcomes': sum(sum(c.values()) for c in cnt.values()),
                'P(t|w)_min_word_freq': int(minf)}
        for key, v in want.items():
            if meta.get(key) != v:
                ctx.violation('meta', 'metadata %s is %r, expected %r' % (key, meta.get(key), v))
        # the dictionary with the new estimates -------------------------
        m = pymorphy2.MorphAnalyzer(path=out)
        M2 = Model(d2, 'ru')
        for w in [x for x in cnt] + [toks.gen() for _ in range(20)]:
            dd = diff_parses(obs(m.parse(w)), M2.parse(w))
            if dd:
                ctx.violation('scores', 'scores of %a with the new estimates: %s' % (w, dd))
            tot = 0
            for p in m.parse(w):
                e = exp.get('%s:%s' % (w.lower(), p.tag), 0)
                tot += e
            if tot and any(abs(p.score - exp.get('%s:%s' % (w.lower(), p.tag), 0)) > 2e-6 for p in m.parse(w)):
                ctx.violation('used', 'scores of %r don\'t follow the estimates' % w)
            if tot:
                ctx.count('used')
        ctx.sample(dict(corpus=ctx.current, words=len(cnt), estimates=len(exp), some=sorted(exp.items())[:2]))
        if k % 3 == 0:
            p = subprocess.run(['/opt/venv-slow/bin/python', '-c', SLOW, out], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               input=json.dumps([x for x in cnt][:40]).encode(), timeout=300)
            if p.returncode:
                ctx.violation('slow', 'pure-Python backend: %s' % p.stderr[-600:])
            else:
                ctx.count('slow_backend')
                for w, sc in json.loads(p.stdout.decode('utf8')):
                    if sc != [[str(q.tag), q.score] for q in m.parse(w)]:
                        ctx.violation('slow', 'pure-Python backend gives other scores for %a' % w)
        # again with another corpus: replaced, not merged
        if k % 2:
            with open(fn, 'w', encoding='utf8') as f:
                f.write(json.dumps(['стали', [['x', 'NOUN,inan,femn sing,gent']]]) + '\n')
            add_conditional_tag_probability(fn, out, 1, morph=pymorphy2.MorphAnalyzer(out, probability_estimator_cls=None))
            d3 = DictRef(out)
            ctx.count('replaced')
            if any(not x.startswith('стали:') for x in dict(d3.ptw.iteritems(''))) or d3.meta['P(t|w)_outcomes'] != 1:
                ctx.violation('replace', 'estimates of an earlier corpus are kept')
        shutil.rmtree(out)


def norm_set(t):
    return frozenset(t.replace(' ', ',').split(','))


SLOW = r'''
import sys, json, pymorphy2
m = pymorphy2.MorphAnalyzer(sys.argv[1])
print(json.dumps([[w, [[str(p.tag), p.score] for p in m.parse(w)]] for w in json.load(sys.stdin)]))
'''
