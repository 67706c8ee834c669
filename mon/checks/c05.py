# -*- coding: utf-8 -*-
"""C05: scores."""
LEVEL = 'exploration'
RULE = ('all words for which the dictionary records corpus estimates P(tag|word) (exhaustive) and tokens '
        'of all kinds without estimates; copies of the dictionary with synthetic estimates for known and unknown '
        'tokens (all tags, some, one, only tags the token does not have, zeros).  Oracle: recorded integers read from the raw estimate file; model '
        'scores for predictions.  Non-trivial = at least two analyses.')
ASSUMPTIONS = ['dawg_python exact lookup in the estimate file is trusted']
EXHAUSTIVE = 'all words with recorded corpus estimates'


def legs(tier):
    return [dict(name='corpus', venv='slow', shards=4, timeout=800),
            dict(name='tokens', venv='slow', shards=8, timeout=800),
            dict(name='synthetic', venv='fast', shards=3, timeout=800),
            dict(name='toy', venv='fast', shards=2, timeout=800),
            dict(name='fast', venv='fast', shards=4, timeout=800)]


def run(ctx):
    import zlib
    from mon.env import Env
    if ctx.leg == 'toy':
        from mon.toys import toy_envs
        ctx.require('toy_estimates', 30)
        for env in toy_envs(ctx, ctx.scale(12, 120)):
            workload(ctx, env, 150)
        return
    env = Env(ctx)
    m, d = env.morph, env.d
    if ctx.leg == 'synthetic':
        return synthetic(ctx, env)
    if ctx.leg == 'corpus' or ctx.leg == 'fast':
        cur = None
        step = 1 if ctx.leg == 'corpus' else ctx.scale(12, 2)
        n = 0
        for k, v in d.ptw.iteritems(''):
            w = k.split(':', 1)[0]
            if w == cur:
                continue
            cur = w
            if zlib.crc32(w.encode('utf8')) % ctx.nshards != ctx.shard:
                continue
            n += 1
            if n % step:
                continue
            for t in (w, w.upper(), w.title()) if n % 3 == 0 else (w,):
                if len(t) == 1 and t != w:
                    continue
                ctx.current = t
                ps = m.parse(t)
                ctx.ev()
                if len(ps) > 1:
                    ctx.nt(t)
                if not corpus_word(ctx, d, t, ps, m.tag(t)):
                    ctx.count('no_estimate_applies')
                else:
                    ctx.count('corpus_words')
                    if n % 9001 == 1:
                        ctx.sample(dict(word=t, scores=[p.score for p in ps]))
        ctx.require('corpus_words', 3000)
        if ctx.leg == 'corpus':
            return
    workload(ctx, env, ctx.budget(9000, 100000) if ctx.leg == 'tokens' else ctx.budget(900, 7000))


def corpus_word(ctx, d, w, ps, tags):
    if d.ptw is None:
        return False
    tot = sum(d.prob(w.lower(), str(p.tag)) for p in ps)
    if not tot:
        return False
    for p in ps:
        e = d.prob(w.lower(), str(p.tag))
        if abs(p.score - e) > 1e-9:
            ctx.violation('estimate', 'score of %r %s is %r, recorded P(t|w) %r' % (w, p.tag, p.score, e))
    sc = [p.score for p in ps]
    if any(a < b for a, b in zip(sc, sc[1:])):
        ctx.violation('order', 'parse(%r) is not sorted by score: %r' % (w, sc))
    te = [d.prob(w.lower(), str(t)) for t in tags]
    if any(a < b for a, b in zip(te, te[1:])):
        ctx.violation('tagorder', 'tag(%r) is not sorted by P(t|w): %r' % (w, te))
    return True


def workload(ctx, env, n):
    import pymorphy2
    from mon.env import obs, diff_parses, TooManyVariants
    m, d, M = env.morph, env.d, env.model
    m0 = pymorphy2.MorphAnalyzer(path=env.path, probability_estimator_cls=None)
    M0 = type(M)(d, 'ru', prob=False)
    ctx.require('normalised', 500)
    ctx.require('derived_forms', 2000)
    kinds = env.tokens.kinds + ['suffix', 'mutated', 'unknown_prefix', 'known_prefix', 'known'] * 3
    stream = env.stream(kinds, n)
    if ctx.leg == 'toy' and d.ptw is not None:
        est = sorted(set(k.split(':')[0] for k, v in d.ptw.iteritems('')))
        stream = list(stream) + [('estimate', ctx.rng.choice([w, w, w.upper(), w.title()])) for w in est]
    for kind, tok in stream:
        ctx.current = tok
        ps = m.parse(tok)
        ctx.ev()
        if len(ps) > 1:
            ctx.nt(tok)
        if d.ptw is None:
            ctx.count('no_estimator')
        elif not corpus_word(ctx, d, tok, ps, m.tag(tok)):
            s = sum(p.score for p in ps)
            ctx.count('normalised')
            if abs(s - 1) > 1e-6 or any(p.score <= 0 for p in ps):
                ctx.violation('sum', 'scores of %a: %r (sum %r)' % (tok, [p.score for p in ps], s))
        elif ctx.leg == 'toy':
            ctx.count('toy_estimates')
        # forms derived from an analysis
        for an in (m, m0):
            p = ctx.rng.choice(an.parse(tok))
            if p.score <= 0:
                continue
            forms = p.lexeme[:40] + [p.normalized]
            if p.tag.number:
                forms.append(p.inflect(set(['sing'])) or p)
            ctx.count('derived_forms', len(forms))
            for f in forms:
                if not 0 < f.score <= 1.000001:
                    ctx.violation('derived', '%a is analysed as %r with score %r; its form %r (%s) has score %r' % (
                        tok, p.word, p.score, f.word, f.tag, f.score))
                    break
        try:
            exp = M.parse(tok)
            exp0 = M0.parse(tok)
        except TooManyVariants:
            continue
        dd = diff_parses(obs(ps), exp)
        if dd:
            ctx.violation('model', 'scores of %a: %s' % (tok, dd))
        dd = diff_parses(obs(m0.parse(tok)), exp0)
        ctx.count('without_estimator')
        if dd:
            ctx.violation('raw', 'without an estimator, scores of %a: %s' % (tok, dd))
        if len(ps) > 2:
            ctx.sample(dict(token=ascii(tok), scores=[round(p.score, 4) for p in ps]))


def d_tag(d, w):
    return [str(d.tag(p, i)) for p, i in d.exact(w)]


def synthetic(ctx, env):
    """Estimates which the installed dictionary does not have."""
    import os
    import dawg
    import pymorphy2
    from mon.dictref import DictRef
    from mon.model import Model
    from mon.env import obs, diff_parses, TooManyVariants
    rng = ctx.rng
    base = Model(env.d, 'ru', prob=False)
    kinds = env.tokens.kinds + ['suffix', 'mutated', 'unknown_prefix', 'known', 'known', 'known_yo', 'compound']
    for r in range(ctx.scale(2, 10)):
        toks, data = [], {}
        for kind, tok in env.stream(kinds, ctx.budget(900, 3000)):
            try:
                exp = base.parse(tok)
            except TooManyVariants:
                continue
            low = tok.lower()
            if not exp or ':' in tok or any(c < ' ' or c > '\u2fff' for c in tok):
                continue
            tags = sorted(set(a.tag for a in exp))
            x = rng.random()
            chosen = tags if x < .3 else rng.sample(tags, rng.randint(1, len(tags))) if x < .6 else \
                [rng.choice(tags)] if x < .8 else [] if x < .9 else ['NOUN,inan,masc sing,nomn', 'PRED']
            toks.append((tok, len(tags)))
            for t in chosen:
                data[low + ':' + t] = rng.choice([0, 1, 2, 17, 333333, 500000, 1000000, rng.randint(0, 10 ** 6)])
        # words whose productive readings are estimated as impossible, and tokens analysed by them
        closed = ('NUMR', 'NPRO', 'PRED', 'PREP', 'CONJ', 'PRCL', 'INTJ')
        both = []
        for w in rng.sample(env.words.words, min(len(env.words.words), 60000)) + [
                'что', 'так', 'как', 'тем', 'чем', 'там', 'или', 'жалко', 'может', 'стать', 'пусть', 'дай']:
            if len(w) < 3 or '-' in w:
                continue
            tags = sorted(set(d_tag(env.d, w)))
            c = [t for t in tags if t[:4] in closed or 'Apro' in t]
            if c and len(c) < len(tags):
                both.append((w, c))
        for w, c in rng.sample(both, min(len(both), 40)):
            for t in list(data):
                if t.startswith(w + ':'):
                    del data[t]
            data[w + ':' + rng.choice(c)] = 1000000
            for tok in ['псевдо' + w, 'псевдо' + w + '-то', w + '-то', 'недо' + w]:
                try:
                    exp = base.parse(tok)
                except TooManyVariants:
                    continue
                if not any(k.startswith(tok + ':') for k in data):
                    toks.append((tok, 0))
                    ctx.count('impossible_parts')
        path = os.path.join(ctx.work, 'est%d' % r)
        os.mkdir(path)
        for fn in os.listdir(env.path):
            if fn != 'p_t_given_w.intdawg':
                os.symlink(os.path.join(env.path, fn), os.path.join(path, fn))
        dawg.IntCompletionDAWG(sorted(data.items())).save(os.path.join(path, 'p_t_given_w.intdawg'))
        m = pymorphy2.MorphAnalyzer(path=path)
        M = Model(DictRef(path), 'ru')
        for tok, ntags in toks:
            ctx.current = ('synthetic', tok)
            ps = m.parse(tok)
            ctx.ev()
            dd = diff_parses(obs(ps), M.parse(tok))
            if dd:
                ctx.violation('synthetic', 'scores of %a with recorded estimates %r: %s' % (
                    tok, dict((k, v) for k, v in data.items() if k.startswith(tok.lower() + ':')), dd))
            est = [data.get('%s:%s' % (tok.lower(), t), 0) for t in m.tag(tok)]
            if sum(est):
                ctx.count('synthetic_applied')
                if len(est) > 1:
                    ctx.nt(tok)
                if ntags == 1:
                    ctx.count('synthetic_one_tag')
                if any(a < b for a, b in zip(est, est[1:])):
                    ctx.violation('tagorder', 'tag(%a) is not sorted by the recorded estimates: %r' % (tok, est))
                sc = [p.score for p in ps]
                if any(a < b for a, b in zip(sc, sc[1:])):
                    ctx.violation('order', 'parse(%a) is not sorted by score: %r' % (tok, sc))
    ctx.require('synthetic_applied', 300)
    ctx.require('impossible_parts', 30)
    ctx.require('synthetic_one_tag', 50)
