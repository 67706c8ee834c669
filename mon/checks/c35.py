# -*- coding: utf-8 -*-
"""C35: Ukrainian dictionaries are analysed by the Ukrainian rules."""
LEVEL = 'exploration'
RULE = ('random Ukrainian-looking dictionaries (with ґ, apostrophes, Ukrainian superlative prefixes) are compiled and used '
        'by an analyzer; every known prefix, particle, initial letter, г/ґ spelling, Roman/Latin/number token and random '
        'tokens of all kinds are analysed.  Oracle: the reference model with the recorded Ukrainian language data; Russian '
        'substitutions, particles and prefixes may have no effect.  Non-trivial = distinct tokens of a known shape.')
ASSUMPTIONS = ['the Ukrainian language data is the one recorded in mon/lang_config.json; no Ukrainian dictionary is '
               'installed, so dictionaries are generated']
EXHAUSTIVE = 'all known prefixes, particles and letters of the Ukrainian rules, in every generated dictionary'


def legs(tier):
    return [dict(name='fast', venv='fast', shards=5, timeout=850)]


SLOW = r'''
import sys, json, pymorphy2
m = pymorphy2.MorphAnalyzer(sys.argv[1])
print(json.dumps([[w, [[p.word, str(p.tag), p.normal_form, p.score] for p in m.parse(w)], [str(t) for t in m.tag(w)]]
                  for w in json.load(sys.stdin)]))
'''
UK = 'абвгґдеєжзиіїйклмнопрстуфхцчшщьюя\''


def run(ctx):
    import json
    import os
    import shutil
    import subprocess
    import pymorphy2
    from mon.dictgen import Toy, compile_toy, base_grammemes
    from mon.dictref import DictRef
    from mon.model import Model, obs, diff_parses, lang_config
    from mon.gen import Words, Tokens
    from mon.env import TooManyVariants
    from mon.lexcmp import pair, hyphenated_parts
    rng = ctx.rng
    cfg, ru = lang_config('uk'), lang_config('ru')
    G = base_grammemes()
    ctx.require('dictionaries', 10)
    ctx.require('compared', 5000)
    ctx.require('known_prefix', 1000)
    ctx.require('ge', 300)
    ctx.require('slow_backend', 500)
    for k in range(ctx.budget(3, 30)):
        t = Toy(rng, G, prefixes=tuple(cfg['paradigm_prefixes']), alphabet=rng.choice([UK, 'абгґеи', 'гґкот']))
        for _ in range(rng.randint(20, 60)):
            t.regular(3, 7)
        t.fill(rng.randint(5, 25), irregular=.6)
        for w in ('ґанок', 'гай', 'ґрунт', 'аґрус', 'грати', 'ґрати', "п'ять", 'їжак', 'я', 'і', 'xiv', 'абвґгд'):
            pos = rng.choice(['NOUN', 'ADJF', 'VERB', 'ADVB', 'CONJ', 'NPRO'])
            t.add([pos], [(w, ['sing']), (w + 'у', ['plur'])])
        out = os.path.join(ctx.work, 'd%d' % k)
        compile_toy(t, out, lang='uk')
        m = pymorphy2.MorphAnalyzer(path=out)
        d = DictRef(out)
        M = Model(d, 'uk', prob=False)
        W = Words(d, rng, 12, 400)
        toks = Tokens(W, rng, cfg)
        rtoks = Tokens(W, rng, ru)
        ctx.count('dictionaries')
        if m.lang != 'uk':
            ctx.violation('lang', 'language of a Ukrainian dictionary is %r' % m.lang)
        work = []
        ws = [W.pick() for _ in range(60)]
        for p in cfg['prefixes']:
            w = rng.choice(ws)
            work.append(('known_prefix', p + w))
            work.append(('known_prefix', p + t.letters(2, 5) + w[-4:]))
        for p in ru['prefixes'] + ['ґ', 'щонай', 'якнай', 'най']:
            work.append(('other_prefix', p + rng.choice(ws)))
        for p in cfg['particles'] + ru['particles'] + ['-таки-но', '-бо-но']:
            for _ in range(3):
                work.append(('particle', toks.case(rng.choice(ws)) + p))
                work.append(('particle', t.letters(3, 9) + p))
        for c in set(cfg['letters'] + ru['letters'] + 'ЪЫЬI'):
            work += [('letter', c), ('letter', c.lower()), ('letter', c + '.'), ('letter', c + c)]
        ge = [w for w in d_words(d) if 'ґ' in w or 'г' in w]
        rng.shuffle(ge)
        for w in ge[:60]:
            for x in (w.replace('ґ', 'г'), w.replace('г', 'ґ'), w.replace('ґ', 'г', 1), 'супер' + w.replace('ґ', 'г'),
                      'щщ' + w.replace('ґ', 'г'), w.upper(), 'кот-' + w.replace('ґ', 'г'), w.replace('е', 'ё'), w.replace('ё', 'е')):
                work.append(('ge', x))
        work += [('shape', x) for x in 'I V X xiv XIV MMXX IIII latin Latin-1 12 1,5 -3 . ?! … « х ХIV І'.split()]
        for _ in range(ctx.budget(1100, 3000)):
            work.append(('any', (toks if rng.random() < .8 else rtoks).gen()))
        dump = []
        for kind, tok in work:
            ctx.current = (k, kind, tok)
            try:
                e = M.parse(tok)
            except TooManyVariants:
                continue
            ps = m.parse(tok)
            ctx.ev()
            ctx.count('compared')
            ctx.count(kind)
            if kind != 'any':
                ctx.nt((ctx.shard, k, tok))
            dd = diff_parses(obs(ps), e)
            if dd:
                ctx.violation('parse', '%s: parse(%a): %s' % (kind, tok, dd))
                continue
            if set(str(x) for x in m.tag(tok)) != set(a.tag for a in e):
                ctx.violation('tag', '%s: tag(%a) = %r' % (kind, tok, m.tag(tok)))
            known = any(d.exact(v) for v in d.variants(tok.lower(), cfg['subst']))
            if m.word_is_known(tok) != known or m.word_is_known(tok, strict=True) != bool(d.exact(tok.lower())):
                ctx.violation('known', 'word_is_known(%a) is %r' % (tok, m.word_is_known(tok)))
            if kind == 'ge' and 'ё' in tok and known and not d.exact(tok.lower()):
                ctx.violation('yo', '%a is known in Ukrainian' % tok)
            if rng.random() < .15:
                for key, real, mod in pair(ps, e):
                    if len(real) != len(mod) or len(real) > 4 or any(hyphenated_parts(x) for x in mod):
                        continue
                    r = sorted(sorted((f.word, str(f.tag), f.normal_form) for f in p.lexeme) for p in real)
                    x = sorted(sorted(a.lex()) for a in mod)
                    ctx.count('lexemes')
                    if r != x:
                        ctx.violation('lexeme', 'lexeme of %a %r: %r, expected %r' % (tok, key, r[0][:4], x[0][:4]))
            if rng.random() < .2:
                dump.append((tok, [[p.word, str(p.tag), p.normal_form, p.score] for p in ps], [str(x) for x in m.tag(tok)]))
        if k % 3 == 0:
            p = subprocess.run(['/opt/venv-slow/bin/python', '-c', SLOW, out], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               input=json.dumps([x[0] for x in dump]).encode(), timeout=400)
            if p.returncode:
                ctx.violation('slow', 'pure-Python backend: %s' % p.stderr[-800:])
            else:
                for (w, ps, ts), got in zip(dump, json.loads(p.stdout.decode('utf8'))):
                    ctx.count('slow_backend')
                    if [w, ps, ts] != got:
                        ctx.violation('slow', 'pure-Python backend: %a gives %r, the compiled one %r' % (w, got[1][:3], ps[:3]))
        ctx.sample(dict(dictionary=k, words=len(W), tokens=len(work)))
        shutil.rmtree(out)


def d_words(d):
    return sorted(set(w for w, v in d.iter_words('')))
