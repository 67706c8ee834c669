# -*- coding: utf-8 -*-
"""Generated dictionaries, compiled by the code under test, as environments.

The installed dictionary has only one set of paradigm prefixes, no paradigm
whose first form has a prefix, few suppletive words ...; generated ones have
all of that.  What they contain is read back by DictRef, which does not use
pymorphy2 (that compiling keeps what the source says is decided by C18/C19).
"""
import json
import os
import shutil

from mon.dictgen import Toy, compile_toy, base_grammemes
from mon.dictref import DictRef
from mon.env import Env
from mon.gen import Words, Tokens
from mon.model import Model, lang_config

PREFIXES = [('', 'по', 'наи'), ('',), ('', 'най', 'якнай'), ('', 'пере', 'по', 'на', 'наи'), ('', 'а', 'аб'),
            ('', 'а', 'б', 'в', 'г', 'аа', 'аб', 'ба', 'бб', 'ав', 'по', 'наи')]
ALPHABETS = ['абвгё', 'аеё', 'кот', 'абвгдеёжзийклмнопрстуфхцчшщъыьэюя', 'абвгдеёжзийклмнопрстуфхцчшщъыьэюя']


def random_toy(rng, size=60, G=None, prefixes=None, hyphens=True):
    t = Toy(rng, G or base_grammemes(), prefixes=prefixes or rng.choice(PREFIXES), alphabet=rng.choice(ALPHABETS))
    stems = [t.letters(4, 7) for _ in range(4)]
    for _ in range(size):
        x = rng.random()
        if x < .45:
            t.regular(1, 8)
        elif x < .6:
            t.regular(stem=t.letters(1, 4) + rng.choice(stems))
        else:
            t.irregular()
        if rng.random() < .05:
            # the same words once more, perhaps as another part of speech
            i = rng.choice(list(t.lexemes))
            base, forms = t.lexemes[i]
            t.add([rng.choice(t.pos)] + base[1:] if rng.random() < .5 else base, forms)
    adj = t.letters(3, 6)
    t.add(['ADJF', 'Qual'], [(adj + e, g) for e, g in [
        ('ий', ['masc', 'sing', 'nomn']), ('ому', ['masc', 'sing', 'datv']), ('ой', ['femn', 'sing', 'datv']),
        ('ие', ['plur', 'nomn']), ('им', ['plur', 'datv'])]])
    for g in ('masc', 'femn'):
        st = t.letters(2, 5)
        t.add(['NOUN', 'anim', g], [(st + e, ['sing', c]) for e, c in
                                    [('', 'nomn'), ('а', 'gent'), ('у', 'datv'), ('а', 'accs')]])
    # forms in the plural with and without a gender (which the plural excludes)
    st = t.letters(2, 6)
    t.add([rng.choice(['ADJF', 'VERB', 'NPRO'])], [(st + x, g) for x, g in rng.sample([
        ('й', ['masc', 'sing', 'nomn']), ('я', ['femn', 'sing', 'nomn']), ('е', ['neut', 'sing', 'nomn']),
        ('и', ['plur', 'nomn']), ('ие', ['femn', 'plur', 'nomn']), ('ии', ['masc', 'plur', 'nomn'])], 6)])
    if hyphens:
        for _ in range(3):
            a, b = t.letters(1, 4), t.letters(1, 4)
            t.add([rng.choice(t.pos)], [(a + '-' + b, ['sing']), (a + '-' + b + 'а', ['plur'])])
    for w in rng.sample(['xiv', 'я', 'а', '1-й', 'x', 'n', 'по-моему', 'кто-то', '42', '...', 'супер', 'экс'], 4):
        t.add([rng.choice(t.pos)], [(w, ['sing'])])
    tidy(t)
    if rng.random() < .5:
        t.add_links(rng.randint(1, 8), forest=True)
    return t


CASES = 'nomn gent datv accs ablt loct voct gen2 acc2 loc2'.split()


def tidy(t):
    """Nouns etc. have a case; no two tags differ only in the place of the
    space (compiling keeps both, analyses with them are equal)."""
    seen = {}
    for i, (base, forms) in list(t.lexemes.items()):
        new = []
        for k, (f, gr) in enumerate(forms):
            if base[0] in ('NOUN', 'ADJF', 'PRTF') and not set(CASES) & set(base + gr):
                gr = gr + [CASES[k % len(CASES)]]
            new.append((f, gr))
        t.lexemes[i] = (base, new)
        tags = [t.tag(base, gr) for f, gr in new]
        if any(seen.get(x.replace(' ', ','), x) != x for x in tags) or \
                len(set(tags)) != len(set(x.replace(' ', ',') for x in tags)):
            del t.lexemes[i]
            continue
        for x in tags:
            seen[x.replace(' ', ',')] = x


class ToyEnv(Env):
    """Same attributes as Env."""

    def __init__(self, ctx, path, toy, lang='ru', subst=None, **kw):
        import pymorphy2
        self.ctx, self.path, self.toy, self.lang = ctx, path, toy, lang
        if subst is not None:
            kw['char_substitutes'] = subst
        self.morph = pymorphy2.MorphAnalyzer(path=path, lang=lang, **kw)
        self.cfg = lang_config(lang)
        self.d = DictRef(path)
        self.model = Model(self.d, lang, subst=subst, prob=kw.get('probability_estimator_cls', 1) is not None)
        W = Words.__new__(Words)
        W.rng, W.d = ctx.rng, self.d
        W.words = sorted(set(w for w, v in self.d.iter_words('') if w))
        W.yo = [w for w in W.words if 'ё' in w]
        W.hyph = [w for w in W.words if '-' in w]
        self.words = W
        self.tokens = Tokens(W, ctx.rng, self.cfg)


def add_estimates(path, rng, d):
    """Made-up P(tag|word) for some of the ambiguous words."""
    import dawg
    recorded = set(w for w, v in d.iter_words(''))
    data = {}
    for w in sorted(recorded | set(w.replace('ё', 'е') for w in recorded)):
        # like the estimates made from a corpus: all tags the word can have
        tags = sorted(set(d.tag(*v) for x in d.variants(w, {'е': 'ё'}) for v in d.exact(x))) if w.count('е') < 9 else ()
        if len(tags) > 1 and rng.random() < .4 and ':' not in w and w:
            for t in tags:
                data['%s:%s' % (w, t)] = rng.choice([1, 5, 250000, 500000, rng.randint(1, 10 ** 6)])
    if not data:
        return
    dawg.IntCompletionDAWG(sorted(data.items())).save(os.path.join(path, 'p_t_given_w.intdawg'))
    fn = os.path.join(path, 'meta.json')
    with open(fn, encoding='utf8') as f:
        meta = [x for x in json.load(f) if x[0] != 'P(t|w)']
    with open(fn, 'w', encoding='utf8') as f:
        json.dump(meta + [['P(t|w)', True]], f)


def toy_envs(ctx, n, size=60, **kw):
    rng = ctx.rng
    G = base_grammemes()
    for k in range(n):
        t = random_toy(rng, size, G)
        path = os.path.join(ctx.work, 'toy%d' % k)
        opts = {}
        if rng.random() < .7:
            opts = dict(max_suffix_length=rng.randint(1, 7), min_ending_freq=rng.randint(1, 2),
                        min_paradigm_popularity=rng.randint(0, 3))
        ctx.current = 'compiling toy dictionary %d %r' % (k, opts)
        compile_toy(t, path, **opts)
        if rng.random() < .5:
            add_estimates(path, rng, DictRef(path, prediction=False))
        env = ToyEnv(ctx, path, t, **kw)
        ctx.count('toy_dictionaries')
        yield env
        shutil.rmtree(path)
        os.remove(path + '.xml')
