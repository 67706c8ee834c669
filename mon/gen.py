# -*- coding: utf-8 -*-
"""Workload generators: tokens of every kind the pipeline distinguishes."""
import random
import sys

CYR = 'абвгдеёжзийклмнопрстуфхцчшщъыьэюя'
LAT = 'abcdefghijklmnopqrstuvwxyz'


class Words(object):
    """Random access to dictionary forms through random DAWG sub-tries."""

    def __init__(self, dref, rng, prefixes=12, maxper=6000, deep=2):
        self.rng, self.d = rng, dref
        self.words = []
        letters = CYR.replace('ъ', '').replace('ы', '').replace('ь', '')
        tries = 0
        while tries < prefixes:
            p = ''.join(rng.choice(letters) for _ in range(deep))
            tries += 1
            got = []
            for i, (w, _) in enumerate(dref.iter_words(p)):
                if not got or got[-1] != w:
                    got.append(w)
                if len(got) >= maxper * 4:
                    break
            if len(got) > maxper:
                got = rng.sample(got, maxper)
            self.words += got
        if not self.words:
            self.words = [w for w, _ in dref.iter_words('')]
        self.yo = [w for w in self.words if 'ё' in w]
        self.hyph = [w for w in self.words if '-' in w]

    def __len__(self):
        return len(self.words)

    def pick(self):
        return self.rng.choice(self.words)


class Tokens(object):
    """Token generator; .kinds lists the categories, gen(kind) makes one."""

    def __init__(self, words, rng, cfg):
        self.w, self.rng, self.cfg = words, rng, cfg
        self.kinds = [k[2:] for k in sorted(dir(self)) if k.startswith('k_')]

    def gen(self, kind=None):
        k = kind or self.rng.choice(self.kinds)
        return getattr(self, 'k_' + k)()

    def case(self, w):
        r = self.rng.random()
        if r < .6:
            return w
        if r < .75:
            return w.upper()
        if r < .9:
            return w.title()
        return ''.join(c.upper() if self.rng.random() < .5 else c for c in w)

    # words
    def k_known(self):
        return self.case(self.w.pick())

    def k_known_yo(self):
        w = self.rng.choice(self.w.yo) if self.w.yo else self.w.pick()
        r = self.rng.random()
        if r < .4:
            return w.replace('ё', 'е')
        if r < .7:
            return ''.join('е' if c == 'ё' and self.rng.random() < .5 else c for c in w)
        return w

    def k_wrong_yo(self):
        w = self.w.pick()
        ix = [i for i, c in enumerate(w) if c == 'е']
        if ix:
            i = self.rng.choice(ix)
            w = w[:i] + 'ё' + w[i + 1:]
        return w

    def k_mutated(self):
        w = self.w.pick()
        i = self.rng.randrange(len(w) + 1)
        r = self.rng.random()
        if r < .4:
            return w[:i] + self.rng.choice(CYR) + w[i:]
        if r < .7 and len(w) > 1:
            return w[:i] + w[i + 1:]
        j = self.rng.randrange(len(w))
        return w[:j] + self.rng.choice(CYR) + w[j + 1:]

    def k_random_cyr(self):
        return self.case(''.join(self.rng.choice(CYR) for _ in range(self.rng.randint(1, 12))))

    def k_short(self):
        return self.case(''.join(self.rng.choice(CYR) for _ in range(self.rng.randint(1, 4))))

    def k_unknown_prefix(self):
        p = ''.join(self.rng.choice(CYR) for _ in range(self.rng.randint(1, 6)))
        return self.case(p + self.w.pick())

    def k_suffix(self):
        w = self.w.pick()
        n = self.rng.randint(2, 6)
        p = ''.join(self.rng.choice(CYR) for _ in range(self.rng.randint(3, 8)))
        return self.case(p + w[-n:])

    def k_suffix_yo(self):
        w = self.rng.choice(self.w.yo) if self.w.yo else self.w.pick()
        n = self.rng.randint(2, 6)
        p = ''.join(self.rng.choice(CYR) for _ in range(self.rng.randint(3, 8)))
        e = w[-n:]
        return self.case(p + (e.replace('ё', 'е') if self.rng.random() < .6 else e))

    def k_po_nai(self):
        p = self.rng.choice(['по', 'наи'])
        w = self.w.pick()
        if self.rng.random() < .5:
            w = ''.join(self.rng.choice(CYR) for _ in range(self.rng.randint(2, 5))) + w[-self.rng.randint(3, 6):]
        return self.case(p + w)

    def k_known_prefix(self):
        return self.case(self.rng.choice(self.cfg['prefixes']) + self.w.pick())

    def k_two_prefixes(self):
        P = self.cfg['prefixes']
        return self.rng.choice(P) + self.rng.choice(P) + self.w.pick()

    def k_prefix_unknown(self):
        return self.rng.choice(self.cfg['prefixes']) + self.k_mutated()

    def k_prefix_short(self):
        return self.rng.choice(self.cfg['prefixes']) + self.k_short()

    # hyphens
    def k_particle(self):
        return self.case(self.w.pick() + self.rng.choice(self.cfg['particles']))

    def k_particle_unknown(self):
        return self.case(self.k_mutated() + self.rng.choice(self.cfg['particles']))

    def k_two_particles(self):
        P = self.cfg['particles']
        return self.w.pick() + self.rng.choice(P) + self.rng.choice(P)

    def k_compound(self):
        return self.case(self.w.pick() + '-' + self.w.pick())

    def k_compound_same(self):
        # nearby dictionary words often have the same part of speech
        i = self.rng.randrange(len(self.w.words))
        j = min(len(self.w.words) - 1, i + self.rng.randint(1, 40))
        return self.w.words[i] + '-' + self.w.words[j]

    def k_compound_unknown(self):
        return self.k_mutated() + '-' + self.k_mutated()

    def k_compound_prefix(self):
        return self.w.pick() + '-' + self.rng.choice(self.cfg['prefixes']) + self.w.pick()

    def k_compound_particle(self):
        return self.k_compound() + self.rng.choice(self.cfg['particles'])

    def k_three_parts(self):
        return '-'.join(self.w.pick() for _ in range(self.rng.randint(3, 4)))

    def k_po_adverb(self):
        return self.case('по-' + self.w.pick())

    def k_stray_hyphen(self):
        w = self.w.pick()
        return self.rng.choice(['-' + w, w + '-', w + '--' + self.w.pick(), '-' + w + '-',
                                '-', '--', w[:1] + '-', '-' + w[:1]])

    def k_compound_mixed(self):
        parts = [self.k_latin(), self.k_number(), self.w.pick(), self.k_punct(), self.k_roman(), self.k_short()]
        return self.rng.choice(parts) + '-' + self.rng.choice(parts)

    # shapes
    def k_number(self):
        r = self.rng
        s = r.choice(['', '', '', '+', '-']) + str(r.choice([r.randint(0, 9), r.randint(0, 10 ** 6), r.getrandbits(80)]))
        if r.random() < .4:
            s += r.choice('.,') + str(r.randint(0, 9999))
        return s

    def k_numberish(self):
        r = self.rng
        return r.choice(['%d-й', '%d-го', '%d%%', '%dкг', '1,%d,5', '%d.', '.%d', '%d:30', '№%d', '%de5', '%d-%d' % (r.randint(0, 9), r.randint(0, 9)) + '%d']) % r.randint(0, 999)

    def k_punct(self):
        return ''.join(self.rng.choice('.,!?;:-—…«»"()[]{}\'/\\*&%#@_') for _ in range(self.rng.randint(1, 4)))

    def k_latin(self):
        w = ''.join(self.rng.choice(LAT + 'éüßñ') for _ in range(self.rng.randint(1, 9)))
        if self.rng.random() < .2:
            w += str(self.rng.randint(0, 99))
        return self.case(w)

    def k_roman(self):
        return self.case(roman(self.rng.randint(1, 4999)))

    def k_roman_like(self):
        return self.case(''.join(self.rng.choice('ivxlcdm') for _ in range(self.rng.randint(1, 7))))

    def k_initial(self):
        return self.rng.choice(self.cfg['letters'] + 'ЪЫЬabZIV')

    def k_initial_lower(self):
        return self.rng.choice(self.cfg['letters']).lower()

    def k_mixed_script(self):
        return self.w.pick()[:self.rng.randint(1, 4)] + ''.join(self.rng.choice(LAT) for _ in range(self.rng.randint(1, 4)))

    def k_unicode(self):
        return ''.join(self.uchar() for _ in range(self.rng.randint(1, 6)))

    def k_word_unicode(self):
        w = self.w.pick()
        i = self.rng.randrange(len(w) + 1)
        return w[:i] + self.uchar() + w[i:]

    def k_space(self):
        return self.rng.choice(['', ' ', '\t', '\n', ' ' + self.w.pick(), self.w.pick() + ' ', '\u00a0', '\u200b', '\ufeff'])

    def k_sharp(self):
        # characters whose case mapping changes length / is irregular
        return self.rng.choice(['İ', 'ß', 'ŉ', 'ΐ', 'ſ', 'ﬁ', 'Ǆ', 'ǅ', 'Σ', 'ς', 'ẞ', 'K', 'Å', 'I', 'ı']) + self.rng.choice(['', 'а', self.w.pick(), 'x'])

    def uchar(self):
        r = self.rng
        x = r.random()
        if x < .3:
            return chr(r.randint(0x20, 0x24f))
        if x < .5:
            return chr(r.randint(0x370, 0x5ff))
        if x < .6:
            return chr(r.randint(0x2000, 0x2bff))
        if x < .7:
            return chr(r.randint(0x3000, 0x9fff))
        if x < .75:
            return r.choice('\x02\x7f\x85\u0301\u0308\u200d\u2028\u202e\ufe0f\uffff')
        if x < .95:
            c = r.randint(0, 0xffff)
            if 0xd800 <= c <= 0xdfff:   # lone surrogates are not Unicode text
                c -= 0x1000
            return chr(c)
        return chr(r.randint(0x10000, 0x10ffff))


def roman(n):
    out = []
    for v, s in [(1000, 'M'), (900, 'CM'), (500, 'D'), (400, 'CD'), (100, 'C'), (90, 'XC'),
                 (50, 'L'), (40, 'XL'), (10, 'X'), (9, 'IX'), (5, 'V'), (4, 'IV'), (1, 'I')]:
        while n >= v:
            out.append(s)
            n -= v
    return ''.join(out)
