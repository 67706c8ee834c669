# -*- coding: utf-8 -*-
"""Random OpenCorpora-like dictionaries (XML) and their expected content."""
import collections
import os
from xml.sax.saxutils import quoteattr, escape

CYR = 'абвгдеёжзийклмнопрстуфхцчшщъыьэюя'
EXCLUDED = ('7', '21', '23', '27')


def base_grammemes():
    """[(name, parent, alias, description)] of the installed dictionary."""
    import json
    from mon.dictref import ru_path
    with open(os.path.join(ru_path(), 'grammemes.json'), encoding='utf8') as f:
        return [tuple(g) for g in json.load(f)]


class Toy(object):
    """lexemes: OrderedDict id -> (base grammemes, [(form, grammemes)])"""

    def __init__(self, rng, grammemes=None, prefixes=('', 'по', 'наи'), alphabet=CYR, ordered_tags=True):
        self.rng, self.alpha, self.prefixes = rng, alphabet, list(prefixes)
        self.grammemes = grammemes or base_grammemes()
        self.rank = dict((g[0], i) for i, g in enumerate(self.grammemes))
        skip = set('Init POST ANim GNdr NMbr CAse ASpc TRns PErs TEns MOod INvl VOic loc1 gen1 acc1'.split())
        self.pos = [g[0] for g in self.grammemes if g[1] == 'POST']
        self.other = [g[0] for g in self.grammemes if g[0] not in skip and g[1] != 'POST']
        self.ordered = ordered_tags
        self.lexemes = collections.OrderedDict()
        self.links = []
        self.next_id = 1
        self.classes = []

    def letters(self, a, b):
        return ''.join(self.rng.choice(self.alpha) for _ in range(self.rng.randint(a, b)))

    def tag_part(self, n, pos=None):
        g = self.rng.sample(self.other, n)
        if self.ordered:
            g.sort(key=self.rank.get)
        return ([pos] if pos else []) + g

    def new_class(self):
        """a declension class: base grammemes + [(prefix, ending, grammemes)]"""
        rng = self.rng
        pos = rng.choice(self.pos)
        base = self.tag_part(rng.randint(0, 2), pos)
        k = rng.choice([1, 1, 2, 3, 4, 6, 9])
        forms, used = [], set()
        for _ in range(k):
            for _ in range(20):
                gr = [g for g in self.tag_part(rng.randint(0, 3)) if g not in base]
                if tuple(gr) not in used:
                    break
            used.add(tuple(gr))
            end = self.letters(0, 3)
            pre = rng.choice([p for p in self.prefixes if p] or ['']) if rng.random() < .12 else ''
            forms.append((pre, end, gr))
        return base, forms

    def add(self, base, forms, lex_id=None):
        i = lex_id or str(self.next_id)
        self.next_id = max(self.next_id, int(i)) + self.rng.randint(1, 3)
        self.lexemes[i] = (list(base), list(forms))
        return i

    def regular(self, min_stem=6, max_stem=9, stem=None):
        if not self.classes or self.rng.random() < .25:
            self.classes.append(self.new_class())
        base, forms = self.rng.choice(self.classes)
        stem = stem or self.letters(min_stem, max_stem)
        return self.add(base, [(p + stem + e, g) for p, e, g in forms])

    def irregular(self):
        """suppletive, repeated, overlapping, prefixed, hyphenated ... forms"""
        rng = self.rng
        pos = rng.choice(self.pos)
        x = rng.random()
        st = self.letters(1, 4)
        if x < .2:
            forms = [self.letters(1, 6) for _ in range(rng.randint(1, 4))]
        elif x < .35:
            forms = [st + st, st, st + self.letters(1, 2), st + st + st]
        elif x < .5:
            forms = [st] + [rng.choice(self.prefixes) + st + self.letters(0, 2) for _ in range(3)]
        elif x < .6:
            forms = [self.letters(1, 2) + st for _ in range(3)]      # prefixes which are not allowed
        elif x < .7:
            forms = [st, st, st + 'а', st + 'а']                      # same form twice
        elif x < .8:
            forms = [st.upper(), st.title() + '-' + st, st + '-' + st]
        elif x < .9:
            forms = [''.join(reversed(st)) + st, st + ''.join(reversed(st))]
        else:
            forms = [rng.choice('аяоуи')] + [self.letters(1, 1) for _ in range(2)]
        rng.shuffle(forms)
        base = self.tag_part(rng.randint(0, 2), pos)
        return self.add(base, [(f, [g for g in self.tag_part(rng.randint(0, 2)) if g not in base])
                               for f in forms])

    def fill(self, n, irregular=.25, min_stem=6):
        for _ in range(n):
            if self.rng.random() < irregular:
                self.irregular()
            else:
                self.regular(min_stem)

    def add_links(self, n, forest=True, types=None):
        """random links; forest: every lexeme has at most one parent, no cycles"""
        ids = list(self.lexemes)
        rng = self.rng
        types = types or [str(i) for i in range(1, 28)] + ['0', '28', '210', '77']
        parent = {}

        def root(x):
            while x in parent:
                x = parent[x]
            return x
        for _ in range(n * 3):
            if len(self.links) >= n:
                break
            a, b = rng.choice(ids), rng.choice(ids)
            t = rng.choice(types)
            if forest and t not in EXCLUDED:
                if a == b or b in parent or root(a) == root(b):
                    continue
                parent[b] = a
            self.links.append((a, b, t))

    # -- output ---------------------------------------------------------
    def to_xml(self, path, extra=''):
        out = ['<?xml version="1.0" encoding="utf-8" standalone="yes"?>',
               '<dictionary version="0.92" revision="%d">' % self.rng.randint(1, 10 ** 6), '<grammemes>']
        for n, par, al, ds in self.grammemes:
            out.append('<grammeme parent=%s><name>%s</name><alias>%s</alias><description>%s</description></grammeme>' % (
                quoteattr(par or ''), escape(n), escape(al or ''), escape(ds or '')))
        out += ['</grammemes>', '<restrictions></restrictions>', '<lemmata>']
        items = list(self.lexemes.items())
        for i, (base, forms) in items:
            if base is None:
                out.append('<lemma id="%s" rev="1"></lemma>' % i)
                continue
            gs = lambda x: ''.join('<g v=%s/>' % quoteattr(g) for g in x)
            out.append('<lemma id="%s" rev="1"><l t=%s>%s</l>%s</lemma>' % (
                i, quoteattr(forms[0][0]), gs(base),
                ''.join('<f t=%s>%s</f>' % (quoteattr(f), gs(g)) for f, g in forms)))
        out += ['</lemmata>', '<link_types></link_types>', '<links>']
        for k, (a, b, t) in enumerate(self.links):
            out.append('<link id="%d" from="%s" to="%s" type="%s"/>' % (k + 1, a, b, t))
        out += ['</links>', extra, '</dictionary>']
        with open(path, 'w', encoding='utf8') as f:
            f.write('\n'.join(out))

    @staticmethod
    def tag(base, gr):
        return (','.join(base) + ' ' + ','.join(gr)).strip()

    def plain(self):
        """id -> [(form, tag)] as written (lower-cased); dropped ones absent"""
        res = collections.OrderedDict()
        for i, (base, forms) in self.lexemes.items():
            if base is None or any(not base and not g for _, g in forms):
                continue
            res[i] = [(f.lower(), self.tag(base, g)) for f, g in forms]
        return res

    def merged(self, lex=None):
        """Forest links: [(own forms of the root, all forms)]"""
        lex = self.plain() if lex is None else lex
        parent = dict((b, a) for a, b, t in self.links if t not in EXCLUDED)

        def root(x):
            while x in parent:
                x = parent[x]
            return x
        groups = collections.OrderedDict()
        for i in lex:
            groups.setdefault(root(i), [])
        for i in lex:
            groups[root(i)].append(i)
        out = []
        for r, members in groups.items():
            forms = [f for i in members for f in lex[i]]
            if forms:
                out.append((list(lex.get(r, [])), forms, members))
        return out


def compile_toy(toy, out, xml=None, overwrite=False, lang='ru', **options):
    """Compile with the code under test; returns the XML path."""
    from pymorphy2.opencorpora_dict.compile import convert_to_pymorphy2
    xml = xml or out + '.xml'
    toy.to_xml(xml)
    opts = dict(paradigm_prefixes=list(toy.prefixes))
    opts.update(options)
    convert_to_pymorphy2(xml, out, 'toy', lang, overwrite=overwrite, compile_options=opts)
    return xml


def entries(d):
    """{(word, para, idx)} stored in a DictRef"""
    return set((w, v[0], v[1]) for w, v in d.iter_words(''))
