# -*- coding: utf-8 -*-
"""Importable custom classes for analyzers which are pickled (C26)."""
import pymorphy2
from pymorphy2 import units
from pymorphy2.units.base import BaseAnalyzerUnit
from pymorphy2.analyzer import Parse, ProbabilityEstimator


class MyParse(Parse):
    def shout(self):
        return self.word.upper()


class Flat(ProbabilityEstimator):
    """every analysis is equally probable"""

    def __init__(self, dict_path):
        self.path = dict_path

    def apply_to_parses(self, word, word_lower, parses):
        return [p[:3] + (1.0 / len(parses),) + p[4:] for p in reversed(parses)]

    def apply_to_tags(self, word, word_lower, tags):
        return list(reversed(tags))


class Suffixed(units.DictionaryAnalyzer):
    """custom unit with parameters"""

    def __init__(self, cut=1, note=None):
        self.cut = cut
        self.note = note

    def parse(self, word, word_lower, seen):
        if len(word) < self.cut + 1 or not word.endswith('q' * self.cut):
            return []
        return super(Suffixed, self).parse(word[:-self.cut], word_lower[:-self.cut], seen)


def pipelines():
    u = units
    pre = ['супер', 'q', 'не']
    return [
        None,
        [u.DictionaryAnalyzer()],
        [[u.DictionaryAnalyzer(), u.KnownSuffixAnalyzer(min_word_length=3, score_multiplier=0.25)]],
        [u.DictionaryAnalyzer(), u.NumberAnalyzer(score=0.5), u.PunctuationAnalyzer(), [u.RomanNumberAnalyzer(), u.LatinAnalyzer(score=.1)],
         u.KnownPrefixAnalyzer(known_prefixes=pre, score_multiplier=.6, min_remainder_length=2),
         [u.UnknownPrefixAnalyzer(score_multiplier=.3), u.KnownSuffixAnalyzer()], u.UnknAnalyzer()],
        [u.DictionaryAnalyzer(), [Suffixed(cut=2, note={'a': [1]}), Suffixed()],
         u.HyphenSeparatedParticleAnalyzer(particles_after_hyphen=['-то', '-ка'], score_multiplier=.5),
         u.HyphenatedWordsAnalyzer(skip_prefixes=pre, score_multiplier=.4), u.UnknAnalyzer()],
        (u.DictionaryAnalyzer(), [u.AbbreviatedFirstNameAnalyzer(u'АБВ', score=.7), u.AbbreviatedPatronymicAnalyzer(u'АБ')],
         u.HyphenAdverbAnalyzer(score_multiplier=.2), u.UnknAnalyzer()),
    ]


def configs(path):
    subs = ['auto', None, {}, {u'е': u'ё'}, {u'а': u'о', u'e': u'е'}]
    out = []
    for rt in ('default', None, MyParse):
        for pi, ps in enumerate(pipelines()):
            for est in ('auto', None, Flat):
                for s in subs:
                    kw = dict(path=path)
                    if rt != 'default':
                        kw['result_type'] = rt
                    if ps is not None:
                        kw['units'] = ps
                    if est != 'auto':
                        kw['probability_estimator_cls'] = est
                    if s != 'auto':
                        kw['char_substitutes'] = s
                    out.append(kw)
    return out


def view(m, words):
    """comparable results of an analyzer of any configuration"""
    from mon import ops
    out = [repr(m._units_unbound) if hasattr(m, '_units_unbound') else '']
    for w in words:
        try:
            ps = m.parse(w)
            row = [[p[0], str(p[1]), p[2], round(p[3], 9), repr(p[4])] for p in ps]
            row += [[str(t) for t in m.tag(w)], m.normal_forms(w), m.word_is_known(w), m.word_is_known(w, strict=True)]
            for p in ps[:2]:
                row.append([[f[0], str(f[1]), f[2]] for f in m.get_lexeme(p)])
                if isinstance(p, Parse):
                    row.append(p.inflect(set(['plur'])) and ops.parse_obs(p.inflect(set(['plur']))))
                if isinstance(p, MyParse):
                    row.append([p.shout(), p.normalized.shout()])
            row.append([type(p).__name__ for p in ps[:1]])
        except Exception as e:
            row = ['raised', repr(e)[:200]]
        out.append(row)
    return out


# units which record how they are called (C33)
LOG = []


class RecordingUnit(BaseAnalyzerUnit):
    def __init__(self, ident, table):
        self.ident = ident
        self.table = table

    def _items(self, word, word_lower, call):
        LOG.append((self.ident, word, word_lower, self.morph, call))
        T = self.morph.TagClass
        return [(word_lower, T(t), nf, s, ((self, word),)) for t, nf, s in self.table.get(word, ())]

    def parse(self, word, word_lower, seen_parses):
        return self._items(word, word_lower, 'parse')

    def get_lexeme(self, form):
        T = self.morph.TagClass
        return [tuple(form), ('lex-%d' % self.ident, T('ADVB'), 'lex', 1.0, form[4])]

    def normalized(self, form):
        return ('norm-%d' % self.ident, self.morph.TagClass('ADVB'), 'norm', 1.0, form[4])


class RecordingTagUnit(RecordingUnit):
    def tag(self, word, word_lower, seen_tags):
        res = []
        for p in self._items(word, word_lower, 'tag'):
            if p[1] not in seen_tags:
                seen_tags.add(p[1])
                res.append(p[1])
        return res


class Mine(pymorphy2.analyzer.Parse):
    'a result type of the user'
    def shout(self):
        return self.word.upper()
