# -*- coding: utf-8 -*-
"""Independent reader of compiled dictionaries (does not import pymorphy2).

Only dawg_python is used: exact lookups and key enumeration, never the
"similar" lookups (substitutions are enumerated here by brute force).
"""
import glob
import itertools
import json
import os
import struct

import dawg_python


def ru_path():
    """The installed Russian dictionary (format 2.4, with P(t|w))."""
    c = sorted(glob.glob('/opt/venv*/lib/*/site-packages/pymorphy2_dicts_ru/data'))
    c.sort(key=lambda p: ('venv-slow' in p, p))
    return c[0]


def ru_old_path():
    c = sorted(glob.glob('/opt/venv*/lib/*/site-packages/pymorphy2_dicts/data'))
    return c[0] if c else None


def _json(path):
    with open(path, encoding='utf8') as f:
        return json.load(f)


class DictRef(object):
    def __init__(self, path, prediction=True, prob=True):
        self.path = path
        j = lambda n: os.path.join(path, n)
        self.meta = dict(_json(j('meta.json')))
        self.gramtab = _json(j('gramtab-opencorpora-int.json'))
        self.grammemes = [tuple(g) for g in _json(j('grammemes.json'))]
        self.suffixes = _json(j('suffixes.json'))
        co = self.meta.get('compile_options') or {}
        if 'paradigm_prefixes' in co:
            self.prefixes = co['paradigm_prefixes']
            self.max_suffix = co['max_suffix_length']
        else:
            self.prefixes = _json(j('paradigm-prefixes.json'))
            self.max_suffix = self.meta['prediction_options']['max_suffix_length']
        with open(j('paradigms.array'), 'rb') as f:
            data = f.read()
        n, = struct.unpack_from('<H', data, 0)
        off, self.paradigms = 2, []
        for _ in range(n):
            ln, = struct.unpack_from('<H', data, off)
            nums = struct.unpack_from('<%dH' % ln, data, off + 2)
            off += 2 + 2 * ln
            m = ln // 3
            self.paradigms.append([
                (self.prefixes[nums[2 * m + i]], self.gramtab[nums[m + i]],
                 self.suffixes[nums[i]]) for i in range(m)])
        self.words = dawg_python.RecordDAWG(str('>HH')).load(j('words.dawg'))
        self.pred = []
        if prediction:
            for i in range(len(self.prefixes)):
                self.pred.append(dawg_python.RecordDAWG(str('>HHH')).load(
                    j('prediction-suffixes-%d.dawg' % i)))
        self.ptw = None
        fn = j('p_t_given_w.intdawg')
        if prob and self.meta.get('P(t|w)'):
            self.ptw = dawg_python.IntCompletionDAWG().load(fn)

    # -- primitive facts ------------------------------------------------
    def exact(self, word):
        """[(para_id, idx)] recorded for exactly this spelling"""
        return self.words.get(word) or []

    def iter_words(self, prefix=''):
        return self.words.iteritems(prefix)

    def tag(self, para, idx):
        return self.paradigms[para][idx][1]

    def stem(self, word, para, idx):
        pref, _, suf = self.paradigms[para][idx]
        assert word.startswith(pref) and word.endswith(suf), (word, para, idx)
        return word[len(pref):len(word) - len(suf)]

    def normal_form(self, word, para, idx):
        if idx == 0:
            return word
        pref, _, suf = self.paradigms[para][0]
        return pref + self.stem(word, para, idx) + suf

    def lexeme(self, word, para, idx):
        stem = self.stem(word, para, idx)
        return [(p + stem + s, t) for p, t, s in self.paradigms[para]]

    def prob(self, word, tag):
        if self.ptw is None:
            return 0.0
        return self.ptw.get('%s:%s' % (word, tag), 0) / 1000000.0

    def variants(self, word, subst):
        """All spellings `word` may stand for: any subset of substitutions."""
        pos = [i for i, ch in enumerate(word) if ch in subst]
        if len(pos) > 11:
            raise TooManyVariants(word)
        out = []
        for n in range(len(pos) + 1):
            for comb in itertools.combinations(pos, n):
                w = list(word)
                for i in comb:
                    w[i] = subst[w[i]]
                out.append(''.join(w))
        return out


class TooManyVariants(Exception):
    pass


def tag_grammemes(tag):
    """Grammeme list of a tag string (lexeme part, one space, form part)."""
    return tag.replace(' ', ',', 1).split(',')


NON_PRODUCTIVE = frozenset(['NUMR', 'NPRO', 'PRED', 'PREP', 'CONJ', 'PRCL',
                            'INTJ', 'Apro'])
POS = frozenset('NOUN ADJF ADJS COMP VERB INFN PRTF PRTS GRND NUMR ADVB NPRO '
                'PRED PREP CONJ PRCL INTJ'.split())


def is_productive(tag):
    return not NON_PRODUCTIVE.intersection(tag_grammemes(tag))
