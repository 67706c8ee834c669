# -*- coding: utf-8 -*-
"""Executable reference model of the analysis pipeline.

Written from the documented algorithm (docs/internals, docs/user/guide) over
DictRef; imports nothing from pymorphy2.  Known prefixes, particles etc. come
from a committed snapshot (lang_config.json).
"""
import json
import os
import re
import unicodedata

from mon.dictref import DictRef, TooManyVariants, tag_grammemes, is_productive, POS

_CFG = None


def lang_config(lang):
    global _CFG
    if _CFG is None:
        fn = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lang_config.json')
        with open(fn, encoding='utf8') as f:
            _CFG = json.load(f)
    return _CFG[{'ru-old': 'ru'}.get(lang, lang)]


ROMAN = re.compile('M{0,4}(CM|CD|D?C{0,3})(XC|XL|L?X{0,3})(IX|IV|V?I{0,3})\\Z', re.I | re.A)

FEATURES = frozenset(
    list(POS) + ['sing', 'plur'] +
    'nomn gent datv accs ablt loct voct gen1 gen2 acc2 loc1 loc2'.split() +
    ['1per', '2per', '3per', 'pres', 'past', 'futr'])
CASES6 = ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct']
NAME = 'NOUN,anim,%s,Sgtm,Name,Fixd,Abbr,Init sing,%s'
PATR = 'NOUN,anim,%s,Sgtm,Patr,Fixd,Abbr,Init sing,%s'


# scores, score multipliers and length limits of the rules
PARAMS = dict(AbbrName=.1, AbbrPatr=.1, Number=.9, Punct=.9, Roman=.9, Latin=.9, Particle=.9, Adverb=.7, Hyphenated=.75,
              KnownPrefix=.75, UnknownPrefix=.5, KnownSuffix=.5, min_remainder=3, min_word=4)


class A(object):
    """One analysis.

    kind: list of steps, innermost first, e.g. ['Dict', 'KnownPrefix'].
    lex: () -> [(word, tag, normal_form)].  stack: structural identity.
    """
    __slots__ = ('word', 'tag', 'nf', 'score', 'lex', 'kind', 'stack')

    def __init__(self, word, tag, nf, score, lex, kind, stack):
        self.word, self.tag, self.nf, self.score = word, tag, nf, score
        self.lex, self.kind, self.stack = lex, kind, stack

    def key(self):
        return (self.word, self.tag, self.nf)

    def dedup(self):
        st = self.stack[0]
        return (self.word, self.tag, st[1:] if st[0] == 'HW' else st[2] if len(st) > 2 else None)

    def __repr__(self):
        return 'A(%r, %r, %r, %.4f, %s)' % (self.word, self.tag, self.nf, self.score, '+'.join(self.kind))


def is_number(token):
    try:
        int(token)
        return 'intg'
    except ValueError:
        try:
            float(token.replace(',', '.'))
            if token.strip().lstrip('+-').isdigit():
                return 'intg'       # int() has a limit of digits
            return 'real'
        except ValueError:
            return None


def is_punct(token):
    return (token != '' and not token.isspace() and
            all(unicodedata.category(c).startswith('P') for c in token if not c.isspace()))


def is_latin(token):
    letters = [c for c in token if c.isalpha()]
    return bool(letters) and all('LATIN' in unicodedata.name(c, '') for c in letters)


class Model(object):
    def __init__(self, path, lang='ru', prob=True, subst=None, groups=None, cfg=None, params=None):
        self.q = dict(PARAMS, **(params or {}))
        self.d = DictRef(path) if not isinstance(path, DictRef) else path
        self.cfg = cfg or lang_config(lang)
        self.prefixes = self.cfg['prefixes']
        self.skip_prefixes = self.cfg.get('skip_prefixes', self.prefixes)
        self.particles = self.cfg['particles']
        self.letters = set(self.cfg['letters'])
        self.subst = self.cfg['subst'] if subst is None else subst
        self.groups = groups or self.cfg['groups']
        self.use_prob = prob and self.d.ptw is not None
        self.memo = {}

    # -- entry ------------------------------------------------------------
    def parse(self, word):
        r = self.memo.get(word)
        if r is None:
            r = self._parse(word)
            if len(self.memo) > 20000:
                self.memo.clear()
            self.memo[word] = r
        return r

    def _parse(self, word):
        low = word.lower()
        seen = set()
        res = []
        for group in self.groups:
            for unit in group:
                res.extend(getattr(self, 'u_' + unit)(word, low, seen))
            if res:
                break
        return self._scored(low, res)

    def _scored(self, low, res):
        if not self.use_prob or not res:
            return res
        probs = [self.d.prob(low, a.tag) for a in res]
        if sum(probs) == 0:
            tot = sum(a.score for a in res) or 1
            return [self._rescored(a, a.score / tot) for a in res]
        out = [self._rescored(a, p) for a, p in zip(res, probs)]
        out.sort(key=lambda a: -a.score)
        return out

    @staticmethod
    def _rescored(a, s):
        return A(a.word, a.tag, a.nf, s, a.lex, a.kind, a.stack)

    # -- dictionary -------------------------------------------------------
    def lookup(self, low):
        """[(spelling, para, idx)]"""
        return [(v, p, i) for v in self.d.variants(low, self.subst)
                for p, i in self.d.exact(v)]

    def _dict_analysis(self, w, para, idx, score=1.0, name='D'):
        d = self.d
        nf = d.normal_form(w, para, idx)
        return A(w, d.tag(para, idx), nf, score,
                 lambda: [(lw, lt, nf) for lw, lt in d.lexeme(w, para, idx)],
                 ['Dict'], ((name, w, para, idx),))

    def u_Dict(self, word, low, seen):
        return [self._dict_analysis(w, p, i) for w, p, i in self.lookup(low)]

    def _self_lex(self, w, tag, nf):
        return lambda: [(w, tag, nf)]

    def _single(self, word, low, tag, score, kind):
        return A(low, tag, low, score, self._self_lex(low, tag, low), [kind],
                 ((kind, word),))

    def u_AbbrName(self, word, low, seen):
        if word not in self.letters:
            return []
        res = []
        for g in ('masc', 'femn'):
            forms = [(low, NAME % (g, c), low) for c in CASES6]
            for f in forms:
                res.append(A(low, f[1], low, self.q['AbbrName'], (lambda forms=forms: forms),
                             ['AbbrName'], (('AbbrName', word),)))
        return res

    def u_AbbrPatr(self, word, low, seen):
        if word not in self.letters:
            return []
        forms = [(low, PATR % (g, c), low) for g in ('masc', 'femn') for c in CASES6]
        return [A(low, f[1], low, self.q['AbbrPatr'], (lambda: forms), ['AbbrPatr'],
                  (('AbbrPatr', word),)) for f in forms]

    # -- shapes -----------------------------------------------------------
    def u_Number(self, word, low, seen):
        s = is_number(word)
        return [self._single(word, low, 'NUMB,' + s, self.q['Number'], 'Number')] if s else []

    def u_Punct(self, word, low, seen):
        return [self._single(word, low, 'PNCT', self.q['Punct'], 'Punct')] if is_punct(word) else []

    def u_Roman(self, word, low, seen):
        return [self._single(word, low, 'ROMN', self.q['Roman'], 'Roman')] if word and ROMAN.match(word) else []

    def u_Latin(self, word, low, seen):
        return [self._single(word, low, 'LATN', self.q['Latin'], 'Latin')] if is_latin(word) else []

    def u_Unkn(self, word, low, seen):
        return [self._single(word, low, 'UNKN', 1.0, 'Unkn')]

    # -- hyphens ----------------------------------------------------------
    def _wrap(self, a, pre, post, mult, kind):
        base = a.lex

        def lex():
            return [(pre + w + post, t, pre + n + post) for w, t, n in base()]
        return A(pre + a.word + post, a.tag, pre + a.nf + post, a.score * mult,
                 lex, a.kind + [kind], a.stack + ((kind, pre + post),))

    def u_Particle(self, word, low, seen):
        for part in self.particles:
            if low.endswith(part) and len(low) > len(part):
                break
        else:
            return []
        res = []
        for a in self.parse(low[:-len(part)]):
            self._add(res, seen, self._wrap(a, '', part, self.q['Particle'], 'Particle'))
        return res

    @staticmethod
    def _add(res, seen, a):
        k = a.dedup()
        if k not in seen:
            seen.add(k)
            res.append(a)

    def u_Adverb(self, word, low, seen):
        if len(low) < 5 or not low.startswith('по-'):
            return []
        for a in self.parse(low[3:]):
            if {'ADJF', 'sing', 'datv'}.issubset(tag_grammemes(a.tag)):
                return [self._single(word, low, 'ADVB', self.q['Adverb'], 'Adverb')]
        return []

    @staticmethod
    def _features(tag):
        f = FEATURES.intersection(tag_grammemes(tag))
        return frozenset({'gen1': 'gent', 'loc1': 'loct'}.get(g, g) for g in f)

    @staticmethod
    def _unknown_pos(tag):
        return tag_grammemes(tag)[0] not in POS

    def u_Hyphenated(self, word, low, seen):
        if low.count('-') != 1 or low[0] == '-' or low[-1] == '-':
            return []
        if any(low.startswith(p) for p in self.skip_prefixes):
            return []
        left, right = low.split('-')
        lp, rp = self.parse(left), self.parse(right)
        res = []
        for l in lp:
            if self._unknown_pos(l.tag):
                continue
            for r in rp:
                if self._features(l.tag) == self._features(r.tag):
                    res.append(A(l.word + '-' + r.word, l.tag, l.nf + '-' + r.nf,
                                 l.score * self.q['Hyphenated'], self._both_lex(l, r), ['Both'],
                                 (('HW', l.stack, r.stack),)))
        for r in rp:
            if self._unknown_pos(r.tag):
                continue
            res.append(A(left + '-' + r.word, r.tag, left + '-' + r.nf,
                         r.score * self.q['Hyphenated'], self._fixed_lex(left, r),
                         r.kind + ['FixedLeft'], (('HW', left, r.stack),)))
        return res

    @staticmethod
    def _fixed_lex(left, r):
        return lambda: [(left + '-' + w, t, left + '-' + n) for w, t, n in r.lex()]

    @staticmethod
    def _both_lex(l, r):
        same = {'V-oy': 'V-ey', 'gen1': 'gent', 'loc1': 'loct'}

        def gr(tag):
            return frozenset(same.get(g, g) for g in tag_grammemes(tag))

        def lex():
            ll, out = l.lex(), []
            for rw, rt, rn in r.lex():
                best = min(ll, key=lambda f: len(gr(f[1]) ^ gr(rt)))
                out.append((best[0] + '-' + rw, best[1], best[2] + '-' + rn))
            return out
        return lex

    # -- prediction ---------------------------------------------------------
    def u_KnownPrefix(self, word, low, seen):
        res = []
        for p in sorted((p for p in set(self.prefixes) if low.startswith(p)),
                        key=lambda p: -len(p)):
            rest = low[len(p):]
            if len(rest) < self.q['min_remainder']:
                continue
            for a in self.parse(rest):
                if is_productive(a.tag):
                    self._add(res, seen, self._wrap(a, p, '', self.q['KnownPrefix'], 'KnownPrefix'))
        return res

    def u_UnknownPrefix(self, word, low, seen):
        res = []
        for i in range(1, min(5, len(low) - 3) + 1):
            for w, p, x in self.lookup(low[i:]):
                a = self._dict_analysis(w, p, x)
                if is_productive(a.tag):
                    self._add(res, seen, self._wrap(a, low[:i], '', self.q['UnknownPrefix'], 'UnknownPrefix'))
        return res

    def u_KnownSuffix(self, word, low, seen):
        if len(word) < self.q['min_word']:
            return []
        d = self.d
        out = []
        for pid in reversed(range(len(d.prefixes))):
            if not low.startswith(d.prefixes[pid]):
                continue
            total, found = 1, []
            for n in range(d.max_suffix, 0, -1):
                start, end = low[:-n], low[-n:]
                for v in d.variants(end, self.subst):
                    for cnt, para, idx in (d.pred[pid].get(v) or []):
                        if not is_productive(d.tag(para, idx)):
                            continue
                        total += cnt
                        w = start + v
                        k = (w, d.tag(para, idx), para)
                        if k in seen:
                            continue
                        pref, _, suf = d.paradigms[para][idx]
                        if len(w) < len(pref) + len(suf) or not w.startswith(pref):
                            # the written ending reaches into the prefix: what
                            # its stem is, no documentation says
                            raise TooManyVariants()
                        seen.add(k)
                        found.append((cnt, w, para, idx, v))
                if total > 1:
                    break
            for cnt, w, para, idx, v in found:
                a = self._dict_analysis(w, para, idx, cnt / float(total) * self.q['KnownSuffix'], 'F')
                a.kind = ['KnownSuffix']
                a.stack = a.stack + (('KS', v),)
                out.append(a)
        return out


# ---------------------------------------------------------------------------

def obs(parses):
    """Real Parse objects -> [(word, tag string, normal form, score)]."""
    return [(p[0], str(p[1]), p[2], p[3]) for p in parses]


def diff_parses(real, model, tol=1e-6, scores=True):
    """None if the multiset of analyses agrees, else a description."""
    a = sorted((w, t, n, round(s, 9) if scores else 0) for w, t, n, s in real)
    b = sorted((m.word, m.tag, m.nf, round(m.score, 9) if scores else 0) for m in model)
    if len(a) == len(b) and all(
            x[:3] == y[:3] and abs(x[3] - y[3]) <= tol for x, y in zip(a, b)):
        return None
    sa, sb = list(a), list(b)
    for x in list(sa):
        for y in sb:
            if x[:3] == y[:3] and abs(x[3] - y[3]) <= tol:
                sa.remove(x)
                sb.remove(y)
                break
    if not sa and not sb:
        return None
    return 'unexpected: %r missing: %r' % (sa[:5], sb[:5])
