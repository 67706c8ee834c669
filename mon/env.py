# -*- coding: utf-8 -*-
"""Shared set-up for legs: the analyzer under test, the model, a workload."""
import time

from mon.dictref import DictRef, ru_path, ru_old_path, TooManyVariants  # noqa
from mon.model import Model, obs, diff_parses, lang_config  # noqa
from mon.gen import Words, Tokens  # noqa


class Env(object):
    def __init__(self, ctx, path=None, lang='ru', words=True, model=True,
                 prefixes=12, maxper=4000, deep=2, **kw):
        import pymorphy2
        self.ctx = ctx
        self.path = path or ru_path()
        self.lang = lang
        self.morph = pymorphy2.MorphAnalyzer(path=self.path, **kw)
        self.cfg = lang_config(lang)
        if model:
            self.model = Model(self.path, lang)
            self.d = self.model.d
        elif words:
            self.d = DictRef(self.path, prediction=False)
        if words:
            self.words = Words(self.d, ctx.rng, prefixes, maxper, deep)
            self.tokens = Tokens(self.words, ctx.rng, self.cfg)

    def stream(self, kinds, n, budget=None):
        """n tokens round-robin over the kinds (stops after budget seconds,
        but only once every kind has been used often enough)."""
        t0 = time.time()
        for i in range(n):
            kind = kinds[i % len(kinds)]
            tok = self.tokens.gen(kind)
            self.ctx.current = (kind, tok)
            yield kind, tok
            if budget and i > 20 * len(kinds) and time.time() - t0 > budget:
                break

    def expected(self, tok):
        try:
            return self.model.parse(tok)
        except TooManyVariants:
            return None



def sweep(d, shard, nshards):
    """All (word, [(para, idx), ...]) of this shard, grouped by word.

    The shards partition the dictionary by the first two characters; the
    number of visited keys is checked by the caller against the key count
    recorded in the dictionary's metadata, so a missed part cannot go unseen.
    """
    import zlib
    from mon.gen import CYR, LAT
    alpha = sorted(set(CYR + 'ґєії' + LAT + '0123456789-\'.,ʼ’+%№'))
    for a in alpha:
        if zlib.crc32(a.encode('utf8')) % nshards == shard and a in d.words:
            yield a, list(d.exact(a))
        for b in alpha:
            if zlib.crc32((a + b).encode('utf8')) % nshards != shard:
                continue
            cur, vals = None, []
            for w, v in d.iter_words(a + b):
                if w != cur:
                    if cur is not None:
                        yield cur, vals
                    cur, vals = w, []
                vals.append(v)
            if cur is not None:
                yield cur, vals
