# -*- coding: utf-8 -*-
"""CorpusReader over a JSON-lines file: [word, [[lemma, tag], ...]] each."""
import io
import json


class CorpusReader(object):
    def __init__(self, filename):
        self.filename = filename

    def iter_parsed_words(self):
        with io.open(self.filename, encoding='utf8') as f:
            for line in f:
                w, parses = json.loads(line)
                yield w, [tuple(p) for p in parses]
