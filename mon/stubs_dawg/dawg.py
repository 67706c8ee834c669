# -*- coding: utf-8 -*-
"""Stand-in for the DAWG extension where it is not installed (CPython): the
files hold the sorted contents, which is all that C41 compares."""
import struct


class DAWG(object):
    def __init__(self, data=None):
        self._items = sorted(set((k, b'') for k in data or []))

    def iterkeys(self, prefix=''):
        return (k for k, v in self._items if k.startswith(prefix))

    def keys(self, prefix=''):
        return list(self.iterkeys(prefix))

    def prefixes(self, word):
        return [k for k, v in self._items if word.startswith(k)]

    def save(self, path):
        with open(path, 'wb') as f:
            f.write(b'\n'.join(k.encode('utf8') + b'=' + v for k, v in self._items))


class RecordDAWG(DAWG):
    def __init__(self, fmt, data=None):
        self._items = sorted(set((k, struct.pack(fmt, *v)) for k, v in data or []))


class IntCompletionDAWG(DAWG):
    def __init__(self, data=None):
        self._items = sorted((k, str(v).encode('utf8')) for k, v in dict(data or []).items())
