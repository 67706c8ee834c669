# -*- coding: utf-8 -*-
"""The parts of NLTK 3 pymorphy2 uses, with NLTK's documented semantics."""
import collections


class FreqDist(collections.Counter):
    def N(self):
        return sum(self.values())

    def B(self):
        return len(self)

    def samples(self):
        return list(self.keys())


class ConditionalFreqDist(collections.defaultdict):
    def __init__(self, cond_samples=None):
        super(ConditionalFreqDist, self).__init__(FreqDist)
        for cond, sample in cond_samples or ():
            self[cond][sample] += 1

    def conditions(self):
        return list(self.keys())

    def N(self):
        return sum(fd.N() for fd in self.values())


class LaplaceProbDist(object):
    def __init__(self, freqdist, bins=None):
        if bins is not None and bins < freqdist.B():
            raise ValueError('The number of bins in a probability distribution (%d) must be greater than or equal to '
                             'the number of bins in the FreqDist used to create it (%d).' % (bins, freqdist.B()))
        self._freqdist = freqdist
        self._bins = freqdist.B() if bins is None else bins

    def freqdist(self):
        return self._freqdist

    def prob(self, sample):
        return (self._freqdist[sample] + 1.0) / (self._freqdist.N() + self._bins)


class ConditionalProbDist(dict):
    def __init__(self, cfdist, probdist_factory, *args, **kw):
        for c in cfdist:
            self[c] = probdist_factory(cfdist[c], *args, **kw)

    def conditions(self):
        return list(self.keys())
