# -*- coding: utf-8 -*-
"""Runs one leg of one check inside a venv and writes its report."""
import faulthandler
import importlib
import json
import os
import random
import sys
import threading
import time
import traceback
import hashlib


# multiplies what a quick run samples (used while calibrating, too)
QUICK = 2


class StopLeg(Exception):
    pass


def h64(key):
    if not isinstance(key, (bytes, str)):
        key = repr(key)
    if isinstance(key, str):
        key = key.encode('utf8', 'surrogatepass')
    return int.from_bytes(hashlib.blake2b(key, digest_size=7).digest(), 'big')


class Ctx(object):
    MAX_VIOL = 60

    def __init__(self, check, leg, shard, nshards, seed, tier, work):
        self.check, self.leg, self.shard, self.nshards = check, leg, shard, nshards
        self.seed, self.tier, self.work = seed, tier, work
        self.quick = tier != 'thorough'
        self.rng = random.Random('%s/%s/%s/%d' % (seed, check, leg, shard))
        # same stream in every shard of the leg / in every leg
        self.leg_rng = random.Random('%s/%s/%s' % (seed, check, leg))
        self.evaluations = 0
        self.nt_bulk = 0
        self._nt = set()
        self.counters = {}
        self.samples = []
        self.violations = []
        self.nviol = 0
        self.require_ = {}
        self.problem = None
        self.dump = None
        self._vkeys = {}

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def budget(self, quick, thorough):
        """ How much to sample (iterations or seconds) """
        return quick * QUICK if self.quick else thorough

    def ev(self, n=1):
        self.evaluations += n

    def nt(self, key):
        if len(self._nt) < 400000:
            self._nt.add(h64(key))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def require(self, name, n=1):
        """The merged counter has to reach n, or the run is inconclusive."""
        self.require_[name] = n
        self.counters.setdefault(name, 0)

    def sample(self, obj, every=1):
        if len(self.samples) < 6:
            self.samples.append(obj)

    def violation(self, key, msg, **detail):
        self.nviol += 1
        n = self._vkeys.get(key, 0)
        self._vkeys[key] = n + 1
        if n < 8:
            self.violations.append(dict(key=key, msg=str(msg), detail=detail))
        if len(self.violations) >= self.MAX_VIOL or self.nviol > 2000:
            raise StopLeg()

    def check_that(self, cond, key, msg, **detail):
        if not cond:
            self.violation(key, msg, **detail)
        return cond

    def report(self):
        return dict(evaluations=self.evaluations, nt_bulk=self.nt_bulk,
                    nt=sorted(self._nt), counters=self.counters,
                    samples=self.samples, violations=self.violations,
                    nviol=self.nviol, require=self.require_,
                    problem=self.problem, dump=self.dump)


def from_repo(tb):
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if '/repo/pymorphy2/' in fn:
            return True
        tb = tb.tb_next
    return False


HANG = 150.0        # seconds inside one operation of the code under test


def watchdog(ctx, out, main_id):
    """A call that is still inside the library after HANG seconds (normal
    calls take milliseconds) without any progress of the workload never
    returns: report it and end the leg."""
    last, stuck, t0 = None, 0, time.time()
    dump = open(out + '.stuck', 'w')
    while True:
        # a call which never leaves native code (a regular expression) stops
        # this thread, too: then the stacks are dumped from outside of the
        # interpreter, and run.py takes over
        faulthandler.dump_traceback_later(HANG, file=dump)
        time.sleep(5)
        dump.seek(0)
        dump.truncate()
        dump.write('case: %.500r\n' % (getattr(ctx, 'current', None),))
        dump.flush()
        now = (ctx.evaluations, ctx.nviol, len(ctx._nt), getattr(ctx, 'current', None),
               sum(ctx.counters.copy().values()))
        frame = sys._current_frames().get(main_id)
        fns = []
        while frame is not None:
            fns.append('%s:%s %s' % (frame.f_code.co_filename, frame.f_lineno, frame.f_code.co_name))
            frame = frame.f_back
        if now != last or not any('/repo/pymorphy2/' in f for f in fns):
            last, stuck, t0 = now, 0, time.time()
            continue
        stuck += 1
        if stuck >= 20 and time.time() - t0 > HANG:
            ctx.nviol += 1
            ctx.violations.append(dict(
                key='hang', msg='a call does not return (%d s): %s' % (time.time() - t0, '; '.join(fns[:6])),
                detail=dict(case=repr(getattr(ctx, 'current', None)))))
            with open(out, 'w', encoding='utf8', errors='surrogatepass') as f:
                json.dump(ctx.report(), f)
            os._exit(0)


MALFORMED = (AttributeError, IndexError, KeyError, TypeError, ValueError, AssertionError)


def main():
    check, leg, shard, nshards, seed, tier, out, work = sys.argv[1:]
    import warnings
    warnings.simplefilter('ignore')
    ctx = Ctx(check, leg, int(shard), int(nshards), int(seed), tier, work)
    mod = importlib.import_module('mon.checks.' + check.lower())
    rc = 0
    t = threading.Thread(target=watchdog, args=(ctx, out, threading.get_ident()))
    t.daemon = True
    t.start()
    try:
        mod.run(ctx)
    except StopLeg:
        pass
    except Exception as e:
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        if from_repo(sys.exc_info()[2]):
            # the code under test raised where the workload does not allow it
            ctx.violations.append(dict(
                key='exception', msg='unexpected %s\n%s' % (repr(e), tb[-1500:]),
                detail=dict(case=repr(getattr(ctx, 'current', None)))))
            ctx.nviol += 1
        elif isinstance(e, MALFORMED) and ctx.evaluations:
            # the monitor cannot even process what the library returned
            # (None, a wrong type, a missing or malformed value)
            ctx.violations.append(dict(
                key='malformed', msg='observed values are malformed: %r\n%s' % (e, tb[-1500:]),
                detail=dict(case=repr(getattr(ctx, 'current', None)))))
            ctx.nviol += 1
        else:
            ctx.problem = 'harness error: ' + tb[-1500:]
            rc = 3
    with open(out, 'w', encoding='utf8', errors='surrogatepass') as f:
        json.dump(ctx.report(), f)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
