# -*- coding: utf-8 -*-
"""Cooperative scheduler: one thread at a time, switches at traced lines.

Every line (or, in a part of the schedules, every bytecode instruction) of the
code under test executed by a scheduled thread is a possible preemption point.  A thread which blocks (on a lock of the code
under test) loses its turn after a while, so locks cannot dead-lock the
scheduler; real deadlocks end in a timeout.
"""
import hashlib
import sys
import threading
import time


class Sched(object):
    ROOT = '/repo/pymorphy2/'

    def __init__(self, rng, fns, policy=None, patience=.08, limit=60, fine=None, focus=()):
        self.rng, self.fns, self.n = rng, fns, len(fns)
        self.guard = threading.Lock()
        self.wake = [threading.Semaphore(0) for _ in fns]
        self.alive = set(range(self.n))
        self.blocked = set()
        self.cur = None
        self.events = self.switches = self.steals = 0
        self.sig = hashlib.blake2b(digest_size=8)
        self.where = []
        self.errors = [None] * self.n
        self.patience, self.limit = patience, limit
        self.policy = policy or rng.choice(['random', 'often', 'park', 'park', 'pct', 'turns'])
        self.files = {}
        # preempt at instructions, not only at lines
        self.fine = rng.random() < .4 if fine is None else fine
        # preempt only in some of the files
        self.focus = rng.choice(list(focus)) if focus and rng.random() < .5 else ''
        fine = 3 if self.fine else 0
        p = self.policy
        if p == 'random':
            self.prob = rng.choice([.002, .01, .05]) / (5 if fine else 1)
        elif p == 'often':
            self.prob = rng.choice([.2, .5]) / (4 if fine else 1)
        elif p == 'park':
            # freeze one thread at a random moment, until the others are done
            self.victim = rng.randrange(self.n)
            self.park_at = int(2 ** rng.uniform(0, 11 + fine))
            self.seen = 0
            self.parked = None
        elif p == 'pct':
            self.prio = list(range(self.n))
            rng.shuffle(self.prio)
            self.change = sorted(int(2 ** rng.uniform(0, 12 + fine)) for _ in range(rng.randint(1, 4)))
        elif p == 'turns':
            self.quantum = rng.randint(1, 60 << fine)

    # called with the token held
    def choose(self, tid):
        p, rng = self.policy, self.rng
        live = sorted(self.alive - self.blocked) or sorted(self.alive)
        if tid not in live:
            return rng.choice(live)
        if p in ('random', 'often'):
            if rng.random() < self.prob:
                return rng.choice(live)
            return tid
        if p == 'park':
            if tid == self.victim and self.parked is None:
                self.seen += 1
                if self.seen >= self.park_at:
                    self.parked = tid
            if tid == self.parked:
                others = [x for x in live if x != tid]
                return rng.choice(others) if others else tid
            if rng.random() < .01:
                return rng.choice([x for x in live if x != self.parked] or [tid])
            return tid
        if p == 'pct':
            if self.change and self.events >= self.change[0]:
                self.change.pop(0)
                self.prio[tid] = min(self.prio) - 1
            return max(live, key=lambda x: self.prio[x])
        if self.events % self.quantum == 0:
            return live[(live.index(tid) + 1) % len(live)]
        return tid

    def point(self, tid, frame):
        if self.cur != tid:
            if tid in self.blocked:
                with self.guard:
                    self.blocked.discard(tid)
            self.wait(tid)
        with self.guard:
            if self.cur != tid:
                again = True
            else:
                again = False
                self.events += 1
                nxt = self.choose(tid)
                if nxt == tid:
                    return
                self.switches += 1
                loc = '%s:%d' % (frame.f_code.co_name, frame.f_lineno)
                if self.fine:
                    loc += '.%d' % frame.f_lasti
                self.sig.update(('%d %s>%d;' % (tid, loc, nxt)).encode('utf8'))
                if len(self.where) < 40:
                    self.where.append('%d@%s' % (tid, loc))
                self.cur = nxt
                self.wake[nxt].release()
        if again:
            return self.point(tid, frame)
        self.wait(tid)

    def wait(self, tid):
        while True:
            last = self.events
            got = self.wake[tid].acquire(timeout=self.patience)
            with self.guard:
                if self.cur == tid:
                    return
                if not got and self.events == last:
                    # the holder is blocked or busy in foreign code
                    self.steals += 1
                    self.blocked.add(self.cur)
                    self.blocked.discard(tid)
                    self.cur = tid
                    return

    def tracer(self, tid):
        files, root = self.files, self.ROOT

        def local(frame, event, arg):
            if event == 'line' or event == 'opcode':
                self.point(tid, frame)
            return local

        def globl(frame, event, arg):
            fn = frame.f_code.co_filename
            ok = files.get(fn)
            if ok is None:
                ok = files[fn] = fn.startswith(root) and self.focus in fn
            if not ok:
                return None
            if self.fine:
                frame.f_trace_opcodes = True
            return local
        return globl

    def body(self, tid):
        self.wait_start(tid)
        sys.settrace(self.tracer(tid))
        try:
            self.fns[tid]()
        except BaseException as e:
            self.errors[tid] = e
        finally:
            sys.settrace(None)
            with self.guard:
                self.alive.discard(tid)
                if self.alive and self.cur == tid:
                    a = sorted(self.alive - self.blocked) or sorted(self.alive)
                    if self.policy == 'park' and len(a) > 1 and self.parked in a:
                        a.remove(self.parked)
                    self.cur = self.rng.choice(a)
                    self.wake[self.cur].release()

    def wait_start(self, tid):
        while True:
            self.wake[tid].acquire(timeout=self.patience)
            with self.guard:
                if self.cur == tid:
                    return

    def run(self):
        """True when all the threads have finished"""
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        with self.guard:
            self.cur = self.rng.randrange(self.n) if self.policy != 'park' else self.victim
            self.wake[self.cur].release()
        end = time.time() + self.limit
        for t in ts:
            t.join(max(0, end - time.time()))
        return not any(t.is_alive() for t in ts)


class Freeze(object):
    """Systematic exploration of one preemption: a call is stopped at every
    (kind of) line or instruction in turn, the others run, then it goes on."""

    def __init__(self, fine=False, focus='', root=Sched.ROOT, patience=5):
        self.fine, self.focus, self.root, self.patience = fine, focus, root, patience
        self.files = {}

    def tracer(self, seen):
        files = self.files

        def local(frame, event, arg):
            if event == 'line' or event == 'opcode':
                c = frame.f_code
                seen((c.co_filename, c.co_name, frame.f_lineno, frame.f_lasti if self.fine else -1))
            return local

        def globl(frame, event, arg):
            fn = frame.f_code.co_filename
            ok = files.get(fn)
            if ok is None:
                ok = files[fn] = fn.startswith(self.root) and self.focus in fn
            if not ok:
                return None
            if self.fine:
                frame.f_trace_opcodes = True
            return local
        return globl

    def points(self, fn):
        """{location: number of times it is reached}, in order"""
        locs = {}

        def seen(loc):
            locs[loc] = locs.get(loc, 0) + 1
        sys.settrace(self.tracer(seen))
        try:
            fn()
        finally:
            sys.settrace(None)
        return locs

    def pick(self, rng, locs, n, per=2):
        """n points, every location once before any of them twice"""
        out = []
        for i in range(per):
            part = []
            for loc, k in locs.items():
                if i < k:
                    part.append((loc, 1 if i == 0 and rng.random() < .6 else rng.randint(1, k)))
            rng.shuffle(part)
            out += part
        return out[:n]

    def run(self, first, second, loc, nth):
        """-> None when the threads did not finish, else dict(hit=..., blocked=..., errors=[...])"""
        go, stopped = threading.Event(), threading.Event()
        left, hit, errors = [nth], [], []

        def seen(at):
            if at == loc:
                left[0] -= 1
                if left[0] == 0:
                    hit.append(at)
                    stopped.set()
                    go.wait(60)

        def one():
            sys.settrace(self.tracer(seen))
            try:
                first()
            except BaseException as e:
                errors.append(e)
            finally:
                sys.settrace(None)
                stopped.set()

        def two():
            try:
                second()
            except BaseException as e:
                errors.append(e)
        a = threading.Thread(target=one, daemon=True)
        b = threading.Thread(target=two, daemon=True)
        a.start()
        stopped.wait(60)
        b.start()
        b.join(self.patience)
        blocked = b.is_alive()      # waits for a lock of the stopped call
        go.set()
        a.join(60)
        b.join(60)
        if a.is_alive() or b.is_alive():
            return None
        return dict(hit=bool(hit), blocked=blocked, errors=errors)
