# -*- coding: utf-8 -*-
"""C23: threads sharing an analyzer get the results of a single thread."""
LEVEL = 'exploration'
RULE = ('2-4 threads call a freshly created (cold) shared analyzer, share parse results and tags; every executed line or bytecode '
        'of the library is a preemption point of a cooperative scheduler (random, round-robin, priority-change and '
        'freeze-one-thread policies), half of the schedules in forked processes with the library as freshly imported and with letters it has not seen; in the freeze legs a call is stopped at each '
        'distinct line or instruction it executes in turn, while another thread makes its calls; free-running stress on top.  Each result is compared with the result of the '
        'same call in a single thread.  Non-trivial = distinct interleavings (hash of all the context switches).')
ASSUMPTIONS = ['preemption points are Python lines or bytecode instructions of pymorphy2; switches inside the DAWG library '
               'are only covered by the free-running stress']


def legs(tier):
    return [dict(name='sched', venv='slow', shards=6, timeout=850),
            dict(name='sched-fast', venv='fast', shards=2, timeout=850),
            dict(name='freeze', venv='slow', shards=3, timeout=850),
            dict(name='freeze-fast', venv='fast', shards=1, timeout=850),
            dict(name='stress', venv='slow', shards=1, timeout=850),
            dict(name='stress-fast', venv='fast', shards=1, timeout=850)]


def prepare(scratch):
    from mon.subset import prepare as sub
    return {'SUBSET': sub(scratch)}


def tokens_of(ctx, path):
    from mon.env import Env
    return Env(ctx, path=path, prefixes=40)


PLAIN = ['parse', 'parse', 'tag', 'tag', 'nf', 'known', 'lexeme', 'normalized', 'taginfo', 'inflect', 'agree', 'chain', 'twice', 'iter',
         'cyr', 'newtag', 'text']


def freeze(ctx, rng, path, kin, pool, Freeze):
    """one call is stopped at each of its lines (instructions) in turn while another thread makes its calls"""
    import time
    import pymorphy2
    from mon import ops
    ref = pymorphy2.MorphAnalyzer(path=path)
    t0, budget = time.time(), ctx.scale(24, 600)
    pairs = 0
    ctx.require('stopped_calls', 150)
    ctx.require('call_pairs', 5)
    memo = {}

    def want(op):
        k = repr(op)
        if k not in memo:
            if len(memo) > 5000:
                memo.clear()
            memo[k] = ops.run(ref, op)
        return memo[k]

    def op_of(kind, name, some):
        w = rng.choice(some)
        for o in ops.make(rng, lambda: w, 400):
            if o[0] == name:
                return o

    def use(p):
        return [ops.tag_obs(p.tag), ops.lex_obs(p.lexeme), ops.parse_obs(p.normalized),
                [ops.parse_obs(x) for x in p.lexeme[:1]], p.is_known]
    m = pymorphy2.MorphAnalyzer(path=path)
    locations = set()
    kinds = sorted(kin)
    while time.time() - t0 < budget or pairs < 10:
        pairs += 1
        kind = rng.choice(kinds)
        other = kind if rng.random() < .7 else rng.choice(kinds)
        name = rng.choice(PLAIN)
        if rng.random() < .5:
            name = 'parse'
        oname = name if rng.random() < .6 else rng.choice(PLAIN)
        fine = rng.random() < .35
        fz = Freeze(fine=fine)
        r = rng.random()
        a = op_of(kind, name, kin[kind])
        # the same analysis used by both, one call each, or new words all the time
        how = 'shared' if r < .15 else 'new words' if r < .4 else 'same words'
        if how == 'shared':
            w = rng.choice(kin[kind])
            ps = m.parse(w)[:2]
            wanted = [use(p) for p in ref.parse(w)[:2]]
            locs = fz.points(lambda: [use(p) for p in m.parse(w)[:2]])
        else:
            locs = fz.points(lambda: ops.run(m, a))
        b = op_of(other, oname, kin[other])
        points = fz.pick(rng, locs, 220 if fine else 120)
        end = time.time() + max(2, budget / 10)
        for loc, nth in points:
            if time.time() > end:
                break
            if how == 'new words':
                a, b = op_of(kind, name, kin[kind]), op_of(other, oname, kin[other])
            got = {}
            if how == 'shared':
                if rng.random() < .3:
                    ps = m.parse(w)[:2]
                else:
                    ps = pymorphy2.MorphAnalyzer(path=path).parse(w)[:2] if rng.random() < .1 else ps

                def first():
                    got['a'] = [use(p) for p in ps]

                def second():
                    got['b'] = [use(p) for p in ps]
            else:
                def first():
                    got['a'] = ops.run(m, a)

                def second():
                    got['b'] = ops.run(m, b)
            if rng.random() < .04:
                m = pymorphy2.MorphAnalyzer(path=path)
            ctx.current = (how, a, b, loc, nth)
            v = fz.run(first, second, loc, nth)
            if v is None:
                ctx.violation('deadlock', '%s stopped at %r while %s runs: threads did not finish' % (a, loc, b))
                return
            if v['errors']:
                raise RuntimeError('thread body failed: %r' % v['errors'])
            for side, op in (('a', a), ('b', b)):
                ctx.ev()
                exp = wanted if how == 'shared' else want(op)
                if got[side] != exp:
                    ctx.violation('thread', '%s of the calls (%s) %r, stopped at %s:%d (time %d), and %r running meanwhile: %.500r, in a '
                                  'single thread %.500r' % ('first' if side == 'a' else 'second', how, a, loc[1], loc[2], nth, b, got[side], exp))
            if v['hit']:
                ctx.count('stopped_calls')
                locations.add(loc)
                ctx.nt((how, name, oname, kind, other) + loc[1:] + (nth,))
            if v['blocked']:
                ctx.count('calls_waiting_for_a_lock')
        ctx.count('call_pairs')
        ctx.count('pairs_' + how.replace(' ', '_'))
        ctx.sample(dict(first=repr(a), second=repr(b), locations=len(locs), stopped=len(points)))
    ctx.count('stopped_at_locations', len(locations))


def run(ctx):
    import os
    import sys
    import threading
    import time
    import unicodedata
    import pymorphy2
    import random
    from mon import ops
    from mon.forks import forked
    from mon.sched import Sched, Freeze
    path = os.environ['SUBSET']
    rng = ctx.rng

    def workload():
        env = tokens_of(ctx, path)
        kinds = [k for k in env.tokens.kinds if k not in ('sharp',)]
        kin = dict((k, [env.tokens.gen(k) for _ in range(12)]) for k in kinds)
        kin['word'] = [rng.choice(env.words.words) for _ in range(12)]
        return [env.tokens.gen(rng.choice(kinds)) for _ in range(60)] + [rng.choice(env.words.words) for _ in range(90)], kin
    # in another process: the library stays as it was imported
    st, pool = forked(workload, quiet=False)
    if st != 'ok':
        raise RuntimeError('workload: %s' % pool)
    # the same units work on the tokens of one kind
    pool, kin = pool

    def gen():
        return rng.choice(pool)
    memo = {}

    def expected(op):
        k = repr(op)
        if k not in memo:
            memo[k] = ops.run(ref, op)
        return memo[k]

    def verify(results, how):
        for tid, rs in enumerate(results):
            for op, got in rs:
                ctx.ev()
                want = expected(op)
                if got != want:
                    ctx.violation('thread', '%s: %s%r in a thread gives %.600r, in a single thread %.600r' % (
                        how, op[0], op[1], got, want))

    if ctx.leg.startswith('stress'):
        ref = pymorphy2.MorphAnalyzer(path=path)
        ctx.require('stress_calls', 1000)
        old = sys.getswitchinterval()
        for rnd in range(ctx.scale(12, 150)):
            m = pymorphy2.MorphAnalyzer(path=path)
            n = 8
            if rnd % 3 == 2:
                some = kin[rng.choice(sorted(kin))]
                lists = [ops.make(rng, lambda: rng.choice(some), 60) for _ in range(n)]
            else:
                lists = [ops.make(rng, gen, 60) for _ in range(n)]
            if rnd % 3 == 1:
                lists = [lists[0]] * n
            results = [[] for _ in range(n)]
            errs = []
            bar = threading.Barrier(n)

            def work(i):
                try:
                    bar.wait()
                    for op in lists[i]:
                        results[i].append((op, ops.run(m, op)))
                except BaseException as e:
                    errs.append(repr(e))
            sys.setswitchinterval(1e-5)
            try:
                ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
                [t.start() for t in ts]
                [t.join() for t in ts]
            finally:
                sys.setswitchinterval(old)
            if errs:
                ctx.violation('thread', 'thread ended with %s' % errs[:2])
            ctx.count('stress_calls', sum(map(len, results)))
            ctx.nt(('stress', ctx.leg, rnd))
            verify(results, 'stress')
        return
    if ctx.leg.startswith('freeze'):
        freeze(ctx, rng, path, kin, pool, Freeze)
        return
    ctx.require('schedules', 40)
    ctx.require('switches', 2000)
    ctx.require('shared_objects', 10)
    ctx.require('cold_schedules', 10)
    t0, budget = time.time(), ctx.scale(18, 600)
    rnd = 0
    letters = [chr(c) for c in range(0x80, 0x2fff) if chr(c).isalpha()] + [chr(c) for c in range(0xa640, 0xabff) if chr(c).isalpha()]
    latin = [c for c in letters if 'LATIN' in unicodedata.name(c, '')]

    def odd(r):
        """a token of letters nobody has seen before"""
        if r.random() < .5:
            return ''.join(r.choice(latin) for _ in range(r.choice([1, 3, 10, 30])))
        return ''.join(r.choice([r.choice(letters), r.choice(letters), r.choice('xqzйфь-1')]) for _ in range(r.randint(1, 5)))

    def schedule(seed, ref):
        r = random.Random(seed)
        bad, evs, nshared = [], 0, 0
        n = r.choice([2, 2, 2, 3, 4])
        m = pymorphy2.MorphAnalyzer(path=path)
        mode = r.choice(['same', 'same', 'mixed', 'words', 'shared', 'kin', 'kin'])
        hot = [odd(r) if r.random() < .3 else r.choice(pool) for _ in range(r.randint(1, 3))]
        if mode == 'kin' or r.random() < .3:
            some = kin[r.choice(sorted(kin))]
            hot = [r.choice(some) for _ in range(r.randint(2, 4))]
        if mode == 'same':
            one = ops.make(r, lambda: r.choice(hot), r.randint(1, 4))
            lists = [list(one) for _ in range(n)]
        elif mode == 'kin':
            # the plainest calls, each thread with its own tokens
            lists = [[(r.choice(['parse', 'parse', 'tag', 'nf']), [hot[i % len(hot)]])] * r.randint(1, 2) for i in range(n)]
            if r.random() < .4:
                k = r.choice(['lexeme', 'normalized', 'taginfo'])
                lists = [[(k, [hot[i % len(hot)], r.randint(0, 11)])] * r.randint(1, 2) for i in range(n)]
        elif mode == 'words':
            lists = [ops.make(r, lambda: r.choice(hot), r.randint(1, 5)) for _ in range(n)]
        else:
            lists = [ops.make(r, lambda: r.choice(pool), r.randint(1, 5)) for _ in range(n)]
        results = [[] for _ in range(n)]
        shared = [m.parse(w) for w in hot] if mode == 'shared' else []
        sh_results = [[] for _ in range(n)]

        def use(p):
            return [ops.tag_obs(p.tag), ops.lex_obs(p.lexeme), ops.parse_obs(p.normalized),
                    [ops.parse_obs(x) for x in p.lexeme[:1]], p.is_known]

        def mk(i):
            def f():
                for ps in shared:
                    for k, p in enumerate(ps[:2]):
                        try:
                            sh_results[i].append(use(p))
                        except Exception as e:
                            sh_results[i].append('raised %r' % e)
                for op in lists[i]:
                    results[i].append((op, ops.run(m, op)))
            return f
        s = Sched(r, [mk(i) for i in range(n)], limit=120,
                  focus=['tagset.py', 'analyzer.py', 'units/', 'shapes.py', 'by_analogy', 'by_hyphen', 'by_lookup', 'wrapper.py', 'abbreviations'])
        ctx.current = (seed, s.policy, lists)
        if not s.run():
            return dict(bad=[['deadlock', 'threads did not finish: policy %s, operations %r, last switches %r' % (
                s.policy, lists, s.where[-10:])]])
        for e in s.errors:
            if e is not None:
                raise RuntimeError('thread body failed: %r' % e)
        how = 'policy %s, switches %s' % (s.policy, s.where[:6])
        ref = ref or pymorphy2.MorphAnalyzer(path=path)
        memo = {}
        for rs in results:
            for op, got in rs:
                evs += 1
                if repr(op) not in memo:
                    memo[repr(op)] = ops.run(ref, op)
                if got != memo[repr(op)]:
                    bad.append(['thread', '%s: %s%r in a thread gives %.600r, in a single thread %.600r' % (
                        how, op[0], op[1], got, memo[repr(op)])])
        if shared:
            want = [use(p) for w in hot for p in ref.parse(w)[:2]]
            for x in sh_results:
                evs += 1
                if x != want:
                    bad.append(['shared', '%s: shared parse results of %r: %.500r, expected %.500r' % (
                        how, hot, [a for a, b in zip(x, want) if a != b], [b for a, b in zip(x, want) if a != b])])
        return dict(bad=bad[:6], evs=evs, shared=len(shared), policy=s.policy + ('_fine' if s.fine else '') + ('_focused' if s.focus else ''), switches=s.switches, events=s.events,
                    steals=s.steals, sig=s.sig.hexdigest() + repr(lists), sample=dict(
                        policy=s.policy, threads=n, operations=[[o[0]] + list(map(repr, o[1])) for o in lists[0]],
                        switches=s.where[:8]))
    ref = None
    while time.time() - t0 < budget or rnd < 8:
        rnd += 1
        seed = rng.getrandbits(60)
        # half of the time the library is as it is right after its import
        if time.time() - t0 < budget / 2:
            st, v = forked(lambda: schedule(seed, None), timeout=130)
            ctx.current = ('schedule', seed)
            if st == 'timeout':
                v = dict(bad=[['deadlock', 'schedule %d did not finish' % seed]])
            elif st != 'ok':
                raise RuntimeError('schedule %d: %s' % (seed, v))
            ctx.count('cold_schedules')
        else:
            ref = ref or pymorphy2.MorphAnalyzer(path=path)
            v = schedule(seed, ref)
        for kind, text in v['bad']:
            ctx.violation(kind, text)
        if 'evs' not in v:
            return
        ctx.ev(v['evs'])
        ctx.count('shared_objects', v['shared'])
        ctx.count('schedules')
        ctx.count('policy_' + v['policy'])
        ctx.count('switches', v['switches'])
        ctx.count('trace_events', v['events'])
        ctx.count('token_steals', v['steals'])
        if v['switches']:
            ctx.nt(v['sig'])
        ctx.sample(v['sample'])
