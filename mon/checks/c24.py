# -*- coding: utf-8 -*-
"""C24: creating/loading/compiling elsewhere doesn't disturb live analyzers."""
LEVEL = 'exploration'
RULE = ('one or two threads use a live analyzer (or create and use their own) while others create analyzers of the '
        'same or of another dictionary, load dictionaries, unpickle analyzers or compile dictionaries; cooperative '
        'scheduler over every executed line (in a part of the schedules: bytecode instruction, of all or of one part of the library), each schedule in its own forked process (class-level state is cold in '
        'half of them).  In the freeze legs one activity is stopped at each distinct line or instruction in turn while another one runs '
        'completely.  Results of all calls and the compiled dictionaries are compared with single-threaded ones.  '
        'Non-trivial = distinct interleavings.')
ASSUMPTIONS = ['all dictionaries in use have the same grammeme tree (isolation between different trees: see C25)',
               'preemption points are Python lines or bytecode instructions of pymorphy2']


def legs(tier):
    return [dict(name='freeze', venv='slow', shards=3, timeout=850),
            dict(name='freeze-compile', venv='fast', shards=2, timeout=850),
            dict(name='sched', venv='slow', shards=4, timeout=850),
            dict(name='compile', venv='fast', shards=4, timeout=850)]


def prepare(scratch):
    from mon.subset import prepare as sub
    return {'SUBSET': sub(scratch), 'SUBSET2': sub(scratch, 40, 'other', 'subset2')}


def run(ctx):
    import os
    import pickle
    import shutil
    import time
    import pymorphy2
    from mon import ops
    from mon.sched import Sched, Freeze
    from mon.forks import forked
    from mon.dictgen import Toy, base_grammemes, entries
    from mon.dictref import DictRef
    from mon.env import Env
    paths = [os.environ['SUBSET'], os.environ['SUBSET2']]
    rng = ctx.rng
    compiling = ctx.leg in ('compile', 'freeze-compile')

    # no analyzer may be created in this process: class-level state stays cold
    def workload():
        env = Env(ctx, path=paths[0], prefixes=40)
        kinds = [k for k in env.tokens.kinds if k not in ('sharp',)]
        pool = [env.tokens.gen(rng.choice(kinds)) for _ in range(40)]
        pool += [rng.choice(env.words.words) for _ in range(60)]
        lst = ops.make(rng, lambda: rng.choice(pool), 150)
        out = []
        for p in paths:
            m = pymorphy2.MorphAnalyzer(path=p)
            out.append([ops.run(m, o) for o in lst])
        known = sorted(m.TagClass.KNOWN_GRAMMEMES)
        return [lst, out, known]
    st, v = forked(workload, quiet=False)
    if st != 'ok':
        raise RuntimeError('workload: %s' % v)
    lst, expected, known = v

    toys, raw = [], []
    if compiling:
        from pymorphy2.opencorpora_dict.compile import convert_to_pymorphy2
        G = base_grammemes()

        def comp(k, out):
            convert_to_pymorphy2(os.path.join(ctx.work, 't%d.xml' % k), out, 'toy', 'ru',
                                 compile_options=dict(paradigm_prefixes=['', 'по', 'наи'], min_paradigm_popularity=0))

        def content(out):
            d = DictRef(out)
            return [sorted(map(list, entries(d))), d.gramtab, [list(map(list, p)) for p in d.paradigms],
                    [sorted([w, list(x)] for w, x in y.iteritems('')) for y in d.pred]]
        from pymorphy2.opencorpora_dict.parse import parse_opencorpora_xml

        def read(k):
            p = parse_opencorpora_xml(os.path.join(ctx.work, 't%d.xml' % k))
            return [sorted([i, list(map(list, f))] for i, f in p.lexemes.items()), list(map(list, p.links)),
                    list(map(list, p.grammemes)), p.version, p.revision]
        for k in range(6):
            t = Toy(rng, G, alphabet='абвгдежз', prefixes=('', 'по', 'наи'))
            t.fill(rng.randint(2, 7), irregular=.2)
            t.to_xml(os.path.join(ctx.work, 't%d.xml' % k))
            out = os.path.join(ctx.work, 't%d' % k)

            def one():
                comp(k, out)
                return content(out)
            st, v = forked(one)
            if st != 'ok':
                raise RuntimeError('compile: %s' % v)
            toys.append(v)

            def two():
                return read(k)
            st, v = forked(two)
            if st != 'ok':
                raise RuntimeError('read: %s' % v)
            raw.append(v)
            shutil.rmtree(out)
    def freeze():
        import json
        from pymorphy2.opencorpora_dict.storage import load_dict
        stats = {}
        bad = []
        serial = [0]

        def check(m, which, i, how):
            got = ops.run(m, lst[i])
            stats['live_calls'] = stats.get('live_calls', 0) + 1
            if json.loads(json.dumps(got)) != expected[which][i]:
                bad.append('%s: %s%r gives %.500r instead of %.500r' % (how, lst[i][0], tuple(lst[i][1]), got, expected[which][i]))

        def act(name, i, made, live):
            stats[name] = stats.get(name, 0) + 1
            if name == 'use':
                if live:
                    check(live[0], 0, i, 'live analyzer')
                else:
                    name = 'create'
            if name in ('create', 'create2'):
                which = 1 if name == 'create2' else 0
                m = pymorphy2.MorphAnalyzer(path=paths[which])
                check(m, which, i, 'new analyzer')
                if which == 0:
                    made.append(m)
            elif name == 'load':
                load_dict(paths[1])
            elif name == 'pickle':
                m = pickle.loads(pickle.dumps(live[0] if live else pymorphy2.MorphAnalyzer(path=paths[0]), 2))
                check(m, 0, i, 'unpickled analyzer')
                made.append(m)
            elif name == 'compile':
                serial[0] += 1
                out = os.path.join(ctx.work, 'f%d-%d' % (os.getpid(), serial[0]))
                comp(i % 6, out)
                if content(out) != toys[i % 6]:
                    bad.append('dictionary compiled by a thread differs from the one compiled alone')
                shutil.rmtree(out)
            elif name == 'read':
                if read(i % 6) != raw[i % 6]:
                    bad.append('dictionary source read by a thread differs from the one read alone')

        def one(a, b, ia, ib, live, fz, loc, nth):
            made = []
            v = fz.run(lambda: act(a, ia, made, live), lambda: act(b, ib, made, live), tuple(loc), nth)
            if v is None:
                bad.append('DEADLOCK: threads did not finish')
                return False
            for e in v['errors']:
                import traceback
                bad.append('exception in a thread: %s' % ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-900:])
            some = [x for x in list(live) + made]
            for m in some[:2]:
                check(m, 0, ib, 'analyzer, afterwards')
            if some:
                lost = set(known) - set(some[0].TagClass.KNOWN_GRAMMEMES)
                if lost:
                    bad.append('grammemes %r are not known any more' % sorted(lost))
            return v['hit']

        def points(a, ia, live, fz):
            made = []
            return [[list(loc), k] for loc, k in fz.points(lambda: act(a, ia, made, live)).items()]

        def report(how, a, b, loc, nth, found):
            for x in found[:2]:
                ctx.violation('disturbed', '%s (%s; %s stopped at %s:%d, time %d, while another thread does: %s)' % (
                    x, how, a, loc[1], loc[2], nth, b))
        t0, budget = time.time(), ctx.scale(26, 600)
        acts = ['create', 'create', 'create2', 'load', 'pickle', 'use', 'use'] + (['compile', 'compile', 'compile', 'read'] if compiling else [])
        quiet = ['create', 'create2', 'load', 'pickle'] + (['compile'] * 3 + ['read'] if compiling else [])
        ctx.require('stopped', 60)
        ctx.require('pairs', 4)
        n = 0
        while time.time() - t0 < budget or n < 4:
            n += 1
            a, b = rng.choice(acts), rng.choice(quiet)
            if a != 'use' and rng.random() < .5:
                b = 'use'
            if rng.random() < .3:
                b = a
            ia, ib = rng.randrange(len(lst)), rng.randrange(len(lst))
            cold = n % 2 == 0
            fine = cold or rng.random() < .3
            fz = Freeze(fine=fine, focus='tagset.py' if cold and rng.random() < .8 else '')
            end = time.time() + max(3, budget / 8)

            def warm():
                live = [pymorphy2.MorphAnalyzer(path=paths[0])]
                locs = dict((tuple(loc), k) for loc, k in points(a, ia, live, fz))
                hits = []
                for loc, nth in fz.pick(rng, locs, 100):
                    if time.time() > end or bad:
                        break
                    if one(a, b, ia, ib, live, fz, loc, nth):
                        hits.append([list(loc), nth])
                return [hits, bad, stats, [list(loc), nth]]
            ctx.current = (cold, a, b, ia, ib)
            hits = []
            if not cold:
                st, v = forked(warm, timeout=200)
                if st == 'timeout':
                    ctx.violation('deadlock', '%s and %s did not finish' % (a, b))
                    return
                if st != 'ok':
                    ctx.violation('failed', '%s and %s: %s %s' % (a, b, st, v))
                    continue
                hits, found, st, last = v
                report('live analyzer', a, b, last[0], last[1], found)
                for k, x in st.items():
                    ctx.count('did_' + k, x)
            else:
                st, v = forked(lambda: points(a, ia, [], fz), timeout=100)
                if st != 'ok':
                    ctx.violation('failed', '%s alone: %s %s' % (a, st, v))
                    continue
                locs = dict((tuple(loc), k) for loc, k in v)
                for loc, nth in fz.pick(rng, locs, 80):
                    if time.time() > end:
                        break

                    def single():
                        h = one(a, b, ia, ib, [], fz, loc, nth)
                        return [h, bad, stats]
                    st, v = forked(single, timeout=100)
                    if st == 'timeout':
                        ctx.violation('deadlock', '%s stopped at %r and %s did not finish' % (a, loc, b))
                        return
                    if st != 'ok':
                        ctx.violation('failed', '%s and %s: %s %s' % (a, b, st, v))
                        continue
                    if v[0]:
                        hits.append([list(loc), nth])
                    report('first analyzers of the process', a, b, loc, nth, v[1])
                    for k, x in v[2].items():
                        ctx.count('did_' + k, x)
            ctx.count('pairs')
            ctx.count('pairs_cold' if cold else 'pairs_warm')
            ctx.count('stopped', len(hits))
            ctx.ev(len(hits))
            for h in hits:
                ctx.nt((cold, a, b, str(h)))
            ctx.sample(dict(first=a, second=b, cold=cold, stopped_at=[h[0][1:3] for h in hits[:5]]))
    if ctx.leg.startswith('freeze'):
        freeze()
        return
    ctx.require('schedules', 40)
    ctx.require('switches', 500)
    ctx.require('live_calls', 300)
    ctx.require('creations', 40)
    if compiling:
        ctx.require('compilations', 10)
        ctx.require('readings', 10)
    t0, budget = time.time(), ctx.scale(20, 600)
    rnd = 0
    while time.time() - t0 < budget or rnd < 8:
        rnd += 1
        seed = rng.getrandbits(60)

        def one():
            import random
            r = random.Random(seed)
            bad, stats = [], dict(live_calls=0, creations=0, compilations=0, readings=0)
            # the first analyzer of the process, while another thread is frozen inside the tag class
            birth = r.random() < .3
            warm = not birth and r.random() < .6
            live = pymorphy2.MorphAnalyzer(path=paths[0]) if warm else None
            if live is not None and r.random() < .3:
                for i in r.sample(range(len(lst)), 5):
                    ops.run(live, lst[i])
            n = r.choice([2, 2, 2, 3, 3])
            made = []

            def check(m, which, i, how):
                got = ops.run(m, lst[i])
                stats['live_calls'] += 1
                import json
                if json.loads(json.dumps(got)) != expected[which][i]:
                    bad.append('%s: %s%r gives %.500r instead of %.500r' % (how, lst[i][0], tuple(lst[i][1]), got, expected[which][i]))

            def user(idx):
                idx = r.sample(range(len(lst)), r.randint(2, 8))

                def f():
                    m = live or pymorphy2.MorphAnalyzer(path=paths[0])
                    made.append(m)
                    for i in idx:
                        check(m, 0, i, 'live analyzer' if live else 'new analyzer')
                return f

            both = compiling and not birth and r.random() < .5

            def creator(_):
                acts = [(r.choice(['create', 'create', 'create2', 'load', 'pickle'] + (['compile'] * 6 if compiling else [])),
                         r.randrange(len(lst)), r.randrange(6)) for _ in range(r.randint(1, 2))]
                if both:
                    # the same kind of work in several threads
                    acts = [(r.choice(['compile', 'read', 'read']), 0, r.randrange(6)) for _ in range(r.randint(1, 2))]
                if birth:
                    acts = [('compile' if compiling else 'load', 0, r.randrange(6))]

                def f():
                    for k, (act, i, t) in enumerate(acts):
                        if act == 'compile':
                            out = os.path.join(ctx.work, 'o%d-%d-%d' % (seed, _, k))
                            comp(t, out)
                            stats['compilations'] += 1
                            if content(out) != toys[t]:
                                bad.append('dictionary compiled by a thread differs from the one compiled alone')
                            shutil.rmtree(out)
                        elif act == 'read':
                            stats['readings'] += 1
                            if read(t) != raw[t]:
                                bad.append('dictionary source read by a thread differs from the one read alone')
                        elif act == 'load':
                            from pymorphy2.opencorpora_dict.storage import load_dict
                            load_dict(paths[1])
                        else:
                            which = 1 if act == 'create2' else 0
                            m = pymorphy2.MorphAnalyzer(path=paths[which])
                            if act == 'pickle':
                                m = pickle.loads(pickle.dumps(m, 2))
                            stats['creations'] += 1
                            check(m, which, i, 'analyzer created by a thread')
                return f
            if birth:
                fns = [user(0), creator(1)]
            elif both:
                fns = [creator(k) for k in range(n)]
                if r.random() < .2:
                    fns[0] = user(0)
            else:
                fns = [user(0)] + [r.choice([creator, creator, user])(k) for k in range(1, n)]
                fns[-1] = creator(n)
            s = Sched(r, fns, limit=60, focus=['tagset.py', 'tagset.py', 'tagset.py', 'analyzer.py', 'storage.py', 'wrapper.py', 'opencorpora_dict', 'units'])
            if birth:
                s = Sched(r, fns, limit=60, policy='park', fine=True)
                s.focus = 'tagset.py'
                s.victim = r.choice([0, 1, 1])
                s.park_at = int(2 ** r.uniform(0, 9))
            elif s.policy == 'park':
                s.victim = r.choice([0, n - 1, n - 1])
                s.park_at = int(2 ** r.uniform(0, 15 if s.fine and not s.focus else 12))
            if not s.run():
                bad.append('DEADLOCK: threads did not finish: policy %s, last switches %r' % (s.policy, s.where[-10:]))
            for e in s.errors:
                if e is not None:
                    import traceback
                    bad.append('exception in a thread: %s' % ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-900:])
            live = live or (made and made[0]) or None
            if live is not None:
                for i in r.sample(range(len(lst)), 6):
                    check(live, 0, i, 'live analyzer, afterwards')
                lost = set(known) - set(live.TagClass.KNOWN_GRAMMEMES)
                if lost:
                    bad.append('grammemes %r are not known any more' % sorted(lost))
            return [bad[:5], stats, s.policy + ('_fine' if s.fine else '') + ('_focused' if s.focus else ''), s.switches, s.events, s.steals, s.sig.hexdigest(), s.where[:8]]
        st, v = forked(one, timeout=100)
        ctx.current = ('schedule', seed)
        if st == 'timeout':
            ctx.violation('deadlock', 'schedule %d did not finish' % seed)
            return
        if st != 'ok':
            ctx.violation('failed', 'schedule %d: %s %s' % (seed, st, v))
            continue
        bad, stats, policy, sw, ev, steals, sig, where = v
        ctx.ev()
        ctx.count('schedules')
        ctx.count('policy_' + policy)
        ctx.count('switches', sw)
        ctx.count('trace_events', ev)
        ctx.count('token_steals', steals)
        for k, x in stats.items():
            ctx.count(k, x)
        if sw:
            ctx.nt(sig)
        for b in bad[:2]:
            ctx.violation('disturbed', '%s (policy %s, switches %s)' % (b, policy, where))
        ctx.sample(dict(policy=policy, switches=where, calls=stats))
