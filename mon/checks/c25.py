# -*- coding: utf-8 -*-
"""C25: results don't depend on what was done before (history independence)."""
LEVEL = 'exploration'
RULE = ('the same operations run on a fresh analyzer each, and after random histories on analyzers of several configurations: other calls, '
        'failing calls, calls interrupted by an exception at a random line, results and arguments modified by the '
        'caller, abandoned and interleaved iterators, creation of further analyzers, loaded and compiled '
        'dictionaries, registered grammemes, pickling.  Histories run in forked processes.  Non-trivial = distinct '
        '(operation, kind of preceding disturbance).')
ASSUMPTIONS = ['an exception injected at a line stands for a KeyboardInterrupt or a timeout signal']


def legs(tier):
    return [dict(name='history', venv='slow', shards=6, timeout=850),
            dict(name='history-fast', venv='fast', shards=1, timeout=850),
            dict(name='installed', venv='slow', shards=1, timeout=850),
            dict(name='trees', venv='slow', shards=1, timeout=850)]


def prepare(scratch):
    import json
    import os
    import shutil
    from mon.subset import prepare as sub
    a = sub(scratch)
    t = sub(scratch, name='twin', twin=True)
    b = sub(scratch, 40, 'other', 'subset2')
    # the same grammeme names in another tree, with other aliases
    c = os.path.join(scratch, 'tree')
    shutil.copytree(b, c)
    fn = os.path.join(c, 'grammemes.json')
    with open(fn, encoding='utf8') as f:
        gr = json.load(f)
    parent = dict((g[0], g[1]) for g in gr)
    for g in gr:
        if g[0] in ('plur', 'sing'):
            g[1] = parent['nomn']
        if g[0] == 'masc':
            g[2] = 'мужской'
    with open(fn, 'w', encoding='utf8') as f:
        json.dump(gr, f)
    return {'SUBSET': a, 'TWIN': t, 'SUBSET2': b, 'TREE': c}


class Interrupt(BaseException):
    pass


def run(ctx):
    import json
    import os
    import pickle
    import copy
    import sys
    import time
    import pymorphy2
    from mon import ops
    from mon.env import Env, ru_path
    from mon.forks import forked
    path, path2, tree = os.environ['SUBSET'], os.environ['SUBSET2'], os.environ['TREE']
    rng = ctx.rng
    if ctx.leg == 'installed':
        path = ru_path()
    j = lambda x: json.loads(json.dumps(x))
    configs = [{}, dict(result_type=None)]
    from mon.pickle_types import Mine
    if ctx.leg.startswith('history'):
        U = pymorphy2.units
        configs += [dict(char_substitutes={}), dict(probability_estimator_cls=None, char_substitutes={'а': 'о'}),
                    dict(lang='uk', result_type=None),
                    dict(units=[[U.DictionaryAnalyzer(), U.KnownSuffixAnalyzer()], U.UnknAnalyzer()]),
                    dict(path=os.environ['TWIN']), dict(result_type=Mine), dict(result_type=Mine, char_substitutes={'о': 'а'}, probability_estimator_cls=None)]
    import warnings
    warnings.simplefilter('ignore')

    def analyzer(c):
        return pymorphy2.MorphAnalyzer(**dict(dict(path=path), **configs[c]))

    def workload():
        env = Env(ctx, path=path, prefixes=40 if path != ru_path() else 8)
        kinds = [k for k in env.tokens.kinds if k not in ('sharp',)]
        pool = [env.tokens.gen(rng.choice(kinds)) for _ in range(70)]
        pool += [rng.choice(env.words.words) for _ in range(60)]
        pool += [w.replace('ё', 'е') for w in rng.sample(env.words.yo, min(30, len(env.words.yo)))]
        lst = ops.make(rng, lambda: rng.choice(pool), ctx.scale(250, 500))
        # analyses of one token which differ in their lexeme only
        m = analyzer(0)
        n = 0
        for w in rng.sample(env.words.words, min(len(env.words.words), 4000)):
            same = {}
            ps = m.parse(w)
            for i, p in enumerate(ps):
                same.setdefault((p[0], str(p[1])), []).append(i)
            for ii in same.values():
                if len(ii) > 1 and n < 40:
                    n += 1
                    gs = [[g] for g in ('nomn', 'datv', 'plur', 'sing', 'ablt', 'femn', 'impr', 'INFN') if g not in ps[ii[0]][1]]
                    k = rng.choice(['inflect', 'inflect', 'lexeme', 'normalized', 'agree', 'chain', 'twice'])
                    a = {'lexeme': (), 'normalized': (), 'inflect': (rng.choice(gs),), 'agree': (rng.randint(2, 30),),
                         'chain': ([g[0] for g in gs], 2), 'twice': (rng.choice(gs), 5)}[k]
                    lst += [(k, (w, i) + a) for i in ii]
        rng.shuffle(lst)
        return [lst, pool]
    st, v = forked(workload, quiet=False)
    if st != 'ok':
        raise RuntimeError('workload: %s' % v)
    lst, pool = v

    def answers(c):
        def f():
            out = []
            m = None
            for i, o in enumerate(lst):
                if m is None or path != ru_path() or i % 25 == 0:
                    m = analyzer(c)
                out.append(ops.run(m, o))
            return out
        st, v = forked(f, quiet=False)
        if st != 'ok':
            raise RuntimeError('workload: %s' % v)
        for o, x in zip(lst, v):
            if o[0] == 'twice' and x[0] != 'raised':
                ctx.count('asked_twice')
                ctx.ev()
                if x[0] != x[1]:
                    ctx.violation('twice', 'an analysis of %r answers differently the second time: %.500r' % (
                        o[1][0], [(a, b) for a, b in zip(*x) if a != b]))
        return v
    ctx.require('asked_twice', 40)
    expected = [answers(c) for c in range(len(configs) if ctx.leg != 'trees' else 1)]

    def mess(x, depth=0):
        """what a careless caller may do to a returned object"""
        n = 0
        if isinstance(x, list):
            for y in x[:4]:
                n += mess(y, depth + 1)
            x.append('мусор')
            x.reverse()
            if depth == 0:
                del x[:]
            n += 1
        elif isinstance(x, set):
            x.add('мусор')
            x.discard('NOUN')
            x.clear()
            n += 1
        elif isinstance(x, dict):
            x.clear()
            n += 1
        elif isinstance(x, tuple) and depth < 3:
            for y in x:
                n += mess(y, depth + 1)
        return n

    def interrupted(r, fn):
        """run fn; raise at a random line executed in the library"""
        left = [int(2 ** r.uniform(0, 10))]

        def local(frame, event, arg):
            if event == 'line':
                left[0] -= 1
                if left[0] <= 0:
                    sys.settrace(None)
                    raise Interrupt()
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith('/repo/pymorphy2') else None
        sys.settrace(tracer)
        try:
            fn()
            return False
        except Interrupt:
            return True
        except Exception:
            return False
        finally:
            sys.settrace(None)

    def disturb(m, r, others, stats):
        k = r.choice(['call', 'call', 'mess', 'mess', 'mess', 'fail', 'interrupt', 'interrupt', 'iter', 'create', 'pickle',
                      'load', 'known', 'args', 'agree_set', 'plain'])
        stats[k] = stats.get(k, 0) + 1
        w = r.choice(pool)
        if k == 'call':
            ops.run(m, r.choice(lst))
        elif k == 'mess':
            ps = m.parse(w)
            p = r.choice(ps)
            lex = m.get_lexeme(p)
            p = pymorphy2.analyzer.Parse(*p)
            for x in (lex, m.tag(w), m.normal_forms(w), p.tag.grammemes, p.tag.grammemes_cyr, p.methods_stack,
                      m.get_lexeme(tuple(p)), m.get_lexeme(r.choice(lex)), p.tag.updated_grammemes(set(['plur'])),
                      m.TagClass.fix_rare_cases(set(['loc2'])), ps):
                stats['modified'] = stats.get('modified', 0) + mess(x)
        elif k == 'agree_set':
            p = r.choice(m.parse(w))
            x = p[1].numeral_agreement_grammemes(r.randint(0, 30))
            stats['modified'] = stats.get('modified', 0) + mess(x)
        elif k == 'plain':
            m2 = others.get('plain') or pymorphy2.MorphAnalyzer(path=path, result_type=None)
            others['plain'] = m2
            for p in m2.parse(w):
                mess(m2.get_lexeme(p))
                mess(m2.get_lexeme(p))
            mess(m2.parse(w))
            mess(m2.tag(w))
        elif k == 'args':
            g = set(r.sample(ops.GRAMMEMES, 2))
            g0 = set(g)
            p = r.choice(m.parse(w))
            if hasattr(p, 'inflect'):
                p.inflect(g)
            p[1].updated_grammemes(g)
            m.TagClass.fix_rare_cases(g)
            g in p[1]
            if g != g0:
                return 'inflect modified its argument %r -> %r' % (g0, g)
            g.clear()
        elif k == 'fail':
            f = r.choice([lambda: m.parse(None), lambda: m.parse(5), lambda: m.tag(b'\xd1\x81'), lambda: m.word_is_known(None),
                          lambda: m.parse(w)[0].inflect(set(['foo'])), lambda: 'foo' in m.parse(w)[0].tag,
                          lambda: m.parse(w)[0].make_agree_with_number('x'), lambda: m.TagClass('NOUN,foo'),
                          lambda: m.parse(w)[0].tag.POS == 'plur', lambda: pymorphy2.MorphAnalyzer(path='/nonexistent'),
                          lambda: pymorphy2.MorphAnalyzer(lang='xx'), lambda: m.parse(w)[0].inflect(None)])
            try:
                f()
            except Exception:
                pass
        elif k == 'interrupt':
            o = r.choice(lst)
            what = r.choice(['op'] * 9 + ['create'])
            if interrupted(r, (lambda: getattr(ops, 'o_' + o[0])(m, *o[1])) if what == 'op' else
                           (lambda: pymorphy2.MorphAnalyzer(path=path))):
                stats['interrupted'] = stats.get('interrupted', 0) + 1
        elif k == 'iter':
            it = others.get('it') or m.iter_known_word_parses(w[:1].lower())
            others['it'] = it
            for _ in range(r.randint(1, 5)):
                x = next(it, None)
                if x is None:
                    others.pop('it')
                    break
                m.get_lexeme(x)
            if r.random() < .3:
                others.pop('it', None)
        elif k == 'create':
            if r.random() < .5:
                kw = dict(path=r.choice([path2, path]), char_substitutes=r.choice([None, {'а': 'о'}, {}, {'е': 'ё', 'о': 'а'}]),
                          units=r.choice([None, [pymorphy2.units.DictionaryAnalyzer()],
                                          [[pymorphy2.units.DictionaryAnalyzer(), pymorphy2.units.KnownSuffixAnalyzer()]]]),
                          result_type=r.choice([pymorphy2.analyzer.Parse, Mine, None]))
                state = lambda: repr([kw[x] for x in ('path', 'char_substitutes', 'units')]) + (
                    repr(sorted((a, id(b)) for a, b in vars(kw['result_type']).items())) if kw['result_type'] else '')
                before = state()
                m2 = pymorphy2.MorphAnalyzer(**kw)
                ops.run(m2, r.choice(lst))
                if state() != before:
                    return 'the arguments of MorphAnalyzer() were changed: %r -> %r' % (before[:900], state()[:900])
                if isinstance(kw['char_substitutes'], dict) and r.random() < .5:
                    kw['char_substitutes'].clear()
                if isinstance(kw['units'], list) and r.random() < .5:
                    del kw['units'][:]
            else:
                m2 = analyzer(r.randrange(len(configs)))
            ops.run(m2, r.choice(lst))
        elif k == 'pickle':
            m2 = pickle.loads(pickle.dumps(m, r.choice([0, 2])))
            ops.run(m2, r.choice(lst))
            copy.copy(r.choice(m.parse(w))[1])
        elif k == 'load':
            from pymorphy2.opencorpora_dict.storage import load_dict
            load_dict(path2)
        elif k == 'known':
            # analyzer units register the grammemes of their own like this
            m.TagClass.add_grammemes_to_known('Zz%02d' % r.randint(0, 20), 'зз%02d' % r.randint(0, 20),
                                              overwrite=r.random() < .5)

    if ctx.leg == 'trees':
        # a dictionary with another grammeme tree in the same process
        def one():
            m = pymorphy2.MorphAnalyzer(path=path)
            m2 = pymorphy2.MorphAnalyzer(path=tree)
            out = []
            for o in lst:
                out.append(ops.run(m, o))
            for o in lst[:50]:
                ops.run(m2, o)
            return out
        st, v = forked(one)
        ctx.require('tree_ops', 100)
        if st != 'ok':
            ctx.violation('trees', '%s %s' % (st, v))
            return
        for o, got, want in zip(lst, v, expected[0]):
            ctx.ev()
            ctx.count('tree_ops')
            ctx.nt(repr(o))
            if got == want or o[0] == 'twice':
                continue
            if o[0] in ('taginfo', 'newtag', 'cyr') and json.dumps(got, ensure_ascii=False).replace('мужской', 'мр') == json.dumps(want, ensure_ascii=False):
                key = 'other_tree_aliases'
            elif o[0] in ('taginfo', 'newtag') and ctx_same_but_cyr(got, want):
                key = 'other_tree_aliases'
            elif o[0] in ('inflect', 'chain', 'agree'):
                key = 'other_tree_incompatible'
            else:
                key = 'trees'
            ctx.violation(key, 'after loading a dictionary with another grammeme tree %s%r gives %.400r instead of %.400r' % (
                o[0], tuple(o[1]), got, want))
        # the listed effects, made to happen
        def probe0():
            out = []
            for k in (0, 1):
                m = pymorphy2.MorphAnalyzer(path=path, units=[pymorphy2.units.DictionaryAnalyzer()])
                out.append(ops.run(m, ('badtag', ('LATN',))))
                pymorphy2.MorphAnalyzer(path=path)
            return out
        st, v = forked(probe0)
        ctx.ev()
        if st != 'ok':
            ctx.violation('trees', '%s %s' % (st, v))
        elif v[0] != v[1]:
            ctx.violation('registered_grammemes', "TagClass('NOUN,LATN') of an analyzer without LatinAnalyzer: %r, after "
                          'another analyzer was created: %r' % tuple(v))

        def probe():
            m = pymorphy2.MorphAnalyzer(path=path)
            t = m.TagClass('NOUN,anim,masc plur,nomn')
            before = [t.cyr_repr, sorted(t.updated_grammemes(set(['gent'])))]
            pymorphy2.MorphAnalyzer(path=tree)
            t = m.TagClass('NOUN,anim,masc plur,nomn')
            return [before, [t.cyr_repr, sorted(t.updated_grammemes(set(['gent'])))]]
        st, v = forked(probe)
        ctx.ev()
        if st != 'ok':
            ctx.violation('trees', '%s %s' % (st, v))
            return
        if v[0][0] != v[1][0]:
            ctx.violation('other_tree_aliases', 'cyr_repr changed from %r to %r' % (v[0][0], v[1][0]))
        if v[0][1] != v[1][1]:
            ctx.violation('other_tree_incompatible', 'updated_grammemes changed from %r to %r' % (v[0][1], v[1][1]))
        return

    ctx.require('histories', 4)
    ctx.require('disturbances', 400)
    if ctx.leg != 'installed':
        ctx.require('did_interrupted', 20)
        ctx.require('did_modified', 100)
    t0, budget = time.time(), ctx.scale(20, 600)
    rnd = 0
    while time.time() - t0 < budget or rnd < 3:
        rnd += 1
        seed = rng.getrandbits(60)

        def one():
            import random
            r = random.Random(seed)
            ms = {}
            main = r.choice([0, r.randrange(len(configs))])
            others, stats, bad, registered = {}, {}, [], []
            order = list(range(len(lst)))
            r.shuffle(order)
            order = order[:r.choice([20, 60, 200])]
            heavy = r.random() < .5
            done = []
            for i in order:
                kinds = dict(stats)
                c = main if r.random() < .7 else r.randrange(len(configs))
                if c not in ms or (path != ru_path() and r.random() < .03):
                    ms[c] = analyzer(c)
                m = ms[c]
                for _ in range(r.choice([0, 1, 1, 3]) if heavy or path != ru_path() else 1):
                    b = disturb(m, r, others, stats)
                    if b:
                        bad.append(b)
                last = [k for k in stats if stats[k] != kinds.get(k)]
                got = j(ops.run(m, lst[i]))
                done.append([i, '+'.join(sorted(last) + ['c%d' % c])])
                if got != expected[c][i] and lst[i][0] == 'badtag' and 'units' in configs[c] and got[0] != 'ValueError':
                    registered.append('TagClass(%r) of the analyzer %r: %.100r, on a fresh analyzer %.100r' % (
                        'NOUN,' + lst[i][1][0], configs[c], got, expected[c][i]))
                elif got != expected[c][i]:
                    bad.append('(analyzer %r) %s%r after %d operations (just before it: %s) gives %.500r, on a fresh analyzer %.500r' % (
                        configs[c], lst[i][0], tuple(lst[i][1]), len(done), last, got, expected[c][i]))
                    if len(bad) > 4:
                        break
            return [bad, stats, done, registered]
        st, v = forked(one, timeout=300)
        ctx.current = ('history', seed)
        if st != 'ok':
            ctx.violation('failed', 'history %d: %s %s' % (seed, st, v))
            continue
        bad, stats, done, registered = v
        for b in registered[:1]:
            ctx.violation('registered_grammemes', b)
        ctx.count('histories')
        ctx.ev(len(done))
        for i, k in done:
            ctx.nt((repr(lst[i]), k))
        for k, x in stats.items():
            ctx.count('did_' + k, x)
            if k not in ('interrupted', 'modified'):
                ctx.count('disturbances', x)
        for b in bad[:3]:
            ctx.violation('history', b)
        ctx.sample(dict(history=[[lst[i][0], list(map(repr, lst[i][1])), k] for i, k in done[:5]]))


def ctx_same_but_cyr(got, want):
    """tag_obs rows differing only in the Cyrillic representations"""
    return (isinstance(got, list) and len(got) == len(want) and
            all(a == b for k, (a, b) in enumerate(zip(got, want)) if k not in (3, 4)) and
            got[3].replace('мужской', 'мр') == want[3])
