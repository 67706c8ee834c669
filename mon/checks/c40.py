# -*- coding: utf-8 -*-
"""C40: no hidden growth."""
LEVEL = 'exploration'
RULE = ('everything reachable from the analyzer, its units, the Tag class and all pymorphy2 modules is counted '
        '(objects and elements of containers, walked with gc.get_referents) before and after tens of thousands of '
        'different tokens are analysed, lemmatised, inflected, agreed with numbers; open file descriptors and live '
        'analyzers are counted around repeated creation, compilation, failed loading and disposal.  Non-trivial = '
        'distinct tokens analysed between the counts.')
ASSUMPTIONS = ['caches bounded by fewer than 20000 entries are allowed']


def legs(tier):
    return [dict(name='tokens', venv='slow', shards=4, timeout=850),
            dict(name='fast', venv='fast', shards=1, timeout=850),
            dict(name='dispose', venv='slow', shards=1, timeout=800),
            dict(name='dispose-fast', venv='fast', shards=1, timeout=800)]


def prepare(scratch):
    from mon.subset import prepare as sub
    return {'SUBSET': sub(scratch)}


def footprint(roots):
    """(objects, elements) reachable without going through other modules"""
    import gc
    import sys
    import types
    seen = set()
    stack = list(roots)
    objects = elements = 0
    by = {}
    skip = (types.ModuleType, types.FrameType, types.CodeType, types.TracebackType)
    keep = set(id(x) for x in roots)
    while stack:
        o = stack.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, skip) and id(o) not in keep:
            continue
        if isinstance(o, type) and not (getattr(o, '__module__', '') or '').startswith('pymorphy2'):
            continue
        if isinstance(o, types.FunctionType) and not (o.__module__ or '').startswith('pymorphy2') and not o.__closure__:
            continue
        objects += 1
        if isinstance(o, (dict, list, set, frozenset, tuple, bytearray)):
            elements += len(o)
            by[type(o).__name__] = by.get(type(o).__name__, 0) + len(o)
        if isinstance(o, (str, bytes, int, float, bool, type(None))):
            continue
        for r in gc.get_referents(o):
            if id(r) not in seen:
                stack.append(r)
        # PyPy: explicit edges, in case get_referents is incomplete
        d = getattr(o, '__dict__', None)
        if isinstance(d, dict):
            stack.append(d)
        if isinstance(o, dict):
            stack.extend(list(o.keys()))
            stack.extend(list(o.values()))
        elif isinstance(o, (list, set, frozenset, tuple)):
            stack.extend(list(o))
        elif isinstance(o, types.FunctionType):
            for c in o.__closure__ or ():
                try:
                    stack.append(c.cell_contents)
                except ValueError:
                    pass
            stack.append(o.__defaults__)
    return objects, elements, by


def roots(m):
    import sys
    return [m] + [mod for n, mod in sorted(sys.modules.items())
                  if mod is not None and (n == 'pymorphy2' or n.startswith('pymorphy2.'))]


def fds():
    import os
    return len(os.listdir('/proc/self/fd'))


def run(ctx):
    import gc
    import os
    import weakref
    import pymorphy2
    from mon.env import Env
    rng = ctx.rng
    if ctx.leg.startswith('dispose'):
        return dispose(ctx)
    env = Env(ctx, model=False, prefixes=40)
    m = env.morph
    T = env.tokens
    step = ctx.scale(9000, 60000) if ctx.leg == 'tokens' else ctx.scale(3000, 20000)

    def use(n):
        i = 0
        for kind, tok in env.stream(T.kinds, n * 2):
            if len(tok) < 2:
                continue
            i += 1
            if i > n:
                break
            # make it a new token
            if rng.random() < .5:
                tok = rng.choice(T.cfg['prefixes']) + tok if rng.random() < .3 else tok + rng.choice('абвгд')
            ps = m.parse(tok)
            ctx.ev()
            ctx.nt(tok)
            m.tag(tok)
            m.normal_forms(tok)
            m.word_is_known(tok)
            if i % 3 == 0:
                p = rng.choice(ps)
                p.lexeme
                p.normalized
                p.inflect({'gent'})
                p.make_agree_with_number(i)
                p.is_known
                p.tag.cyr_repr
                p.tag.grammemes_cyr
            if i % 500 == 0:
                for k, x in enumerate(m.iter_known_word_parses(tok[:2])):
                    if k > 20:
                        break
            ctx.count('tokens')

    # warm up: lazily computed attributes of every tag
    for t in m.dictionary.gramtab:
        t.grammemes, t.grammemes_cyr, t.cyr_repr, t.POS, hash(t), str(t), t.number, t.case
        try:
            t.numeral_agreement_grammemes(3)
        except Exception:
            pass
    use(step // 2)
    gc.collect()
    hist = [footprint(roots(m))]
    for r in range(4):
        use(step)
        gc.collect()
        hist.append(footprint(roots(m)))
    ctx.sample(dict(objects=[h[0] for h in hist], elements=[h[1] for h in hist], tokens=ctx.counters['tokens']))
    ctx.count('objects_reachable', hist[-1][0])
    ctx.count('grown_objects', max(0, hist[-1][0] - hist[0][0]))
    # growth over the last three quarters, per token
    n = step * 3
    for i, what in enumerate(('objects', 'elements')):
        g = hist[-1][i] - hist[1][i]
        last = hist[-1][i] - hist[-2][i]
        if g > .1 * n and last > .1 * step:
            ctx.violation('growth', 'after %d more tokens the analyzer keeps %d more %s (%r)' % (
                n, g, what, [h[i] for h in hist]))
    ctx.require('tokens', 100000 if not ctx.quick else 40000)
    ctx.require('objects_reachable', 10000)


def dispose(ctx):
    import gc
    import os
    import shutil
    import weakref
    import pymorphy2
    from mon.dictgen import Toy, compile_toy, base_grammemes
    path = os.environ['SUBSET']
    rng = ctx.rng
    bad = os.path.join(ctx.work, 'bad')
    shutil.copytree(path, bad)
    with open(os.path.join(bad, 'meta.json'), encoding='utf8') as f:
        s = f.read()
    with open(os.path.join(bad, 'meta.json'), 'w', encoding='utf8') as f:
        f.write(s.replace('"2.4"', '"9.9"'))

    def toy():
        # another dictionary each time, with the same grammemes and tags
        t = Toy(rng, base_grammemes())
        t.classes, t.new_class = classes, lambda: rng.choice(classes)
        for _ in range(30):
            t.regular()
        t.add_links(6)
        return t
    g = Toy(rng, base_grammemes())
    classes = [g.new_class() for _ in range(12)]

    def collect():
        for _ in range(4):
            gc.collect()

    def cycle(i):
        # a dictionary at another place each time
        here = os.path.join(ctx.work, 'dict%d' % i)
        shutil.copytree(path, here)
        m = pymorphy2.MorphAnalyzer(path=here, lang='ru')
        p = m.parse('красивый')[0]
        p.lexeme
        m.parse('крабочник')
        it = m.iter_known_word_parses('к')
        next(it)
        refs = [weakref.ref(m), weakref.ref(m.dictionary), weakref.ref(p.methods_stack[0][0])]
        ctx.ev()
        ctx.nt(('analyzer', i))
        try:
            pymorphy2.MorphAnalyzer(path=bad, lang='ru')
        except ValueError:
            ctx.count('refused')
        if ctx.leg == 'dispose-fast':
            out = os.path.join(ctx.work, 'toy%d' % i)
            compile_toy(toy(), out)
            shutil.rmtree(out)
            ctx.count('compiled')
            # a source cut in the middle
            with open(out + '.xml', 'rb') as f:
                data = f.read()
            with open(out + '.xml', 'wb') as f:
                f.write(data[:len(data) * 2 // 3])
            try:
                pymorphy2.opencorpora_dict.convert_to_pymorphy2(out + '.xml', out, 'toy', 'ru', compile_options=dict(paradigm_prefixes=['']))
            except Exception:
                ctx.count('compile_failed')
            shutil.rmtree(out, True)
        shutil.rmtree(here)
        return refs

    cycle(0)
    collect()
    import sys
    mods = [mod for n, mod in sorted(sys.modules.items()) if mod is not None and n.split('.')[0] == 'pymorphy2']
    cycle(1)
    collect()
    f0, base = fds(), footprint(mods)
    live = []
    n = ctx.budget(12, 60)
    for i in range(2, n + 2):
        live += cycle(i)
        ctx.count('created')
    collect()
    # files are closed by who opened them, not by the garbage collector
    gc.disable()
    a = fds()
    for i in range(n + 2, n + 6):
        live += cycle(i)
        ctx.count('created')
    late = fds() - a
    left = sorted(os.readlink('/proc/self/fd/' + x) for x in os.listdir('/proc/self/fd') if os.path.exists('/proc/self/fd/' + x))
    gc.enable()
    collect()
    ctx.count('closed_checks', 4)
    if late > 0:
        ctx.violation('left_open', '%d file descriptors left to the garbage collector by 4 analyzers: %r' % (late, left))
    n += 4
    open_now = fds()
    names = sorted(os.readlink('/proc/self/fd/' + x) for x in os.listdir('/proc/self/fd') if os.path.exists('/proc/self/fd/' + x))
    collect()
    alive = sum(r() is not None for r in live)
    end = footprint(mods)
    ctx.sample(dict(created=n, alive=alive, fds=[f0, open_now, fds()], module_objects=[base[0], end[0]]))
    if alive > 6:
        ctx.violation('alive', '%d of %d analyzers, dictionaries and units are still alive after disposal' % (alive, len(live)))
    if open_now > f0 + n // 2:
        ctx.violation('fds', '%d file descriptors open after %d analyzers (%d before): %r' % (open_now, n, f0, names))
    if end[0] > base[0] + 8 * n or end[1] > base[1] + 8 * n:
        ctx.violation('modules', 'module state grew from %r to %r with %d analyzers' % (base[:2], end[:2], n))
    ctx.require('created', 10)
