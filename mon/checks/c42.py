# -*- coding: utf-8 -*-
"""C42: a loaded analyzer does not need its files any more."""
LEVEL = 'exploration'
RULE = ('analyzers of all configurations over copies of a dictionary; right after loading, or after some use, the folder '
        'is removed, moved, truncated, filled with garbage, with the files of another dictionary, or compiled over, and '
        'the working directory and the environment variables change; then random questions (mon/ops.py) of all kinds.  '
        'Oracle: an analyzer of the same configuration whose files are left alone.  Non-trivial = distinct (change, '
        'question).')
ASSUMPTIONS = ['pickling and copying an analyzer, which load the dictionary again, are not among the questions']
KINDS = ['removed', 'moved', 'truncated', 'garbage', 'other', 'other', 'unlinked', 'in_place', 'half']


def legs(tier):
    return [dict(name='slow', venv='slow', shards=3, timeout=800),
            dict(name='fast', venv='fast', shards=3, timeout=800)]


def prepare(scratch):
    import os
    from mon.maketoys import prepare as toys
    from mon.subset import prepare as sub
    return {'SUBSET': sub(scratch), 'TOYS': toys(scratch, 4, os.environ.get('VERIF_SEED', '1'))}


def spoil(rng, kind, path, other):
    import os
    import shutil
    if kind in ('removed', 'other'):
        shutil.rmtree(path)
        if kind == 'other':
            shutil.copytree(other, path)
    elif kind == 'moved':
        os.rename(path, path + '.moved')
    else:
        names = sorted(os.listdir(path))
        if kind == 'half':
            names = rng.sample(names, len(names) // 2)
        for fn in names:
            f = os.path.join(path, fn)
            if kind == 'unlinked':
                os.remove(f)
            elif kind in ('in_place', 'half'):
                # the same inode gets the contents of the other dictionary
                src = os.path.join(other, fn)
                data = b''
                if os.path.exists(src):
                    with open(src, 'rb') as h:
                        data = h.read()
                with open(f, 'r+b') as h:
                    h.truncate()
                    h.write(data)
            else:
                with open(f, 'r+b') as h:
                    h.truncate()
                    if kind == 'garbage':
                        h.write(bytes(rng.getrandbits(8) for _ in range(1000)))


def run(ctx):
    import os
    import shutil
    import pymorphy2
    from pymorphy2 import units
    from mon import ops
    from mon.env import Env
    rng = ctx.rng
    src = os.environ['SUBSET']
    toys = sorted(os.path.join(os.environ['TOYS'], x) for x in os.listdir(os.environ['TOYS']) if not x.endswith('.xml'))
    env = Env(ctx, path=src, model=False)
    kinds = [x[2:] for x in dir(env.tokens) if x.startswith('k_')]
    home = os.getcwd()
    ctx.require('changes', 20)
    for k in range(ctx.budget(14, 120)):
        kw = dict(lang=rng.choice(['ru', 'ru', 'uk']))
        if rng.random() < .2:
            kw['result_type'] = None
        if rng.random() < .2:
            kw['char_substitutes'] = rng.choice([None, {'о': 'а'}])
        if rng.random() < .2:
            kw['probability_estimator_cls'] = None
        if rng.random() < .2:
            kw['units'] = [[units.DictionaryAnalyzer(), units.AbbreviatedFirstNameAnalyzer('абв')],
                           units.KnownSuffixAnalyzer(), units.UnknAnalyzer()]
        path = os.path.join(ctx.work, 'd%d' % k)
        shutil.copytree(src, path)
        how = rng.choice(['path', 'path', 'variable', 'relative'])
        arg = path
        if how == 'variable':
            os.environ['PYMORPHY2_DICT_PATH'] = path
            arg = None
        elif how == 'relative':
            os.chdir(ctx.work)
            arg = rng.choice(['d%d' % k, './d%d' % k])
        m = pymorphy2.MorphAnalyzer(path=arg, **kw)
        held = [m.parse(w)[0] for w in rng.sample(['кошка', 'стали', 'ёлками', 'по-русски', 'бутявкой'], rng.choice([0, 0, 2]))]
        ref = pymorphy2.MorphAnalyzer(path=src, **kw)
        held_ref = [ref.parse(p[0])[0] for p in held]
        questions = ops.make(rng, lambda: env.tokens.gen(rng.choice(kinds)), ctx.budget(250, 500))
        used = rng.choice([0, 0, 1, 50])
        for op in questions[:used]:
            ops.run(m, op)
        want = [ops.run(ref, op) for op in questions]
        kind = KINDS[(k + ctx.shard) % len(KINDS)]
        ctx.current = kind, how, kw
        spoil(rng, kind, path, rng.choice(toys))
        if how == 'variable':
            if rng.random() < .5:
                os.environ['PYMORPHY2_DICT_PATH'] = rng.choice(toys)
            else:
                os.environ.pop('PYMORPHY2_DICT_PATH')
        if how == 'relative':
            os.chdir(rng.choice([home, '/']))
        if kind in ('other', 'in_place') and rng.random() < .5:
            # somebody else uses the new one
            try:
                pymorphy2.MorphAnalyzer(path=path, lang='ru').parse('аба')
            except Exception:
                pass
        ctx.count('changes')
        ctx.count('change_' + kind)
        bad = None
        for op, w in zip(questions, want):
            ctx.ev()
            got = ops.run(m, op)
            ctx.nt((kind, op[0], repr(op[1])))
            if got != w:
                bad = '%s%r: %.400r, before %.400r' % (op[0], op[1], got, w)
                break
        for p, q in zip(held, held_ref):
            # analyses obtained before
            a, b = ops.lex_obs(m.get_lexeme(p)), ops.lex_obs(ref.get_lexeme(q))
            if a != b:
                bad = bad or 'lexeme of %r, analysed before: %.400r, not %.400r' % (p[0], a, b)
        if bad:
            ctx.violation(kind, 'files %s after loading (%s, %r): %s' % (kind, how, kw, bad))
        ctx.sample(dict(change=kind, loaded_by=how, options=repr(kw), used_before=used, questions=len(questions)))
        os.environ.pop('PYMORPHY2_DICT_PATH', None)
        os.chdir(home)
        for p in (path, path + '.moved'):
            shutil.rmtree(p, ignore_errors=True)
