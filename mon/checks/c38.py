# -*- coding: utf-8 -*-
"""C38: compilation is reproducible."""
LEVEL = 'exploration'
RULE = ('random source dictionaries with random compilation options, each compiled several times: again in the same '
        'process after other work, after compiling other revisions (with other prefixes and thresholds), in a fresh process, in concurrent threads, over an existing folder, with the lemma '
        'elements in another order, with renumbered lemma ids, with longer ids.  The written files are compared byte '
        'by byte (the compilation time in meta.json apart).  Non-trivial = distinct pairs of compilations.')
ASSUMPTIONS = ['reordered lemmas: every set of grammemes has one spelling (equally frequent spellings are chosen by '
               'order)']


def legs(tier):
    return [dict(name='compile', venv='fast', shards=6, timeout=850)]


ONE = r'''
import sys, json
import pymorphy2
from pymorphy2.opencorpora_dict.compile import convert_to_pymorphy2
convert_to_pymorphy2(sys.argv[1], sys.argv[2], 'toy', 'ru', compile_options=json.loads(sys.argv[3]))
'''


def snapshot(path):
    import json
    import os
    out = {}
    for fn in sorted(os.listdir(path)):
        with open(os.path.join(path, fn), 'rb') as f:
            out[fn] = f.read()
    meta = json.loads(out['meta.json'].decode('utf8'))
    out['meta.json'] = json.dumps([kv for kv in meta if kv[0] != 'compiled_at']).encode('utf8')
    return out


def run(ctx):
    import collections
    import json
    import os
    import shutil
    import subprocess
    import sys
    import threading
    import pymorphy2
    from pymorphy2.opencorpora_dict.compile import convert_to_pymorphy2
    from mon.dictgen import Toy, base_grammemes
    rng = ctx.rng
    G = base_grammemes()
    ctx.require('comparisons', 100)
    sets = [('', 'по', 'наи'), ('', 'по', 'наи'), ('',), ('', 'най', 'якнай')]
    earlier = None
    for k in range(ctx.budget(10, 120)):
        t = Toy(rng, G, prefixes=rng.choice(sets), alphabet=rng.choice(['абвг', 'аеё', 'абвгдеёжзийклмнопрстуфхцчшщъыьэюя']))
        t.fill(rng.randint(20, 90), irregular=rng.choice([0, .2, .4]), min_stem=rng.choice([2, 6]))
        t.add_links(rng.choice([0, 5, 20]), forest=rng.random() < .5)
        opts = dict(paradigm_prefixes=list(t.prefixes))
        if rng.random() < .7:
            opts.update(max_suffix_length=rng.choice([1, 2, 3, 4, 5, 6, 9, 14]), min_ending_freq=rng.randint(1, 4),
                        min_paradigm_popularity=rng.randint(0, 5))
        xml = os.path.join(ctx.work, 'x%d.xml' % k)
        seed = rng.random()

        def write(toy, fn):
            state = toy.rng.getstate()
            toy.rng.seed(seed)          # the same revision
            toy.to_xml(fn)
            toy.rng.setstate(state)
        write(t, xml)
        n = [0]

        def comp(src=xml, out=None, overwrite=False):
            if out is None:
                n[0] += 1
                out = os.path.join(ctx.work, 'k%d_%d' % (k, n[0]))
            convert_to_pymorphy2(src, out, 'toy', 'ru', overwrite=overwrite, compile_options=dict(opts))
            return out

        def revision():
            other = dict(opts, paradigm_prefixes=rng.choice([['', 'по'], [''], ['', 'наи', 'по'], ['', 'най', 'якнай'],
                                                             ['', rng.choice(t.alpha)], ['', rng.choice(t.alpha) * 2]]),
                         max_suffix_length=rng.choice([1, 2, 3, 4, 5, 6, 9, 14]), min_ending_freq=rng.randint(1, 4),
                         min_paradigm_popularity=rng.randint(0, 5))
            src = xml
            if rng.random() < .7:
                t3 = Toy.__new__(Toy)
                t3.__dict__.update(t.__dict__)
                t3.prefixes = other['paradigm_prefixes']
                t3.lexemes = collections.OrderedDict()
                respell = rng.choice([0, 0, .3, .8])
                for i, (b, fs) in t.lexemes.items():
                    how = rng.random()
                    if b is not None and rng.random() < respell:
                        # the same tags, written in another order
                        b, fs = list(b), [(w, gr[::-1]) for w, gr in fs]
                    elif b is not None and how < .3:
                        # other tags for the same forms
                        b = [rng.choice(t.pos)]
                        fs = [(w, [g for g in gr if g not in b]) for w, gr in fs]
                    elif b is not None and how < .5:
                        fs = rng.sample(fs, rng.randint(1, len(fs)))
                    elif how < .6:
                        b, fs = None, []
                    t3.lexemes[i] = b, fs
                t3.links = rng.sample(t.links, len(t.links) // 2)
                src = xml + '.rev'
                write(t3, src)
            n[0] += 1
            out = os.path.join(ctx.work, 'rev%d_%d' % (k, n[0]))
            convert_to_pymorphy2(src, out, 'toy', 'ru', compile_options=dict(other))
            shutil.rmtree(out)
            if src != xml:
                os.remove(src)
            ctx.count('revisions')

        # another revision may have been the first one
        if k % 2:
            revision()
        ref = comp()
        base = snapshot(ref)
        ctx.current = 'dictionary %d %r' % (k, opts)

        def same(path, how):
            ctx.ev()
            ctx.count('comparisons')
            ctx.count('with_' + how)
            ctx.nt((ctx.shard, k, how))
            got = snapshot(path)
            if set(got) != set(base):
                ctx.violation('files', '%s: files %r, first time %r' % (how, sorted(got), sorted(base)))
            for fn in base:
                if got.get(fn) != base[fn]:
                    ctx.violation('differs', '%s: %s is not the same as the first time (%d/%d bytes; options %r)' % (
                        how, fn, len(got.get(fn, b'')), len(base[fn]), opts))
            if path != ref:
                shutil.rmtree(path)

        same(comp(), 'again')
        # other work in between
        m = pymorphy2.MorphAnalyzer(path=ref, lang='ru')
        for w in rng.sample(sorted(set(f[0] for b, fs in t.lexemes.values() if b is not None for f in fs)), 5):
            for p in m.parse(w):
                p.lexeme
        same(comp(), 'after_use')
        # other revisions of the dictionary, compiled with other options
        for x in range(rng.randint(1, 2)):
            revision()
        same(comp(), 'after_revisions')
        if earlier:
            # another dictionary, compiled into the folder first
            out = os.path.join(ctx.work, 'over%d' % k)
            convert_to_pymorphy2(earlier[0], out, 'other', 'uk', compile_options=dict(earlier[1]))
            comp(out=out, overwrite=True)
            a = snapshot(out)
            extra = sorted(fn for fn in set(a) - set(base) if not fn.startswith('prediction-suffixes-'))
            for fn in extra:
                ctx.violation('leftover', 'overwriting a dictionary left %s' % fn)
            for fn in set(a) - set(base):
                os.remove(os.path.join(out, fn))
            same(out, 'overwriting')
        # the process has compiled other dictionaries by now
        if k % 3 != 1:
            out = os.path.join(ctx.work, 'fresh%d' % k)
            env = dict(os.environ, PYTHONHASHSEED=str(rng.randint(1, 999)))
            subprocess.run([sys.executable, '-c', ONE, xml, out, json.dumps(opts)], check=True, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            same(out, 'fresh_process')
        if k % 3 == 0:
            outs, errs = [], []

            def work(src, o, options):
                try:
                    convert_to_pymorphy2(src, o, 'toy', 'ru', compile_options=dict(options))
                except Exception as e:
                    errs.append(e)
            ths = []
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-5)
            try:
                for i in range(3):
                    o = os.path.join(ctx.work, 'th%d_%d' % (k, i))
                    if i == 2 and earlier:
                        a = (earlier[0], o, earlier[1])
                    else:
                        a = (xml, o, opts)
                        outs.append(o)
                    ths.append(threading.Thread(target=work, args=a))
                [x.start() for x in ths]
                [x.join() for x in ths]
            finally:
                sys.setswitchinterval(old)
            if errs:
                ctx.violation('threads', 'compiling in concurrent threads: %r' % errs[0])
            else:
                for o in outs:
                    same(o, 'threads')
        # lemma order / numbering
        ids = list(t.lexemes)
        items = list(t.lexemes.items())
        rng.shuffle(items)
        t2 = Toy.__new__(Toy)
        t2.__dict__.update(t.__dict__)
        t2.lexemes = collections.OrderedDict(items)
        fn = xml + '.order'
        spellings = collections.defaultdict(set)
        for base_info, fs in t.lexemes.values():
            for w, gr in fs:
                # (loc1, gen1, acc1 are replaced)
                tag = ','.join(base_info or ()) + ' ' + ','.join(gr)
                tag = tag.strip().replace('loc1', 'loct').replace('gen1', 'gent').replace('acc1', 'accs')
                spellings[frozenset(tag.replace(' ', ',').split(','))].add(tag)
        if any(len(x) > 1 for x in spellings.values()):
            ctx.count('several_spellings')
        else:
            write(t2, fn)
            same(comp(src=fn), 'lemmas_reordered')
        step = rng.choice([1, 7, 1000, 10 ** 9])
        new, cur = {}, rng.choice([0, 5, 99, 10 ** 6])
        for i in sorted(ids, key=int):
            cur += rng.randint(1, step)
            new[i] = str(cur)
        t2.lexemes = collections.OrderedDict((new[i], v) for i, v in t.lexemes.items())
        t2.links = [(new.get(a, a + '0' * 20), new.get(b, b + '0' * 20), x) for a, b, x in t.links]
        write(t2, fn)
        same(comp(src=fn), 'lemmas_renumbered')
        os.remove(fn)
        if k == 0:
            ctx.sample(dict(options=opts, lemmas=len(ids), files=dict((f, len(b)) for f, b in base.items())))
        shutil.rmtree(ref)
        earlier = (xml, opts)
    ctx.require('with_fresh_process', 10)
    ctx.require('with_threads', 10)
    ctx.require('with_lemmas_reordered', 10)
