# -*- coding: utf-8 -*-
"""C22: an interrupted compilation never leaves a mixed-up dictionary."""
LEVEL = 'fault_enumeration'
RULE = ('a preloaded library numbers every file-changing operation of saving a random dictionary (new folder; over '
        'an existing dictionary; adding P(t|w) estimates) and kills the process before, in the middle of and after '
        'each of them, or makes it fail (ENOSPC, EIO, EACCES; once or from then on); afterwards the folder is loaded '
        'by another process and compared with the complete old and new dictionaries.  Non-trivial = distinct '
        '(scenario, operation, fault) combinations.')
ASSUMPTIONS = ['completed file operations are durable (a crash of the process, not of the machine)',
               'operations not visible to libc interposition would be missed; the log of operations is checked to '
               'contain every file of the dictionary']


def legs(tier):
    return [dict(name='faults', venv='fast', shards=8, timeout=850)]


def prepare(scratch):
    import os
    import subprocess
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    so = os.path.join(scratch, 'faultfs.so')
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', so,
                    os.path.join(here, 'native', 'faultfs.c'), '-ldl'], check=True)
    return {'LD_PRELOAD': so, 'FAULTFS': so}


def run(ctx):
    import ctypes
    import errno
    import hashlib
    import json
    import os
    import shutil
    import sys
    lib = ctypes.CDLL(os.environ['FAULTFS'])
    lib.fault_log.restype = ctypes.c_char_p
    os.environ.pop('LD_PRELOAD', None)
    import pymorphy2
    from pymorphy2.opencorpora_dict.storage import load_dict, update_meta, load_meta
    from pymorphy2.dawg import ConditionalProbDistDAWG
    from mon.dictgen import Toy, base_grammemes
    rng = ctx.rng
    G = base_grammemes()
    devnull = os.open(os.devnull, os.O_WRONLY)

    def digest(path):
        """what a user of the dictionary gets; raises when it is refused"""
        morph = pymorphy2.MorphAnalyzer(path=path)
        d = morph.dictionary
        words = sorted([w, list(v)] for w, v in d.words.iteritems(u''))
        v = dict(
            gramtab=[[str(t), t.cyr_repr] for t in d.gramtab], suffixes=list(d.suffixes), paradigms=[list(p) for p in d.paradigms],
            words=words, pred=[sorted([w, list(v)] for w, v in x.iteritems(u'')) for x in d.prediction_suffixes_dawgs],
            prefixes=list(d.paradigm_prefixes), grammemes=sorted([g, morph.lat2cyr(g)] for g in morph.TagClass.KNOWN_GRAMMEMES),
            meta=sorted([k, x] for k, x in d.meta.items() if k != 'compiled_at' and not k.startswith('P(t|w)')))
        est = morph.prob_estimator
        out = dict((k, hashlib.md5(json.dumps(x, sort_keys=True).encode('utf8')).hexdigest()) for k, x in v.items())
        out['scores'] = ''
        if est is not None:
            sc = [[w, str(p.tag), p.score] for w in sorted(set(w for w, _ in words))[:60] for p in morph.parse(w)]
            out['scores'] = hashlib.md5(json.dumps(sc).encode('utf8')).hexdigest()
        return out

    def child(fn):
        """run fn in a forked process -> (exit status, value)"""
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            try:
                v = ('ok', fn())
            except BaseException as e:
                v = ('exc', '%s: %s' % (type(e).__name__, e))
            lib.fault_disarm()
            data = json.dumps(v).encode('utf8')
            while data:
                data = data[os.write(w, data):]
            os._exit(0)
        os.close(w)
        buf = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            buf += b
        os.close(r)
        st = os.waitpid(pid, 0)[1]
        if st == 0:
            return json.loads(buf.decode('utf8'))
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
            return ['crashed', None]
        return ['died', st]

    def copy(src, dst):
        if src is None:
            if os.path.isdir(dst):
                shutil.rmtree(dst)
        else:
            if os.path.isdir(dst):
                shutil.rmtree(dst)
            shutil.copytree(src, dst)

    ctx.require('crash_points', 200)
    ctx.require('error_points', 200)
    ctx.require('refused_after', 100)
    ctx.require('old_after', 20)
    ctx.require('new_after', 20)
    ctx.require('dawg_writes', 4)

    def scenario(name, old, action, out):
        """old: folder to start from (None: nothing there)"""
        copy(old, out)
        want_old = None
        if old:
            st, want_old = child(lambda: digest(out))
            if st != 'ok':
                raise RuntimeError('reference %r %r' % (name, want_old))

        def counted():
            lib.fault_arm(out.encode('utf8'), 0, 0, 0)
            action(out)
            return lib.fault_count(), lib.fault_log().decode('utf8', 'replace')
        st, v = child(counted)
        if st != 'ok':
            ctx.violation('%s: fails' % name, 'without faults: %r %r' % (st, v))
            return
        nops, log = v
        ctx.count('operations', nops)
        ctx.count('dawg_writes', log.count('dawg'))
        st, want_new = child(lambda: digest(out))
        if st != 'ok':
            ctx.violation('%s: fails' % name, 'the new dictionary does not load: %r' % want_new)
            return
        missing = [f for f in sorted(os.listdir(out)) if f not in log]
        if old is None and missing:
            raise RuntimeError('operations on %r were not seen' % missing)
        plans = []
        for k in range(1, nops + 1):
            ps = [(k, 1, 0), (k, 2, 0), (k, 3, 0), (k, 4, rng.choice([errno.ENOSPC, errno.EIO, errno.EACCES])),
                  (k, 5, rng.choice([errno.ENOSPC, errno.EIO]))]
            if ctx.quick:
                # after k = before k+1, up to buffered data; both kinds of
                # failures are the same for most of the operations
                write = ' write ' in log.split('\n')[k - 1]
                ps = [ps[1 if write else 0 if k > 1 else 2], rng.choice(ps[3:])] + ([ps[2]] if k == nops else [])
            plans += ps
        for k, mode, err in plans:
            copy(old, out)

            def faulty():
                lib.fault_arm(out.encode('utf8'), k, mode, err)
                action(out)
            st, v = child(faulty)
            ctx.current = (name, k, mode, err)
            where = '%s, %s operation %d/%d (%s)' % (
                name, {1: 'killed before', 2: 'killed inside', 3: 'killed after'}.get(mode, 'errno %d at' % err), k, nops,
                log.split('\n')[k - 1])
            if mode <= 3 and st != 'crashed':
                raise RuntimeError('%s: process was not killed: %r %r' % (where, st, v))
            if st == 'died':
                ctx.violation('%s: died' % name, '%s: the process died with status %r' % (where, v))
                continue
            ctx.ev()
            ctx.nt((name, ctx.shard, k, mode, log.split('\n')[k - 1].rsplit('/')[-1]))
            ctx.count('crash_points' if mode <= 3 else 'error_points')
            lst, got = child(lambda: digest(out))
            if lst == 'ok':
                what = 'new' if got == want_new else 'old' if got == want_old else 'mixed'
                ctx.count(what + '_after')
                if what == 'mixed':
                    # content and estimates may be told apart
                    diff = [x for x in got if got[x] != want_new[x]]
                    diff_old = [x for x in got if want_old is None or got[x] != want_old[x]]
                    ctx.violation('%s: mixed' % name, '%s: a dictionary which is neither the old nor the new one is '
                                  'loaded without complaint (differs from the new one in %s, from the old one in %s)' % (
                                      where, diff, diff_old))
            else:
                ctx.count('refused_after')
            if st == 'ok' and mode >= 4:
                ctx.count('reported_ok')
                ctx.sample(dict(ok=where))
                if not (lst == 'ok' and got == want_new):
                    ctx.violation('%s: silent failure' % name, '%s: reported as a success, but the dictionary is %r' % (
                        where, 'incomplete' if lst == 'ok' else got))
            ctx.sample(dict(where=where, outcome=st, afterwards=lst))
        if os.path.isdir(out):
            shutil.rmtree(out)

    def aliases(gr):
        return [(n, par, '%s%d' % (al or '', rng.randint(0, 99)) if rng.random() < .2 else al, ds) for n, par, al, ds in gr]

    def toy():
        gr = aliases(G + [('Zz%02d' % x, rng.choice(['', 'CAse', 'POST']), 'зз%d' % x, '') for x in range(rng.randint(0, 3))])
        t = Toy(rng, gr, alphabet='абвгдежз', prefixes=rng.choice([('', 'по', 'наи'), ('',), ('', 'б')]))
        t.fill(rng.randint(5, 60), irregular=.2)
        t.add_links(rng.randint(0, 4))
        return t

    for i in range(ctx.scale(1, 12)):
        base = os.path.join(ctx.work, 'b%d' % i)
        out = os.path.join(ctx.work, 'o%d' % i)
        ta, tb = toy(), toy()
        if rng.random() < .4:
            # similar dictionaries: same sizes everywhere
            tb = toy()
            tb.prefixes = ta.prefixes
            tb.grammemes = aliases(ta.grammemes)
            tb.lexemes.clear()
            del tb.links[:]
            for a, (b, fs) in ta.lexemes.items():
                tb.lexemes[a] = (b, [(f.translate({ord('а'): 'б', ord('б'): 'а'}), g) for f, g in fs])
        for n, t in (('a', ta), ('b', tb)):
            t.to_xml(base + n)
        from pymorphy2.opencorpora_dict.compile import convert_to_pymorphy2

        def comp(t):
            return lambda p: convert_to_pymorphy2(base + ('a' if t is ta else 'b'), p, 'toy', 'ru', overwrite=True,
                                                  compile_options=dict(paradigm_prefixes=list(t.prefixes)))
        a_dir = base + '-a'
        child(lambda: comp(ta)(a_dir))
        est_dir = base + '-est'
        shutil.copytree(a_dir, est_dir)

        def estimates(k):
            def f(p):
                from pymorphy2.opencorpora_dict import probability
                morph = pymorphy2.MorphAnalyzer(path=p, probability_estimator_cls=None)
                words = sorted(set(w for w, _ in morph.dictionary.words.iteritems(u'')))

                class D(object):
                    def __init__(self, w):
                        self.w = w

                    def N(self):
                        return 100

                    def freqdist(self):
                        return self

                    def prob(self, grammemes):
                        import zlib
                        return (zlib.crc32((self.w + ','.join(sorted(grammemes)) + str(k)).encode('utf8')) % 1000) / 1001.

                class C(dict):
                    def conditions(self):
                        return list(self)
                saved = probability.estimate_conditional_tag_probability
                probability.estimate_conditional_tag_probability = lambda *a, **kw: (C((w, D(w)) for w in words), D(''))
                try:
                    probability.add_conditional_tag_probability('none', p, 1, morph=morph)
                finally:
                    probability.estimate_conditional_tag_probability = saved
            return f
        st, v = child(lambda: estimates(1)(est_dir))
        if st != 'ok':
            raise RuntimeError('estimates: %r' % v)
        scenario('new folder', None, comp(ta), out)
        scenario('overwrite', a_dir, comp(tb), out)
        scenario('overwrite with estimates', est_dir, comp(tb), out)
        scenario('add estimates', a_dir, estimates(2), out)
        scenario('replace estimates', est_dir, estimates(3), out)
        for p in (a_dir, est_dir):
            shutil.rmtree(p)
