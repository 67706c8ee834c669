# -*- coding: utf-8 -*-
"""C30: the command line tool."""
LEVEL = 'exploration'
RULE = ('random texts and token lists (repeated tokens, any script, empty lines, all line endings) x all combinations '
        'of options (-l -s -t, --thresh, --tokenized, cache sizes 0, 1, 2, 3, 20000, unlim; file or standard input), '
        'executed in-process and as the real console program.  Oracle: one output line per token, in order, rendered '
        'from what the API says about the token.  "dict meta" has to show all the metadata.  Non-trivial = distinct '
        '(options, text) with at least one output line.')
ASSUMPTIONS = ['lemmas with equal total scores may be printed in any order']


def legs(tier):
    return [dict(name='parse', venv='slow', shards=5, timeout=850),
            dict(name='process', venv='slow', shards=2, timeout=850),
            dict(name='process-fast', venv='fast', shards=1, timeout=850)]


def prepare(scratch):
    from mon.subset import prepare as sub
    return {'SUBSET': sub(scratch, zeros=True)}


MAIN = 'import sys; from pymorphy2.cli import main; main()'


def run(ctx):
    import io
    import os
    import subprocess
    import sys
    import pymorphy2
    from mon.env import Env, ru_path
    from mon.checks.c28 import expected as tokenize
    rng = ctx.rng
    path = os.environ['SUBSET']
    env = Env(ctx, path=path, prefixes=40, model=False)
    morphs = {path: env.morph}
    kinds = [k for k in env.tokens.kinds if k not in ('sharp',)]
    # words with impossible lemmas or with scores some threshold can meet exactly
    edgy, exact = [], set()
    for w in env.words.words:
        ps = env.morph.parse(w)
        tot = {}
        for p in ps:
            tot[p.normal_form] = tot.get(p.normal_form, 0) + p.score
        if len(tot) > 1 and 0 in tot.values() or any(p.score == 0 for p in ps) and rng.random() < .2:
            edgy.append(w)
            exact.update(x for x in list(tot.values()) + [p.score for p in ps] if 0 < x)
    edgy = edgy or ['стали']
    exact = sorted(exact) or [.125]
    ctx.count('words_with_impossible_lemmas', len(edgy))

    def oracle(tok, m, o):
        """set of acceptable output lines"""
        ps = m.parse(tok)
        th = o['thresh']
        wrap = lambda seq: '%s{%s}\n' % (tok, '|'.join(seq))
        l, s, t = o['l'], o['s'], o['t']
        if l and t:
            if s:
                return [wrap(['%s:%0.3f=%s' % (p.normal_form, p.score, p.tag) for p in ps if p.score >= th])]
            return [wrap(['%s:%s' % (p.normal_form, p.tag) for p in ps if p.score >= th])]
        if t:
            if s:
                return [wrap(['%0.3f=%s' % (p.score, p.tag) for p in ps if p.score >= th])]
            a = wrap([str(p.tag) for p in ps if p.score >= th])
            b = wrap([str(x) for x in m.tag(tok)])
            return [a] if th > 0 else [a, b] if th < 0 else [b]
        tot = {}
        for p in ps:
            tot[p.normal_form] = tot.get(p.normal_form, 0) + p.score
        items = sorted([(w, k) for k, w in tot.items() if w >= th], key=lambda x: -x[0])
        # any order among equals
        groups = []
        for w, k in items:
            if groups and abs(groups[-1][0] - w) < 1e-12:
                groups[-1][1].append(k)
            else:
                groups.append((w, [k]))
        import itertools
        outs = []
        for combo in itertools.islice(itertools.product(*[itertools.permutations(g) for _, g in groups]), 500):
            seq = []
            for (w, _), ks in zip(groups, combo):
                seq += ['%s:%0.3f' % (k, w) if s else k for k in ks]
            outs.append(wrap(seq))
        return outs

    def options():
        o = dict(l=False, s=False, t=False, thresh=0.0, tokenized=False, cache=20000)
        args = []
        pick = rng.choice(['', '', 'l', 't', 'lt', 'ls', 'st', 'lst'])
        for x in pick:
            o[x] = True
            args.append(rng.choice(['-' + x, {'l': '--lemmatize', 's': '--score', 't': '--tag'}[x]]))
        if not pick:
            o.update(l=True, s=True, t=True)
        if rng.random() < .5:
            o['thresh'] = rng.choice([0.0, .01, .1, .25, .5, .9, 1.0, 1.1, round(rng.random(), 3), rng.choice(exact)])
            args += ['--thresh', str(o['thresh'])]
        if rng.random() < .5:
            o['tokenized'] = True
            args.append('--tokenized')
        if rng.random() < .8:
            o['cache'] = rng.choice(['0', '1', '2', '3', '20000', 'unlim'])
            args += [rng.choice(['-c', '--cache']), o['cache']]
        rng.shuffle(args) if not any(a[:1] != '-' for a in args) else None
        return o, args

    def text(o, n):
        pool = []
        for _ in range(rng.randint(1, max(1, n // 2))):
            w = env.tokens.gen(rng.choice(kinds)) if rng.random() < .6 else rng.choice([env.words.pick(), rng.choice(edgy)])
            if rng.random() < .2:
                w = w.upper() if rng.random() < .5 else w.title()
            pool.append(w)
            if rng.random() < .3:
                pool.append(w.lower())
        toks = [rng.choice(pool) for _ in range(n)]
        nl = rng.choice(['\n', '\n', '\r\n', '\r'])
        if o['tokenized']:
            lines = []
            for t in toks:
                t = ''.join(c for c in t if c not in '\r\n')
                lines.append(rng.choice(['', '', '', ' ', '\t']) + t + rng.choice(['', '', ' ', '  ']))
                if rng.random() < .1:
                    lines.append(rng.choice(['', ' ', '\t ']))
            txt = nl.join(lines) + rng.choice(['', nl])
        else:
            txt = ''
            for t in toks:
                txt += t + rng.choice([' ', ' ', ', ', ' - ', '. ', nl, nl + nl, '!', '; «', '\t'])
        return ''.join(c for c in txt if c not in '\x1c\x1d\x1e\x1f\x00\x01' and not 0xd800 <= ord(c) < 0xe000)

    def expected_tokens(txt, o):
        lines = io.StringIO(txt, newline=None).read().split('\n')
        if o['tokenized']:
            return [l.strip() for l in lines if l.strip()]
        return [t for l in lines for t in tokenize(l)]

    def verify(out, txt, o, args, m, how):
        toks = expected_tokens(txt, o)
        ctx.ev()
        ctx.count('runs')
        pos = 0
        memo = {}
        for i, tok in enumerate(toks):
            ok = memo.get(tok)
            if ok is None:
                ok = memo[tok] = oracle(tok, m, o)
            for line in ok:
                if out.startswith(line, pos):
                    pos += len(line)
                    ctx.count('lines')
                    break
            else:
                got = out[pos:pos + 300].split('}\n')[0]
                ctx.violation('output', '%s with %r: line %d (token %a) is %a..., expected %a; input %a' % (
                    how, args, i, tok, got, ok[:2], txt[:200]))
                return
        if pos != len(out):
            ctx.violation('extra', '%s with %r: extra output %a for %a' % (how, args, out[pos:pos + 300], txt[:200]))
        if toks:
            ctx.nt((tuple(args), txt))
        ctx.sample(dict(arguments=args, text=txt[:60], output=out[:120]))

    def inprocess(args, txt, via, m_path):
        from pymorphy2 import cli
        fn = os.path.join(ctx.work, 'in.txt')
        full = ['parse'] + args + ['--dict', m_path]
        so, si = sys.stdout, sys.stdin
        buf = io.StringIO()
        try:
            sys.stdout = buf
            if via == 'stdin':
                sys.stdin = io.StringIO(txt, newline=None)
                if rng.random() < .5:
                    full.append('-')
            else:
                with open(fn, 'w', encoding='utf8', newline='') as f:
                    f.write(txt)
                full.append(fn)
            cli.main(full)
        except SystemExit as e:
            ctx.violation('status', 'pymorphy %r ends with %s' % (full, str(e)[:300]))
        finally:
            sys.stdout, sys.stdin = so, si
        return buf.getvalue(), full

    ctx.require('lines', 2000)
    ctx.require('runs', 100)
    if ctx.leg == 'parse':
        for i in range(ctx.budget(500, 6000)):
            o, args = options()
            txt = text(o, rng.choice([1, 3, 10, 40, 120]))
            ctx.current = (args, txt)
            out, full = inprocess(args, txt, rng.choice(['file', 'stdin']), path)
            verify(out, txt, o, args, env.morph, 'pymorphy parse')
            if i % 5 == 0:
                # cache size and input method don't matter
                base = [a for a in args]
                outs = set()
                for c in ('0', '1', '2', '20000', 'unlim'):
                    a2 = [a for k, a in enumerate(base) if a not in ('-c', '--cache') and (k == 0 or base[k - 1] not in ('-c', '--cache'))]
                    outs.add(inprocess(a2 + ['-c', c], txt, rng.choice(['file', 'stdin']), path)[0])
                ctx.count('cache_comparisons')
                if len(outs) > 1:
                    ctx.violation('cache', 'output depends on the cache size with %r for %a' % (base, txt[:300]))
        ctx.require('cache_comparisons', 50)
        return
    # the real program
    ctx.require('processes', 10)
    exe = sys.executable
    ru = pymorphy2.MorphAnalyzer(path=ru_path(), lang='ru')
    for i in range(ctx.budget(8, 120)):
        o, args = options()
        txt = text(o, rng.choice([5, 200, 3000]))
        default = i % 2 == 0 and ctx.leg == 'process'
        full = ['parse'] + args + ([] if default else ['--dict', path]) + (['--lang', 'ru'] if rng.random() < .3 else [])
        e = dict(os.environ)
        inp = b''
        # (whether the standard input translates a lone CR is up to the interpreter)
        if rng.random() < .5 and '\r' not in txt.replace('\r\n', '\n'):
            inp = txt.encode('utf8')
        else:
            fn = os.path.join(ctx.work, 'in.txt')
            with open(fn, 'wb') as f:
                f.write(txt.encode('utf8'))
            full.append(fn)
        p = subprocess.run([exe, '-c', MAIN] + full, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
        ctx.count('processes')
        ctx.current = (full, txt[:200])
        if p.returncode != 0:
            ctx.violation('status', 'pymorphy %r ends with status %r: %s' % (full, p.returncode, p.stderr[-600:]))
            continue
        verify(p.stdout.decode('utf8'), txt, o, args, ru if default else env.morph, 'program')
    for a, m in ((['--dict', path], env.morph), (['--lang', 'ru'], ru), ([], ru)):
        if m is ru and ctx.leg != 'process':
            continue
        p = subprocess.run([exe, '-c', MAIN, 'dict', 'meta'] + a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode('utf8')
        ctx.count('meta')
        for k, v in m.dictionary.meta.items():
            if p.returncode != 0 or '%s: %s' % (k, v) not in out:
                ctx.violation('meta', '"pymorphy dict meta %s" does not show %s: %s (status %r)' % (' '.join(a), k, v, p.returncode))
    ctx.require('meta', 3)
