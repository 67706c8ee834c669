# -*- coding: utf-8 -*-
"""C20: tag simplification when a dictionary is compiled."""
LEVEL = 'exploration'
RULE = ('random dictionaries whose tags use the redundant case grammemes, the same grammemes in different '
        'orders and lexeme/form boundaries, and the grammeme of initials.  Oracle: every compiled tag has the '
        'grammemes of its source tag after replacing gen1/loc1/acc1; the same grammemes with an ambiguous '
        'order get one spelling, the most frequent one; forms marked as initials are dropped.  Non-trivial = '
        'a form whose tag has to change or go.')
ASSUMPTIONS = ['ties for the most frequent spelling may go either way']
REPL = dict(gen1='gent', loc1='loct', acc1='accs')


def legs(tier):
    return [dict(name='simplify', venv='fast', shards=8, timeout=800)]


def run(ctx):
    import collections
    import os
    import shutil
    from mon.dictgen import Toy, compile_toy, base_grammemes
    from mon.dictref import DictRef
    from pymorphy2.opencorpora_dict.parse import parse_opencorpora_xml
    from pymorphy2.opencorpora_dict.preprocess import simplify_tags
    rng = ctx.rng
    G = base_grammemes()
    names = [g[0] for g in G]
    if 'acc1' not in names:
        G = G + [('acc1', 'CAse', 'вн1', 'первый винительный')]
    if 'Init' not in names:
        G = G + [('Init', '', 'иниц', 'инициал')]
    ctx.require('replaced_case', 500)
    ctx.require('ambiguous_spellings', 300)
    ctx.require('initial_forms', 100)
    ctx.require('kept_spellings', 100)
    ctx.require('joined', 500)
    ctx.require('numerous', 50)
    for k in range(ctx.budget(60, 600)):
        t = Toy(rng, G)
        pool = rng.sample([o for o in t.other], rng.randint(2, 4)) + ['gen1', 'loc1', 'acc1', 'gent', 'loct', 'accs']
        t.lexemes.clear()
        n = 0
        tags = []
        for _ in range(rng.randint(2, 10)):
            pos = rng.choice(t.pos[:4])
            gr = rng.sample(pool[:-6], rng.randint(0, 2))
            if rng.random() < .6:
                gr.append(rng.choice(pool[-6:]))
            rng.shuffle(gr)
            b = rng.randint(0, len(gr))
            tags.append(([pos] + gr[:b], gr[b:]))
        for _ in range(rng.randint(0, 6)):
            # spelling variants of existing tags
            base, gr = rng.choice(tags)
            allg = base[1:] + gr
            inv = dict((v, kk) for kk, v in REPL.items())
            allg = [inv.get(g, g) if rng.random() < .3 else g for g in allg]
            if rng.random() < .7:
                rng.shuffle(allg)
            b = rng.randint(0, len(allg))
            tags.append(([base[0]] + allg[:b], allg[b:]))
        form_of = {}
        src = []
        for _ in range(rng.randint(5, 60)):
            n += 1
            base, gr = rng.choice(tags)
            forms = []
            for _ in range(rng.randint(1, 4)):
                w = t.letters(4, 7)
                while w in form_of:
                    w = t.letters(4, 7)
                same = [g for bb, g in tags if bb == base]
                g = list(rng.choice(same))
                if rng.random() < .06:
                    g.insert(rng.randint(0, len(g)), 'Init')
                forms.append((w, g))
                form_of[w] = None
            t.add(base, forms)
            src += [(w, t.tag(base, g)) for w, g in forms]
        out = os.path.join(ctx.work, 'd%d' % k)
        ctx.current = 'dictionary %d' % k
        compile_toy(t, out)
        ctx.ev()
        ctx.count('dictionaries')
        d = DictRef(out)
        got = collections.defaultdict(list)
        for w, v in d.iter_words(''):
            got[w].append(d.tag(*v))

        def rep(tag):
            return ' '.join(','.join(REPL.get(g, g) for g in part.split(',')) for part in tag.split(' '))

        def gset(tag):
            return frozenset(tag.replace(' ', ',', 1).split(','))
        spell = collections.defaultdict(collections.Counter)
        for w, tag in src:
            spell[gset(rep(tag))][rep(tag)] += 1
        for w, tag in src:
            key = gset(rep(tag))
            if 'Init' in tag:
                ctx.count('initial_forms')
                ctx.nt((k, ctx.shard, w))
                if w in got:
                    ctx.violation('init', 'form %r %r (an initial) is in the compiled dictionary' % (w, tag))
                continue
            if len(got[w]) != 1:
                ctx.violation('lost', 'form %r %r is compiled to %r' % (w, tag, got[w]))
                continue
            g = got[w][0]
            if rep(tag) != tag:
                ctx.count('replaced_case')
                ctx.nt((k, ctx.shard, w))
            if set(REPL) & gset(g):
                ctx.violation('case', 'form %r: compiled tag %r has a redundant case' % (w, g))
            if gset(g) != key:
                ctx.violation('grammemes', 'form %r: tag %r is compiled to %r' % (w, tag, g))
                continue
            sp = spell[key]
            bounds = [s.index(' ') if ' ' in s else None for s in sp]
            if len(sp) > 1 and len(set(bounds)) < len(bounds):
                ctx.count('ambiguous_spellings')
                ctx.nt((k, ctx.shard, w))
                top = max(sp.values())
                if sp.get(g) != top:
                    ctx.violation('spelling', 'form %r: tag %r is compiled to %r; spellings %r' % (w, tag, g, dict(sp)))
            else:
                if len(sp) > 1:
                    ctx.count('kept_spellings')
                if g != rep(tag):
                    ctx.violation('changed', 'form %r: tag %r is compiled to %r' % (w, tag, g))
        # one spelling per set of grammemes and boundary
        seen = {}
        for g in set(x for v in got.values() for x in v):
            kk = (gset(g), g.find(' '))
            if kk in seen:
                ctx.violation('duplicate', 'compiled dictionary has %r and %r' % (g, seen[kk]))
            seen[kk] = g
        extra = set(got) - set(w for w, _ in src)
        if extra:
            ctx.violation('invented', 'forms %r' % sorted(w for w in extra)[:4])
        ctx.sample(dict(tags=[t.tag(*x) for x in tags][:5], gramtab=d.gramtab[:5]))
        # the step on its own, with both settings, and once more
        for skip in (True, False):
            ctx.current = 'simplify_tags(skip_space_ambiguity=%r), dictionary %d' % (skip, k)
            parsed = parse_opencorpora_xml(out + '.xml')
            if rng.random() < .3:
                # many lexemes of each kind
                for i in list(parsed.lexemes):
                    for j in range(rng.choice([0, 20, 130, 260, 300])):
                        parsed.lexemes['%s0000%d' % (i, j)] = list(parsed.lexemes[i])
                ctx.count('numerous')
            before = [(i, w, tag) for i, l in parsed.lexemes.items() for w, tag in l]
            simplify_tags(parsed, skip_space_ambiguity=skip)
            after = [(i, w, tag) for i, l in parsed.lexemes.items() for w, tag in l]
            if [x[:2] for x in before] != [x[:2] for x in after]:
                ctx.violation('direct_forms', '%s changes the forms' % ctx.current)
                continue
            cnt = collections.defaultdict(collections.Counter)
            for i, w, tag in before:
                cnt[gset(rep(tag))][rep(tag)] += 1
            for (i, w, tag), (_, _, new) in zip(before, after):
                ctx.count('direct')
                sp = cnt[gset(rep(tag))]
                bounds = [s.index(' ') if ' ' in s else None for s in sp]
                amb = len(sp) > 1 and (not skip or len(set(bounds)) < len(bounds))
                if (sp.get(new) != max(sp.values())) if amb else (new != rep(tag)):
                    ctx.violation('direct', '%s: tag %r of %r becomes %r; spellings %r' % (ctx.current, tag, w, new, dict(sp)))
                if amb and not skip and len(sp) > 1:
                    ctx.count('joined')
            if not skip:
                one = {}
                for i, w, tag in after:
                    if one.setdefault(gset(tag), tag) != tag:
                        ctx.violation('direct_dup', '%s leaves %r and %r' % (ctx.current, tag, one[gset(tag)]))
            simplify_tags(parsed, skip_space_ambiguity=skip)
            if after != [(i, w, tag) for i, l in parsed.lexemes.items() for w, tag in l]:
                ctx.violation('again', '%s changes simplified tags' % ctx.current)
        shutil.rmtree(out)
        os.remove(out + '.xml')
