# -*- coding: utf-8 -*-
"""C18: compiling a dictionary loses and invents nothing."""
LEVEL = 'exploration'
RULE = ('random OpenCorpora XML dictionaries (regular classes, suppletive / repeated / overlapping / prefixed '
        'forms, deleted lexemes, all link types, link forests and link graphs with cycles), compiled by the '
        'code under test; the result is decoded by an independent reader and by parse().  Oracle: the '
        'generated lexemes, merged along links.  Non-trivial = distinct compiled lexemes with more than one form.')
ASSUMPTIONS = ['link graphs which are not forests are only checked for lost or invented forms']


def legs(tier):
    return [dict(name='forest', venv='fast', shards=5, timeout=800),
            dict(name='graph', venv='fast', shards=3, timeout=800),
            dict(name='big', venv='fast', shards=1, timeout=800)]


def subsequence(a, b):
    it = iter(b)
    return all(any(x == y for y in it) for x in a)


def one_spelling(t):
    """The same grammemes are always written the same way (C20 is about
    what happens otherwise); drops the lexemes which write them differently."""
    seen = {}
    for i, (base, forms) in list(t.lexemes.items()):
        tags = [t.tag(base or [], gr) for f, gr in forms]
        new = dict(seen)
        if all(new.setdefault(frozenset(x.replace(' ', ',').split(',')), x) == x for x in tags):
            seen = new
        else:
            del t.lexemes[i]


def run(ctx):
    import collections
    import os
    import shutil
    from mon.dictgen import Toy, compile_toy, entries, base_grammemes
    from mon.dictref import DictRef
    rng = ctx.rng
    G = base_grammemes()
    if ctx.leg == 'big':
        return big(ctx, G)
    ctx.require('dictionaries', 30)
    ctx.require('linked_lexemes', 200)
    sets = [('', 'по', 'наи'), ('',), ('', 'най', 'якнай', 'щонай'), ('', 'а', 'аб'),
            ('', 'а', 'б', 'в', 'г', 'аа', 'аб', 'ба', 'бб', 'ав', 'по', 'наи')]
    ctx.require('long_lexemes', 5)
    for k in range(ctx.scale(110, 900)):
        t = Toy(rng, G, prefixes=rng.choice(sets), alphabet=rng.choice(['абвг', 'аб', 'абвгдеёжзийклмнопрстуфхцчшщъыьэюя', 'аж-', 'xaб', 'аб ']))
        t.fill(rng.randint(5, 120), irregular=rng.choice([.1, .5, .9]), min_stem=rng.choice([1, 3, 6]))
        if rng.random() < .4:
            t.add(['NOUN'], [])
            t.lexemes[str(t.next_id + 5)] = (None, [])
            t.next_id += 7
            t.add([], [('безтега', []), ('безтегов', ['sing'])])
            t.add([], [('тольковформе', ['NOUN', 'sing'])])
        if k % 12 == 3:
            # as long as verbs with their participles, and longer
            ctx.count('long_lexemes')
            st, n = t.letters(2, 4), rng.choice([130, 260, 400])
            pos = rng.choice(t.pos)
            gs = [g for g in t.other if g != pos]
            t.add([pos], [(st + ''.join(t.alpha[(i // len(t.alpha) ** j) % len(t.alpha)] for j in range(9 if len(t.alpha) < 4 else 5)),
                           sorted(rng.sample(gs, rng.randint(1, 2)), key=t.rank.get)) for i in range(n)])
        # lexemes are listed in any order of ids
        if rng.random() < .5:
            items = list(t.lexemes.items())
            rng.shuffle(items)
            t.lexemes = collections.OrderedDict(items)
        t.lexemes = collections.OrderedDict((i, v) for i, v in t.lexemes.items() if v[0] is None or v[1])
        one_spelling(t)
        t.add_links(rng.randint(0, len(t.lexemes)), forest=ctx.leg == 'forest')
        out = os.path.join(ctx.work, 'd%d' % k)
        ctx.current = 'dictionary %d' % k
        compile_toy(t, out)
        ctx.ev()
        ctx.count('dictionaries')
        d = DictRef(out)
        have = entries(d)
        # everything stored, decoded: (form, position) -> whole lexeme
        dec = collections.defaultdict(list)
        for w, p, i in have:
            lex = tuple(d.lexeme(w, p, i))
            dec[lex].append((w, i))
            if lex[i][0] != w:
                ctx.violation('decode', 'entry %r decodes to %r' % ((w, p, i), lex[i]))
        for lex, pos in dec.items():
            if sorted(pos) != sorted((w, i) for i, (w, _) in enumerate(lex)):
                ctx.violation('partial', 'lexeme %r is only stored at %r' % (lex, pos))
        stored = collections.Counter(tuple(sorted(l)) for l in dec)
        plain = t.plain()
        if ctx.leg == 'forest':
            exp, orders = {}, collections.defaultdict(list)
            for head, forms, members in t.merged(plain):
                exp.setdefault(tuple(sorted(forms)), set()).add(tuple(head[:1]))
                orders[tuple(sorted(forms))].append((head, members))
                if len(members) > 1:
                    ctx.count('linked_lexemes', len(members))
                if len(forms) > 1:
                    ctx.nt(tuple(forms))
            for forms, heads in exp.items():
                got = [l for l in dec if tuple(sorted(l)) == forms]
                if not got:
                    ctx.violation('lost', 'lexeme %r is not in the compiled dictionary' % (forms[:6],))
                    continue
                # the forms of every source lexeme keep their order, those of
                # the target of the links come first
                ctx.count('order_compared')
                for own, members in orders[forms]:
                    if not any(l[:len(own)] == tuple(own) and all(subsequence(plain[i], l) for i in members) for l in got):
                        ctx.violation('order', 'the forms of lexeme %r are compiled to %r' % (own[:6], got[0][:8]))
                firsts = set((l[0],) for l in got)
                if not firsts >= set(h for h in heads if h):
                    ctx.violation('head', 'lexeme %r starts with %r, expected %r' % (forms[:6], firsts, heads))
            for l in dec:
                if tuple(sorted(l)) not in exp:
                    ctx.violation('invented', 'compiled dictionary has the lexeme %r' % (l[:6],))
        else:
            # every form of every lexeme, and nothing else
            want = collections.Counter(f for l in plain.values() for f in l)
            got = collections.Counter()
            for l in dec:
                got.update(l)
            if set(want) != set(got):
                ctx.violation('forms', 'lost: %r invented: %r' % (
                    sorted(set(want) - set(got))[:5], sorted(set(got) - set(want))[:5]))
            for i, l in plain.items():
                # the forms of one source lexeme stay together
                if l and not any(set(l) <= set(x) for x in dec):
                    ctx.violation('split', 'forms of lexeme %s are split: %r' % (i, l[:6]))
                if len(l) > 1:
                    ctx.nt(tuple(l))
            linked = [(a, b) for a, b, ty in t.links if ty not in ('7', '21', '23', '27')]
            ctx.count('linked_lexemes', len(linked))
            if not linked and stored != collections.Counter(set(tuple(sorted(l)) for l in plain.values() if l)):
                pass
        # and through the analyzer
        import pymorphy2
        m = pymorphy2.MorphAnalyzer(path=out)
        words = sorted(set(w for w, _, _ in have))
        for w in (words if len(words) < 60 else rng.sample(words, 60)):
            ctx.current = w
            got = sorted((p.word, str(p.tag), p.normal_form) for p in m.parse(w) if p.word == w and 'Init' not in str(p.tag))
            exp2 = sorted((w, lex[i][1], lex[0][0]) for lex, pos in dec.items() for x, i in pos if x == w)
            ctx.count('parsed_words')
            if got != exp2 and set(got) - set(exp2) | set(exp2) - set(got):
                if not all(x in got for x in exp2):
                    ctx.violation('parse', 'parse(%r) of the compiled dictionary: %r, expected %r' % (w, got[:4], exp2[:4]))
        ctx.sample(dict(lexemes=len(t.lexemes), links=len(t.links), stored_forms=len(have), paradigms=len(d.paradigms)))
        shutil.rmtree(out)
        os.remove(out + '.xml')


def big(ctx, G):
    """more than 32768 paradigms, endings and forms of one ending"""
    import os
    import pymorphy2
    from mon.dictgen import Toy, compile_toy, entries
    from mon.dictref import DictRef
    rng = ctx.rng
    ctx.require('big_paradigms', 33000)
    ctx.require('big_suffixes', 33000)
    ctx.require('big_tags', 1100)
    for k in range(ctx.scale(1, 4)):
        t = Toy(rng, G, prefixes=('', 'по', 'наи'))
        A, B = 'абвгдежзик', 'лмнопрстуф'
        name = lambda i, al, n: ''.join(al[i // 10 ** j % 10] for j in range(n))
        pos = rng.sample(t.pos, 4)
        # thousands of different tags
        more = [g for g in t.other if g not in ('sing', 'plur')]
        gr = lambda i: sorted(['sing', more[i % len(more)], more[(i + 1 + i // len(more) % (len(more) - 1)) % len(more)]], key=t.rank.get)
        for i in range(18000):
            # no common stem: both forms are endings
            t.add([pos[i % 4]], [(name(i, A, 5), ['sing'] if i % 3 else gr(i // 3)), (name(i * 7 % 100000, B, 5), ['plur'])])
        ends = [name(i, B, 2) for i in range(100)]
        pairs = [(a, b) for a in ends for b in ends if a != b and a[0] != b[0]]
        rng.shuffle(pairs)
        for i, (a, b) in enumerate(pairs[:8200]):
            st = name(rng.randrange(1000), 'хцчшщъыьэю', 4)
            t.add([pos[0]], [(st + a, ['sing']), ('по' + st + b, ['plur'])])
            t.add([pos[1]], [(st + a, ['plur']), (st + b, ['sing'])])
        for i in range(200):
            t.add([pos[2]], [(name(i, A, 3) + 'я', ['sing'])])
        out = os.path.join(ctx.work, 'big%d' % k)
        ctx.current = 'big dictionary %d' % k
        compile_toy(t, out, min_paradigm_popularity=rng.choice([0, 3]))
        ctx.ev()
        d = DictRef(out)
        ctx.count('big_paradigms', len(d.paradigms))
        ctx.count('big_suffixes', len(d.suffixes))
        ctx.count('big_tags', len(d.gramtab))
        have = set()
        for w, p, i in entries(d):
            lex = tuple(d.lexeme(w, p, i))
            if lex[i][0] != w:
                ctx.violation('decode', 'entry %r decodes to %r' % ((w, p, i), lex[i]))
            have.add(lex)
        exp = set(tuple(l) for l in t.plain().values())
        if have != exp:
            ctx.violation('big', 'of a big dictionary: lost %r, invented %r' % (sorted(exp - have)[:4], sorted(have - exp)[:4]))
        m = pymorphy2.MorphAnalyzer(path=out)
        lexs = sorted(exp)
        for _ in range(ctx.scale(1500, 10000)):
            lex = rng.choice(lexs)
            w, tag = rng.choice(lex)
            ctx.current = w
            ctx.count('parsed_words')
            ctx.nt((k, w))
            got = [(p.word, str(p.tag), p.normal_form, [(f.word, str(f.tag)) for f in p.lexeme]) for p in m.parse(w)]
            if (w, tag, lex[0][0], list(lex)) not in got:
                ctx.violation('big', 'parse(%r) of a big dictionary: %r, expected %r' % (w, got[:3], lex))
        ctx.sample(dict(paradigms=len(d.paradigms), suffixes=len(d.suffixes), lexemes=len(exp)))
