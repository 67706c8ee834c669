# -*- coding: utf-8 -*-
"""C37: reading OpenCorpora XML."""
LEVEL = 'exploration'
RULE = ('random source dictionaries written as XML in many ways (encodings, quotes, character references, attribute order, '
        'white space, comments, CDATA, unknown elements and attributes, empty sections, links before lexemes, upper-case '
        'forms, forms without grammemes, deleted lexemes).  Oracle: the generated lexemes, links, grammemes, version and '
        'revision.  A truncated or damaged file has to be an error and nothing may be compiled from it.  Non-trivial = '
        'distinct (dictionary, formatting).')
ASSUMPTIONS = ['only well-formed XML with the documented elements is read; lexeme ids are unique']


def legs(tier):
    return [dict(name='fast', venv='fast', shards=4, timeout=850),
            dict(name='slow', venv='slow', shards=2, timeout=850)]


def run(ctx):
    import os
    import shutil
    from pymorphy2.opencorpora_dict.parse import parse_opencorpora_xml, get_dictionary_info
    from mon.dictgen import Toy, base_grammemes
    rng = ctx.rng
    G0 = base_grammemes()
    ctx.require('files', 60)
    ctx.require('lexemes', 3000)
    ctx.require('damaged', 30)

    def attr(v):
        q = rng.choice('"\'')
        out = []
        for c in v:
            if c in '<&' or c == q or c in '>"\'' and rng.random() < .5:
                out.append({'<': '&lt;', '&': '&amp;', '"': '&quot;', "'": '&apos;', '>': '&gt;'}[c] if rng.random() < .7 else '&#%d;' % ord(c))
            elif rng.random() < F['ref'] or ord(c) >= 128 and F['ascii']:
                out.append(rng.choice(['&#%d;', '&#x%x;']) % ord(c))
            else:
                out.append(c)
        return q + ''.join(out) + q

    def text(v):
        if v and ']]>' not in v and rng.random() < F['cdata'] and not F['ascii']:
            return '<![CDATA[%s]]>' % v
        return attr(v)[1:-1] if v else ''

    def ws():
        return rng.choice(['', '', ' ', '\n', '\t\n  ']) if F['ws'] else ''

    def noise():
        r = rng.random()
        if r < F['noise'] / 2:
            return '<!-- %s -->' % rng.choice(['x', '<lemma id="7"/>', 'link', 'ё' if not F['ascii'] else 'e'])
        if r < F['noise']:
            return rng.choice(['<?pi x?>', '<unknown a="1"/>', '<unknown><x t="y"/></unknown>'])
        return ''

    def el(name, attrs, body):
        attrs = list(attrs)
        if F['shuffle']:
            rng.shuffle(attrs)
        if F['extra'] and rng.random() < .3:
            attrs.insert(rng.randint(0, len(attrs)), ('extra%d' % rng.randint(0, 9), 'v'))
        a = ''.join(' %s=%s' % (k, attr(v)) for k, v in attrs) + ws()
        if not body and rng.random() < .5:
            return '<%s%s/>' % (name, a)
        return '<%s%s>%s</%s>' % (name, a, body, name)
    for k in range(ctx.budget(25, 300)):
        F = dict(ref=rng.choice([0, 0, .1]), cdata=rng.choice([0, 0, .3]), ws=rng.random() < .6, noise=rng.choice([0, 0, .2]),
                 shuffle=rng.random() < .5, extra=rng.random() < .5, ascii=False)
        enc = rng.choice(['utf-8', 'utf-8', 'utf-8-sig', 'utf-16', 'us-ascii'])
        F['ascii'] = enc == 'us-ascii'
        G = list(G0)
        if rng.random() < .5:
            G = G + [('Zz%02d' % i, rng.choice(['', 'POST', 'Zz00']), 'зз%d' % i, rng.choice(['', 'a <b> & "c"', ' x '])) for i in range(rng.randint(1, 5))]
        t = Toy(rng, G, alphabet=rng.choice(['абвг', 'абёxq-\'', "аб&<>\"'", 'абвгґєіїʼ', 'аб -.1', 'абИ\u0306е\u0308\u00ad', 'абS\u0130\u03a3\U0001d4d0']))
        t.fill(rng.choice([0, 3, 40, 120]), irregular=.4)
        t.add_links(rng.choice([0, 3, 20]) if t.lexemes else 0)
        version, revision = rng.choice(['0.92', '1', 'ё"<' if not F['ascii'] else 'e"<']), str(rng.randint(1, 10 ** 6))
        lex_exp, rows = {}, []
        for i, (base, forms) in t.lexemes.items():
            if base is None:
                lex_exp[i] = []
                rows.append(el('lemma', [('id', i), ('rev', '1')], ''))
                continue
            forms = list(forms)
            bare = False
            if rng.random() < .1:
                base = []                            # only the forms carry grammemes
                bare = any(not g for _, g in forms)
            elif rng.random() < .1:
                forms = [(f, []) for f, g in forms]
            upper = rng.random() < .2
            exp, body = [], []
            body.append(noise() + el('l', [('t', forms[0][0])], ''.join(ws() + noise() + el('g', [('v', g)], '') for g in base) + noise()))
            for f, g in forms:
                w = f.upper() if upper and f.upper().lower() == f else f
                body.append(ws() + noise() + el('f', [('t', w)], noise() + ''.join(el('g', [('v', x)], '') + ws() + noise() for x in g)))
                exp.append((f.lower(), (','.join(base) + ' ' + ','.join(g)).strip()))
            lex_exp[i] = [] if bare else exp
            rows.append(el('lemma', [('id', i), ('rev', '1')], ''.join(body) + ws() + noise()))
        grs = ''.join(ws() + noise() + el('grammeme', [('parent', p or '')], ''.join(ws() + noise() + el(n, [], text(v or '')) for n, v in (
            ('name', n), ('alias', al), ('description', ds))) + noise()) for n, p, al, ds in G)
        links = ''.join(noise() + el('link', [('id', str(j + 1)), ('from', a), ('to', b), ('type', ty)], ws() + noise()) for j, (a, b, ty) in enumerate(t.links))
        parts = ['<grammemes>%s</grammemes>' % grs, '<restrictions/>', '<lemmata>%s</lemmata>' % ''.join(ws() + noise() + r for r in rows),
                 '<link_types><type id="1">ADJF-ADJS</type></link_types>', '<links>%s%s</links>' % (links, ws())]
        if rng.random() < .3:
            rng.shuffle(parts)
        xml = '<?xml version="1.0" encoding="%s"%s?>%s%s' % (
            {'utf-8-sig': 'utf-8'}.get(enc, enc), rng.choice(['', ' standalone="yes"']), '\n<!-- head -->' if F['noise'] else '',
            el('dictionary', [('version', version), ('revision', revision)], (ws() + noise()).join(parts)))
        fn = os.path.join(ctx.work, 'x%d.xml' % k)
        data = xml.encode(enc)
        with open(fn, 'wb') as f:
            f.write(data)
        ctx.current = 'file %d %s %r' % (k, enc, F)
        try:
            p = parse_opencorpora_xml(fn)
        except Exception as e:
            ctx.violation('error', '%s: %s: %r' % (ctx.current, type(e).__name__, e))
            continue
        ctx.ev()
        ctx.count('files')
        ctx.nt((ctx.shard, ctx.leg, k))
        ctx.count('lexemes', len(lex_exp))
        if dict(p.lexemes) != lex_exp:
            bad = [i for i in set(p.lexemes) | set(lex_exp) if p.lexemes.get(i) != lex_exp.get(i)][0]
            ctx.violation('lexemes', '%s: lexeme %s is %r, expected %r' % (ctx.current, bad, p.lexemes.get(bad), lex_exp.get(bad)))
        if [tuple(x) for x in p.links] != [(a, b, str(ty)) for a, b, ty in t.links]:
            ctx.violation('links', '%s: links %r, expected %r' % (ctx.current, p.links[:3], t.links[:3]))
        ge = [(n, q or '', al, ds or None) for n, q, al, ds in G]
        got = [(n, q, al, ds or None) for n, q, al, ds in p.grammemes]
        if got != ge:
            bad = [(a, b) for a, b in zip(got, ge) if a != b][:2]
            ctx.violation('grammemes', '%s: grammemes (%d for %d) %r' % (ctx.current, len(got), len(ge), bad))
        if (p.version, p.revision) != (version, revision) or get_dictionary_info(fn) != (version, revision):
            ctx.violation('version', '%s: version %r revision %r' % (ctx.current, p.version, p.revision))
        if k % 5 == 0:
            ctx.sample(dict(file=ctx.current, bytes=len(data), lexemes=len(lex_exp), links=len(t.links)))
        # damaged ----------------------------------------------------------
        if len(data) > 400:
            for _ in range(3):
                cut = rng.randint(200, len(data) - 20)
                with open(fn, 'wb') as f:
                    f.write(data[:cut])
                ctx.count('damaged')
                try:
                    p = parse_opencorpora_xml(fn)
                    ctx.violation('damaged', '%s: a file truncated at %d of %d bytes is read without an error (%d lexemes)' % (
                        ctx.current, cut, len(data), len(p.lexemes)))
                except Exception:
                    pass
        if ctx.leg == 'fast' and k % 3 == 0 and len(data) > 400:
            from pymorphy2.opencorpora_dict.compile import convert_to_pymorphy2
            from pymorphy2.opencorpora_dict.storage import load_dict
            out = fn + '.d'
            try:
                convert_to_pymorphy2(fn, out, 'x', 'ru', compile_options=dict(paradigm_prefixes=['']))
                ctx.violation('damaged', '%s: compiling a truncated file succeeds' % ctx.current)
            except Exception:
                pass
            try:
                load_dict(out)
                ctx.violation('damaged', '%s: a dictionary compiled from a truncated file can be loaded' % ctx.current)
            except Exception:
                ctx.count('nothing_compiled')
            shutil.rmtree(out, ignore_errors=True)
        os.unlink(fn)
