# -*- coding: utf-8 -*-
"""Operations of the public API with comparable (JSON-like) results."""

GRAMMEMES = ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'sing', 'plur', 'masc', 'femn', 'neut', 'past', 'futr',
             'pres', '1per', '3per', 'COMP', 'ADJS', 'INFN', 'PRTF', 'GRND', 'Supr', 'loc2', 'gen2', 'voct', 'excl']
ATTRS = ['POS', 'animacy', 'aspect', 'case', 'gender', 'involvement', 'mood', 'number', 'person', 'tense',
         'transitivity', 'voice']


def parse_obs(p):
    return [p[0], str(p[1]), p[2], round(p[3], 9), [repr(m) for m in p[4]]]


def lex_obs(fs):
    return [[f[0], str(f[1]), f[2], round(f[3], 9), repr(f[4])] for f in fs]


def nth(ps, i):
    return ps[i % len(ps)] if ps else None


def tag_obs(t):
    return [str(t), sorted(t.grammemes), [str(getattr(t, a)) for a in ATTRS], t.cyr_repr, sorted(t.grammemes_cyr),
            'plur' in t, set(['NOUN', 'nomn']) in t, repr(t), t == type(t)(str(t)), hash(t) == hash(type(t)(str(t)))]


def o_parse(m, w):
    return [parse_obs(p) for p in m.parse(w)]


def o_tag(m, w):
    return [str(t) for t in m.tag(w)]


def o_nf(m, w):
    return m.normal_forms(w)


def o_known(m, w):
    return [m.word_is_known(w), m.word_is_known(w, strict=True), [getattr(p, 'is_known', None) for p in m.parse(w)]]


def o_lexeme(m, w, i):
    p = nth(m.parse(w), i)
    return lex_obs(p.lexeme if hasattr(p, 'lexeme') else m.get_lexeme(p))


def o_normalized(m, w, i):
    p = nth(m.parse(w), i)
    return parse_obs(p.normalized)


def o_inflect(m, w, i, gs):
    p = nth(m.parse(w), i)
    r = p.inflect(set(gs))
    return None if r is None else parse_obs(r)


def o_agree(m, w, i, n):
    p = nth(m.parse(w), i)
    r = p.make_agree_with_number(n)
    return None if r is None else parse_obs(r)


def o_taginfo(m, w, i):
    return tag_obs(nth(m.parse(w), i).tag)


def o_chain(m, w, i, gs, n):
    """inflections of inflections"""
    p = nth(m.parse(w), i)
    out = []
    for g in gs:
        q = p.inflect(set([g]))
        if q is None:
            continue
        out.append(parse_obs(q))
        p = q
    q = p.make_agree_with_number(n)
    return out + [None if q is None else parse_obs(q), parse_obs(p.normalized), p.is_known, len(p.lexeme)]


def o_iter(m, pref):
    out = []
    for p in m.iter_known_word_parses(pref):
        out.append([p[0], str(p[1]), p[2]])
        if len(out) > 40:
            break
    return out


def o_cyr(m, w, i):
    t = str(nth(m.tag(w), i))
    c = m.lat2cyr(t)
    return [c, m.cyr2lat(c), m.lat2cyr('NOUN,anim')]


def o_newtag(m, w, i):
    t = m.TagClass(str(nth(m.tag(w), i)))
    return tag_obs(t)


def o_text(m, w, w2):
    from pymorphy2.tokenizers import simple_word_tokenize
    from pymorphy2.shapes import restore_capitalization
    return [simple_word_tokenize('%s, %s-%s! «%s»' % (w, w2, w, w2)), restore_capitalization(w.lower(), w2)]


def o_twice(m, w, i, gs, n):
    """questions to one analysis, asked again after its answers were spoilt by the caller: the two answers"""
    p = nth(m.parse(w), i)
    t = p[1]

    def ask():
        lex = p.lexeme if hasattr(p, 'lexeme') else m.get_lexeme(p)
        out = [parse_obs(p), lex_obs(lex), tag_obs(t), [str(x) for x in m.tag(w)], m.normal_forms(w)]
        keep = [lex, m.tag(w), m.normal_forms(w), m.parse(w), t.grammemes, t.grammemes_cyr]
        try:
            a = t.numeral_agreement_grammemes(n)
            out.append(sorted(map(str, a)))
            keep.append(a)
        except ValueError as e:
            out.append(str(e))
        if hasattr(p, 'inflect'):
            q = p.inflect(set(gs))
            out += [q and parse_obs(q), parse_obs(p.normalized), p.is_known, q and lex_obs(q.lexeme)]
            if q:
                keep.append(q.lexeme)
            keep.append(p.normalized.lexeme)
        g = t.updated_grammemes(set(gs))
        out.append(sorted(g))
        keep.append(g)
        for x in keep:
            if isinstance(x, list):
                del x[1:]
                x[:0] = ['мусор']
            elif isinstance(x, set):
                x.add('мусор')
        return out
    first = ask()
    try:
        return [first, ask()]
    except Exception as e:
        return [first, ['raised', type(e).__name__, str(e)[:200]]]


def o_badtag(m, g):
    try:
        return [str(m.TagClass('NOUN,' + g))]
    except ValueError as e:
        return ['ValueError', str(e)[:60]]


def make(rng, tokens, n):
    """n random operations [(name, args)]; tokens: () -> word"""
    ops = []
    for _ in range(n):
        k = rng.choice(['parse'] * 4 + ['tag'] * 3 + ['nf', 'known', 'known', 'lexeme', 'normalized', 'inflect', 'inflect', 'agree',
                                                     'taginfo', 'taginfo', 'chain', 'iter', 'cyr', 'newtag', 'text', 'badtag', 'twice'])
        w = tokens()
        i = rng.randint(0, 5)
        if k in ('parse', 'tag', 'nf', 'known'):
            a = (w,)
        elif k in ('lexeme', 'normalized', 'taginfo', 'cyr', 'newtag'):
            a = (w, i)
        elif k == 'inflect':
            a = (w, i, rng.sample(GRAMMEMES, rng.randint(1, 2)))
        elif k == 'agree':
            a = (w, i, rng.randint(0, 125))
        elif k == 'twice':
            a = (w, i, rng.sample(GRAMMEMES, 1), rng.randint(0, 125))
        elif k == 'chain':
            a = (w, i, rng.sample(GRAMMEMES, 4), rng.randint(0, 125))
        elif k == 'iter':
            a = (w[:2].lower(),)
        elif k == 'text':
            a = (w, tokens())
        else:
            a = (rng.choice(['foo', 'nomn', 'Qqqq', 'NUMB', 'LATN', 'PNCT', '', 'sing']),)
        ops.append((k, a))
    return ops


def run(m, op):
    """Result of one operation; exceptions are results too."""
    name, args = op
    try:
        return globals()['o_' + name](m, *args)
    except Exception as e:
        return ['raised', type(e).__name__, str(e)[:200]]
