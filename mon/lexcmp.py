# -*- coding: utf-8 -*-
"""Pairs real analyses with model analyses and compares whole lexemes."""
import collections


def lex_obs(lexeme):
    """the forms, in the order of the lexeme"""
    return [(f[0], str(f[1]), f[2]) for f in lexeme]


def pair(parses, model):
    """[(key, [real], [model])] grouped by (word, tag, normal form)."""
    groups = collections.OrderedDict()
    for p in parses:
        groups.setdefault((p[0], str(p[1]), p[2]), ([], []))[0].append(p)
    for a in model:
        groups.setdefault(a.key(), ([], []))[1].append(a)
    return [(k, r, m) for k, (r, m) in groups.items()]


def hyphenated_parts(a):
    """ A compound inflected in both parts, when a part has forms (or a normal
    form) with a hyphen of their own: known finding C06 hyphenated_parts. """
    return 'Both' in a.kind and any(w.count('-') != a.word.count('-') or nf.count('-') != a.word.count('-')
                                    for w, t, nf in a.lex())


def compare_lexemes(real, model):
    """None or (kind, missing, extra) for one group."""
    if any(hyphenated_parts(x) for x in model):
        return None
    a = sorted(lex_obs(p.lexeme) for p in real)
    b = sorted(list(x.lex()) for x in model)
    if a == b:
        return None
    for x in a:
        if x not in b:
            near = min(b, key=lambda y: len(set(map(tuple, y)) ^ set(x))) if b else []
            if sorted(x) == sorted(near):
                return ('order %r' % [f[:2] for f in x][:6], 'order %r' % [f[:2] for f in near][:6])
            return ([f for f in x if f not in near][:4], [f for f in near if f not in x][:4])
    return ('multiplicity', '')


def full(ctx, env, tok, lex=1.0, only=None):
    """Compare parse(tok) with the model; returns (parses, expected) or None.

    only: kinds (outermost step) the calling property is about; analyses of
    other kinds are ignored here (other properties decide them).
    """
    from mon.model import obs, diff_parses
    exp = env.expected(tok)
    if exp is None:
        ctx.count('skipped_many_variants')
        return None
    ps = env.morph.parse(tok)
    ctx.ev()
    d = diff_parses(obs(ps), exp)
    if d:
        ctx.violation('parse', 'parse(%a): %s' % (tok, d))
        return ps, exp
    tags = set(str(t) for t in env.morph.tag(tok))
    if tags != set(a.tag for a in exp):
        ctx.violation('tag', 'tag(%a) is %r, expected %r' % (tok, sorted(tags), sorted(set(a.tag for a in exp))))
    if lex and (lex >= 1 or ctx.rng.random() < lex):
        for key, real, mod in pair(ps, exp):
            if len(real) > 6:
                continue
            dd = compare_lexemes(real, mod)
            ctx.count('lexemes_compared')
            if dd:
                ctx.violation('lexeme', 'lexeme of %a as %r: unexpected %r, missing %r' % (tok, key, dd[0], dd[1]))
    return ps, exp


def short_words(d, rng, four=3000):
    """Dictionary words of 1-3 letters (all) and of 4-5 letters (sample)."""
    import itertools
    from mon.gen import CYR
    out = []
    for n in (1, 2, 3):
        out += [w for w in map(''.join, itertools.product(CYR, repeat=n)) if w in d.words]
    three = [w for w in out if len(w) == 3]
    got = 0
    for _ in range(four * 20):
        w = rng.choice(three) + rng.choice(CYR)
        if rng.random() < .5:
            w += rng.choice(CYR)
        if w in d.words:
            out.append(w)
            got += 1
            if got > four:
                break
    return out
