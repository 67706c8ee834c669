# -*- coding: utf-8 -*-
"""C10: tags as sets of grammemes."""
LEVEL = 'exploration'
RULE = ('every tag of the dictionary tag table, tags assigned to non-words, and random grammeme strings x '
        'all known grammemes, random subsets, misspelled grammemes, all attributes.  Oracle: the tag string '
        'itself.  Non-trivial = a (tag, query) pair whose answer is not simply False.')
ASSUMPTIONS = []
EXHAUSTIVE = 'all dictionary tags x all known grammemes (membership); all dictionary tags x all attributes'

ATTRS = dict(
    POS='NOUN ADJF ADJS COMP VERB INFN PRTF PRTS GRND NUMR ADVB NPRO PRED PREP CONJ PRCL INTJ',
    animacy='anim inan', gender='masc femn neut', number='sing plur',
    case='nomn gent datv accs ablt loct voct gen1 gen2 acc2 loc1 loc2',
    aspect='perf impf', transitivity='tran intr', person='1per 2per 3per',
    tense='pres past futr', mood='indc impr', voice='actv pssv', involvement='incl excl')
ATTRS = dict((k, frozenset(v.split())) for k, v in ATTRS.items())
EXTRA = 'NUMB intg real PNCT LATN ROMN UNKN Init'.split()
NON_PRODUCTIVE = frozenset('NUMR NPRO PRED PREP CONJ PRCL INTJ Apro'.split())


def legs(tier):
    return [dict(name='tags', venv='slow', shards=6, timeout=800),
            dict(name='fast', venv='fast', shards=4, timeout=800)]


def raises(f, exc=ValueError):
    try:
        f()
    except exc:
        return True
    return False


def run(ctx):
    import copy
    import pickle
    from mon.env import Env
    from mon.dictref import DictRef
    env = Env(ctx, model=False, words=False)
    rng = ctx.rng
    d = DictRef(env.path, prediction=False)
    m = env.morph
    Tag = m.TagClass
    known = [g[0] for g in d.grammemes] + EXTRA
    kset = set(known)
    ctx.require('tags', 1000)
    ctx.require('membership', 10000)
    extra_tags = ['NUMB,intg', 'NUMB,real', 'PNCT', 'LATN', 'ROMN', 'UNKN'] + [
        str(t) for w in ('1', '1.5', '.', 'foo', 'XV', 'ъь@', 'А', 'Я', 'по-моему') for t in m.tag(w)]
    strings = sorted(set(d.gramtab + extra_tags))
    for _ in range(ctx.budget(600, 4000)):
        # random grammeme combinations are tags as well
        gr = rng.sample(known, rng.randint(1, 7))
        k = rng.randint(1, len(gr))
        strings.append(','.join(gr[:k]) + (' ' + ','.join(gr[k:]) if k < len(gr) else ''))
    mine = [s for i, s in enumerate(strings) if i % ctx.nshards == ctx.shard]
    if ctx.leg == 'fast':
        mine = rng.sample(mine, min(len(mine), ctx.budget(350, 3000)))
    bad = ['foobar', 'nOUN', 'NOUN ', 'noun', 'sing,nomn', '', 'СУЩ', 'ед', 'plurr', 'VERB,perf', 'None']
    prev = None
    for s in mine:
        ctx.current = s
        t = Tag(s)
        seq = s.replace(' ', ',', 1).split(',')
        gs = set(seq)
        ctx.count('tags')
        if str(t) != s or len(t) != len(seq):
            ctx.violation('str', 'Tag(%r) -> %r, len %d' % (s, str(t), len(t)))
        if t.grammemes != gs:
            ctx.violation('grammemes', 'grammemes of %r are %r' % (s, sorted(t.grammemes)))
        if hasattr(t.grammemes, 'add'):
            t.grammemes.add('foo')
            if t.grammemes != gs:
                ctx.violation('mutable', 'the grammemes of a tag can be changed from outside')
        for g in known:
            ctx.ev()
            ctx.count('membership')
            if (g in t) != (g in gs):
                ctx.violation('in', '%r in %r is %s' % (g, s, g in t))
            if g in gs:
                ctx.nt((s, g))
        for b in bad:
            if not raises(lambda: b in t):
                ctx.violation('typo', '%r in Tag(%r) does not raise' % (b, s))
            for st in ({b}, frozenset([b, seq[0]]), {b} | gs):
                if not raises(lambda: st in t):
                    ctx.violation('typo', '%r in Tag(%r) does not raise' % (st, s))
            ctx.ev(4)
        for _ in range(6):
            sub = set(rng.sample(seq, rng.randint(0, len(seq))))
            if sub not in t or frozenset(sub) not in t:
                ctx.violation('subset', '%r in Tag(%r) is False' % (sub, s))
            other = sub | set(rng.sample(known, rng.randint(1, 2)))
            ctx.ev(2)
            ctx.nt((s, tuple(sorted(other))))
            if (other in t) != (other <= gs):
                ctx.violation('subset', '%r in Tag(%r) is %s' % (other, s, other in t))
        for a, values in ATTRS.items():
            v = getattr(t, a)
            have = values & gs
            ctx.ev()
            ctx.count('attributes')
            if not have:
                if v is not None:
                    ctx.violation('attr', '%s of %r is %r' % (a, s, v))
                continue
            ctx.nt((s, a))
            if v is None or str.__str__(v) not in have:
                ctx.violation('attr', '%s of %r is %r' % (a, s, v))
                continue
            val = ''.join(v)
            if val != next(g for g in seq if g in values):
                ctx.violation('attr_first', '%s of %r is %r, not the first one listed' % (a, s, v))
            if len(have) > 1:
                ctx.count('several_of_a_category')
            if not (v == val) or (v != val) or v == None or not (v != None):  # noqa
                ctx.violation('attr_eq', '%s of %r does not equal %r' % (a, s, val))
            for o in values - {val}:
                if v == o or not v != o:
                    ctx.violation('attr_eq', '%s of %r equals %r' % (a, s, o))
            if v not in values or hash(v) != hash(val) or {val: 1}.get(v) != 1:
                ctx.violation('attr_hash', '%s of %r cannot be looked up' % (a, s))
            for b in [rng.choice(sorted(kset - values)), rng.choice(bad), rng.choice(sorted(kset - values))]:
                if not raises(lambda: v == b) or not raises(lambda: v != b):
                    ctx.violation('attr_typo', 'comparing %s of %r with %r does not raise' % (a, s, b))
        # equality / hashing / copies
        t2 = Tag(s)
        for c in (t2, copy.copy(t), copy.deepcopy(t), pickle.loads(pickle.dumps(t, 2)), pickle.loads(pickle.dumps(t))):
            ctx.count('copies')
            if not (c == t) or c != t or hash(c) != hash(t) or str(c) != s or len({c, t}) != 1 or c < t or c > t \
                    or c.grammemes != gs:
                ctx.violation('copy', 'a copy of Tag(%r) is different: %r' % (s, c))
        if prev is not None:
            p, ps = prev
            if (p == t) != (ps == seq) or (p != t) != (ps != seq) or (p < t) != (ps < seq) or (p > t) != (ps > seq):
                ctx.violation('order', 'comparison of %r and %r' % (ps, seq))
        prev = (t, seq)
        if '_' not in s and ' ' in s:
            # the lexeme/form boundary does not matter for equality
            f = Tag(s.replace(' ', ','))
            if f != t or hash(f) != hash(t) or f.grammemes != gs:
                ctx.violation('eq', '%r != %r' % (s, s.replace(' ', ',')))
        if t.is_productive() != (not (gs & NON_PRODUCTIVE)):
            ctx.violation('productive', 'is_productive of %r' % s)
        i = rng.randrange(len(seq))
        broken = seq[:i] + [seq[i] + rng.choice(['x', 'X', '_'])] + seq[i + 1:]
        if broken[i] not in kset and not raises(lambda: Tag(','.join(broken))):
            ctx.violation('ctor', 'Tag(%r) is accepted' % ','.join(broken))
        for g in (rng.choice(known),):
            if not m.TagClass.grammeme_is_known(g):
                ctx.violation('known', '%r is not known' % g)
        if len(ctx.samples) < 5:
            ctx.sample(dict(tag=s, gender=str(t.gender), case=str(t.case)))
    for b in bad[:3] + ['СУЩ']:
        if m.TagClass.grammeme_is_known(b):
            ctx.violation('known', '%r is known' % b)
