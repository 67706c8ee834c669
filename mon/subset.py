# -*- coding: utf-8 -*-
"""Small realistic dictionary cut out of the installed one.

Written without any code of pymorphy2 (run with the interpreter which has the
DAWG extension):  python -m mon.subset OUT NWORDS SEED
"""
import json
import os
import random
import shutil
import struct
import sys

TEXTS = ('мама мыла раму стали в ёлка еж её его он вася петя иван иванович иванов хороший лучше два двух '
         'человек люди год лет день первый что-то по-хорошему бегать бежать бежал бегущий шёл идти '
         'красный красивый красивее дом дома стол стекло стать сталь тот это я ты мы и или не нет на '
         'большой жить живой пить пила белый банан коррупция какой-то кто-то сам такой яблоко облако зелёный '
         'сербский русский советский черный чёрный аз суп крот кот кошка мышь стричь сделать сделай делать делай').split()


def build(out, nwords, seed, prob=True, twin=False, zeros=False):
    """twin: the same words, paradigms numbered in the other direction, estimates exchanged;
    zeros: some estimates are left out"""
    import dawg
    from mon.dictref import DictRef, ru_path
    from mon.gen import Words
    rng = random.Random('subset/%s' % seed)
    d = DictRef(ru_path(), prob=prob)
    w = Words(d, rng, prefixes=10, maxper=1500)
    picked = [x for x in TEXTS if x in d.words] + [w.pick() for _ in range(nwords)]
    lex = set()
    for x in picked:
        for para, idx in d.exact(x):
            lex.add((para, d.stem(x, para, idx)))
    paras = sorted(set(p for p, _ in lex), reverse=twin)
    pid = dict((p, i) for i, p in enumerate(paras))
    tags, sufs, prefs = [], [], list(d.prefixes)
    tid, sid = {}, {}
    rows = []
    for p in paras:
        row = d.paradigms[p]
        for pref, tag, suf in row:
            if tag not in tid:
                tid[tag] = len(tags)
                tags.append(tag)
            if suf not in sid:
                sid[suf] = len(sufs)
                sufs.append(suf)
        rows.append([sid[s] for _, _, s in row] + [tid[t] for _, t, _ in row] + [prefs.index(x) for x, _, _ in row])
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.mkdir(out)
    j = lambda n: os.path.join(out, n)

    def dump(name, obj):
        with open(j(name), 'w', encoding='utf8') as f:
            json.dump(obj, f, ensure_ascii=False)
    dump('gramtab-opencorpora-int.json', tags)
    dump('gramtab-opencorpora-ext.json', tags)
    dump('suffixes.json', sufs)
    shutil.copy(os.path.join(d.path, 'grammemes.json'), j('grammemes.json'))
    with open(j('paradigms.array'), 'wb') as f:
        f.write(struct.pack('<H', len(rows)))
        for r in rows:
            f.write(struct.pack('<H', len(r)) + struct.pack('<%dH' % len(r), *r))
    words = []
    for p, stem in lex:
        for i, (pref, tag, suf) in enumerate(d.paradigms[p]):
            words.append((pref + stem + suf, (pid[p], i)))
    dawg.RecordDAWG(str('>HH'), words).save(j('words.dawg'))
    ends = set()
    for x, _ in words:
        for n in range(1, 6):
            ends.add(x[-n:])
    npred = []
    for k, src in enumerate(d.pred):
        data = []
        for e in ends:
            for cnt, p, i in src.get(e) or []:
                if p in pid:
                    data.append((e, (cnt, pid[p], i)))
        npred.append(len(data))
        dawg.RecordDAWG(str('>HHH'), data).save(j('prediction-suffixes-%d.dawg' % k))
    meta = dict(d.meta)
    if prob and d.ptw is not None:
        data = []
        for x in set(x for x, _ in words):
            items = [(k, v) for k, v in d.ptw.items(x + ':')]
            if twin:
                items = [(k, v) for (k, _), (_, v) in zip(items, items[1:] + items[:1])]
            if zeros and len(items) > 1 and rng.random() < .8:
                items = rng.sample(items, rng.randint(1, len(items) - 1))
            data += items
        dawg.IntCompletionDAWG(data).save(j('p_t_given_w.intdawg'))
    else:
        meta.pop('P(t|w)', None)
    meta['words_dawg_length'] = len(words)
    dump('meta.json', list(meta.items()))
    return dict(words=len(words), lexemes=len(lex), paradigms=len(rows), tags=len(tags), prediction=npred)


def main():
    print(json.dumps(build(sys.argv[1], int(sys.argv[2]), sys.argv[3], twin='twin' in sys.argv[4:], zeros='zeros' in sys.argv[4:])))


def prepare(scratch, nwords=120, seed=None, name='subset', twin=False, zeros=False):
    """Build one from an orchestrator's prepare(); returns its path."""
    import subprocess
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    out = os.path.join(scratch, name)
    env = dict(os.environ, PYTHONPATH=here, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1')
    subprocess.run(['/opt/venv/bin/python', '-m', 'mon.subset', out, str(nwords),
                    str(seed if seed is not None else os.environ.get('VERIF_SEED') or 1)] +
                   ['twin'] * twin + ['zeros'] * zeros,
                   cwd=here, env=env, check=True, stdout=subprocess.DEVNULL)
    return out


if __name__ == '__main__':
    main()
