# -*- coding: utf-8 -*-
"""C21: saved dictionaries load back unchanged; refused otherwise."""
LEVEL = 'exploration'
RULE = ('random dictionaries compiled in memory, saved and loaded again (also by the pure-Python backend, in '
        'another interpreter): every table is compared; compiling onto an existing folder with and without '
        'overwrite; metadata updates; format versions and tag formats (valid, newer, older, malformed); '
        'files missing or cut off (also exactly between two paradigms).  '
        'Non-trivial = distinct saved dictionaries / refused variants.')
ASSUMPTIONS = []


def legs(tier):
    return [dict(name='roundtrip', venv='fast', shards=6, timeout=800),
            dict(name='installed', venv='fast', shards=1, timeout=800),
            dict(name='installed-slow', venv='slow', shards=1, timeout=800)]


def snapshot(path):
    import os
    out = {}
    for fn in sorted(os.listdir(path)):
        with open(os.path.join(path, fn), 'rb') as f:
            out[fn] = f.read()
    return out


DUMP = r'''
import sys, json
sys.path.insert(0, '/repo')
from pymorphy2.opencorpora_dict.storage import load_dict
d = load_dict(sys.argv[1])
print(json.dumps(dict(
    gramtab=[str(t) for t in d.gramtab], suffixes=list(d.suffixes),
    paradigms=[list(p) for p in d.paradigms],
    words=sorted([w, list(v)] for w, v in d.words.iteritems(u'')),
    pred=[sorted([w, list(v)] for w, v in x.iteritems(u'')) for x in d.prediction_suffixes_dawgs],
    prefixes=list(d.paradigm_prefixes), meta=list(d.meta.items()))))
'''


CUT = r'''
import sys, json, os
from pymorphy2.opencorpora_dict.storage import load_dict
path, cuts = sys.argv[1], json.load(sys.stdin)
out = []
for fn, at in cuts:
    full = os.path.join(path, fn)
    with open(full, 'rb') as f:
        data = f.read()
    os.remove(full)
    if at is not None:
        with open(full, 'wb') as f:
            f.write(data[:at])
    try:
        load_dict(path)
        out.append([fn, at])
    except Exception:
        pass
    with open(full, 'wb') as f:
        f.write(data)
print(json.dumps(out))
'''


def damaged(ctx, path, load_dict):
    """no file may be missing or cut off, at any byte"""
    import json
    import os
    import shutil
    import struct
    import subprocess
    rng = ctx.rng
    w = path + '-cut'
    shutil.copytree(path, w)
    cuts = []
    for fn in sorted(os.listdir(w)):
        if fn.startswith('gramtab-') and fn != 'gramtab-opencorpora-int.json' or fn == 'p_t_given_w.intdawg':
            continue
        with open(os.path.join(w, fn), 'rb') as f:
            data = f.read()
        at = [0, 1, 2, len(data) - 1, len(data) // 2] + [rng.randrange(len(data)) for _ in range(4)]
        if fn == 'paradigms.array':
            pos, ends = 2, []
            while pos < len(data):
                ends.append(pos)
                pos += 2 + 2 * struct.unpack('<H', data[pos:pos + 2])[0]
            at += rng.sample(ends, min(10, len(ends)))
            at += [x + 2 for x in rng.sample(ends, min(6, len(ends)))]
        cuts += [(fn, x) for x in sorted(set(at)) if x < len(data)] + [(fn, None)]
    for py in [sys_executable()] + (['/opt/venv-slow/bin/python'] if rng.random() < .3 else []):
        p = subprocess.run([py, '-c', CUT, w], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           input=json.dumps(cuts).encode(), timeout=400)
        if p.returncode:
            raise RuntimeError(p.stderr[-800:])
        ctx.count('refused_damaged', len(cuts))
        for fn, at in json.loads(p.stdout.decode('utf8')):
            ctx.violation('damaged', 'a dictionary is loaded although %s is %s' % (
                fn, 'missing' if at is None else 'cut off after %d bytes' % at))
    shutil.rmtree(w)


def sys_executable():
    import sys
    return sys.executable


def run(ctx):
    import copy
    import json
    import os
    import shutil
    import subprocess
    import pymorphy2
    from pymorphy2.opencorpora_dict.storage import load_dict, update_meta, load_meta
    from mon.dictgen import Toy, compile_toy, base_grammemes
    from mon.dictref import DictRef, ru_path, ru_old_path
    rng = ctx.rng

    def view(d):
        return dict(
            gramtab=[str(t) for t in d.gramtab], suffixes=list(d.suffixes), paradigms=[list(p) for p in d.paradigms],
            words=sorted([w, list(v)] for w, v in d.words.iteritems(u'')),
            pred=[sorted([w, list(v)] for w, v in x.iteritems(u'')) for x in d.prediction_suffixes_dawgs],
            prefixes=list(d.paradigm_prefixes), meta=[list(x) for x in d.meta.items()])

    if ctx.leg.startswith('installed'):
        # the installed dictionaries as read by the code vs. the raw files
        for path in [ru_path()] + ([ru_old_path()] if ru_old_path() else []):
            d = load_dict(path)
            r = DictRef(path, prediction=False)
            ctx.count('installed')
            ctx.ev()
            ctx.nt(path)
            if [str(t) for t in d.gramtab] != r.gramtab or list(d.suffixes) != r.suffixes:
                ctx.violation('gramtab', 'loaded gramtab/suffixes of %s differ from the files' % path)
            got = []
            for p in d.paradigms:
                n = len(p) // 3
                got.append([(d.paradigm_prefixes[p[2 * n + i]], str(d.gramtab[p[n + i]]), d.suffixes[p[i]]) for i in range(n)])
            if got != r.paradigms:
                ctx.violation('paradigms', 'loaded paradigms of %s differ from the file' % path)
            if dict(d.meta).get('format_version') != r.meta.get('format_version') or len(d.meta) != len(r.meta):
                ctx.violation('meta', 'loaded metadata of %s' % path)
            ctx.sample(dict(path=path, paradigms=len(got)))
        ctx.require('installed', 2)
        return
    G = base_grammemes()
    ctx.require('roundtrips', 30)
    ctx.require('slow_backend', 3)
    ctx.require('refused', 50)
    ctx.require('refused_damaged', 1000)
    ctx.require('left_untouched', 20)
    ctx.require('overwritten', 20)
    from pymorphy2.opencorpora_dict.compile import compile_parsed_dict, convert_to_pymorphy2
    from pymorphy2.opencorpora_dict.parse import parse_opencorpora_xml
    from pymorphy2.opencorpora_dict.storage import save_compiled_dict
    from mon.dictgen import entries
    import itertools

    for k in range(ctx.budget(24, 260)):
        prefixes = rng.choice([('', 'по', 'наи'), ('',), ('', 'najg', 'ё'),
                               ('', 'а', 'б', 'в', 'г', 'аа', 'аб', 'ба', 'бб', 'ав', 'по', 'наи')])
        def mk():
            t = Toy(rng, G, prefixes=prefixes, alphabet=rng.choice(['абвг', 'абёxq-\'', 'абвгдежзиклмнопрст', 'аб в']))
            t.fill(rng.randint(3, 70), irregular=.3)
            t.add_links(rng.randint(0, 5))
            return t
        t = mk()
        if k % 12 == 5:
            # more than 1024 of everything: forms of a lexeme, paradigms, endings
            letters = 'абвгдежзик'
            st, ends = t.letters(4, 6), [''.join(x) for x in itertools.product(letters, repeat=4)]
            t.add(['NOUN'], [(st + e, ['sing']) for e in rng.sample(ends, 1500)])
            for e in rng.sample(ends, 1200):
                t.add(['VERB'], [(st, ['sing']), (st + e, ['plur'])])
            ctx.count('large')
        out = os.path.join(ctx.work, 'd%d' % k)
        ctx.current = 'dictionary %d' % k
        xml = out + '.xml'
        t.to_xml(xml)
        parsed = parse_opencorpora_xml(xml)
        comp = compile_parsed_dict(parsed, dict(paradigm_prefixes=list(prefixes), max_suffix_length=rng.choice([1, 2, 3, 4, 5, 6, 9, 14])))
        os.mkdir(out)
        name, lang = rng.choice(['toy', 'слова.xml', 'a "b"']), rng.choice(['ru', 'uk', 'xx'])
        save_compiled_dict(comp, out, source_name=name, language_code=lang)
        d = load_dict(out)
        ctx.ev()
        ctx.count('roundtrips')
        ctx.nt((ctx.shard, k))
        v = view(d)
        want = dict(gramtab=list(comp.gramtab), suffixes=list(comp.suffixes), paradigms=[list(p) for p in comp.paradigms],
                    words=sorted([w, list(x)] for w, x in comp.words_dawg.iteritems(u'')),
                    pred=[sorted([w, list(x)] for w, x in y.iteritems(u'')) for y in comp.prediction_suffixes_dawgs],
                    prefixes=list(prefixes))
        for key in want:
            if v[key] != want[key]:
                ctx.violation('roundtrip', '%s changed by save+load: %r -> %r' % (key, want[key][:5], v[key][:5]))
        r = DictRef(out)
        meta = dict(r.meta)
        if [tuple(g) for g in r.grammemes] != [tuple(g) for g in parsed.grammemes]:
            ctx.violation('grammemes', 'the grammemes changed by saving')
        for g in G:
            if not d.Tag.grammeme_is_known(g[0]) or (g[2] and d.Tag.lat2cyr(g[0]) != g[2]):
                ctx.violation('grammemes', 'loaded grammeme %r: known %r, name %r' % (g, d.Tag.grammeme_is_known(g[0]), d.Tag.lat2cyr(g[0])))
        checks = dict(language_code=lang, source=name, source_version='0.92', gramtab_length=len(comp.gramtab),
                      paradigms_length=len(comp.paradigms), suffixes_length=len(comp.suffixes),
                      words_dawg_length=len(want['words']), prediction_suffixes_dawg_lengths=[len(x) for x in want['pred']],
                      source_lexemes_count=len(t.lexemes), source_links_count=len(t.links))
        for key, x in checks.items():
            if meta.get(key) != x:
                ctx.violation('meta', 'metadata %s is %r, expected %r' % (key, meta.get(key), x))
        if meta.get('source_revision') != parsed.revision or dict(v['meta']).keys() != meta.keys():
            ctx.violation('meta', 'metadata keys %r' % sorted(meta))
        tag = d.gramtab[0] if d.gramtab else None
        if tag is not None and not (isinstance(tag, d.Tag) and str(tag) == comp.gramtab[0]):
            ctx.violation('tags', 'loaded tags are %r' % tag)
        if k % 8 == 0:
            p = subprocess.run(['/opt/venv-slow/bin/python', '-c', DUMP, out], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if p.returncode != 0:
                ctx.violation('slow', 'the pure-Python backend cannot load a saved dictionary: %s' % p.stderr[-500:])
            else:
                o = json.loads(p.stdout.decode('utf8'))
                ctx.count('slow_backend')
                o['words'].sort()
                for x in o['pred']:
                    x.sort()
                if json.loads(json.dumps(v)) != o:
                    bad = [key for key in v if json.loads(json.dumps(v))[key] != o[key]]
                    ctx.violation('slow', 'the pure-Python backend reads %r differently' % bad)
        # -- missing and cut files --------------------------------------------
        if k % 3 == 0:
            damaged(ctx, out, load_dict)
        # -- existing folder -------------------------------------------------
        before = snapshot(out)
        t2 = mk()
        t2.to_xml(xml)
        convert_to_pymorphy2(xml, out, 'other', 'ru', overwrite=False,
                             compile_options=dict(paradigm_prefixes=list(prefixes)))
        ctx.count('left_untouched')
        if snapshot(out) != before:
            ctx.violation('untouched', 'compiling without overwrite changed %r' % [
                f for f, b in snapshot(out).items() if before.get(f) != b])
        if k % 3 == 0:
            # any existing folder, or file
            there = out + '-there'
            what = rng.choice(['empty', 'note', 'file'])
            if what == 'file':
                with open(there, 'w') as f:
                    f.write('x')
            else:
                os.mkdir(there)
                if what == 'note':
                    with open(os.path.join(there, 'note.txt'), 'w') as f:
                        f.write('x')
            try:
                convert_to_pymorphy2(xml, there, 'other', 'ru', compile_options=dict(paradigm_prefixes=list(prefixes)))
            except Exception:
                ctx.count('refused_existing')
            now = sorted(os.listdir(there)) if what != 'file' else os.path.isfile(there)
            if now != dict(empty=[], note=['note.txt'], file=True)[what]:
                ctx.violation('untouched', 'compiling without overwrite wrote to an existing folder (%s): %r' % (what, now))
            ctx.count('left_untouched_other')
            shutil.rmtree(there) if what != 'file' else os.remove(there)
        if k % 2:
            convert_to_pymorphy2(xml, out, 'other', 'ru', overwrite=True,
                                 compile_options=dict(paradigm_prefixes=list(prefixes)))
            fresh = out + '-fresh'
            convert_to_pymorphy2(xml, fresh, 'other', 'ru', compile_options=dict(paradigm_prefixes=list(prefixes)))
            ctx.count('overwritten')
            a, b = view(load_dict(out)), view(load_dict(fresh))
            a['meta'] = [x for x in a['meta'] if x[0] != 'compiled_at']
            b['meta'] = [x for x in b['meta'] if x[0] != 'compiled_at']
            if a != b:
                ctx.violation('overwrite', 'overwritten dictionary differs from a fresh one in %r' % [x for x in a if a[x] != b[x]])
            shutil.rmtree(fresh)
        # -- metadata updates ------------------------------------------------
        mf = os.path.join(out, 'meta.json')
        old = load_meta(mf)
        extra = rng.choice([[('P(t|w)_x', 5), ('new', u'ё')], {'new': [1, u'я']}, [('source', 'changed')]])
        update_meta(mf, extra)
        new = load_meta(mf)
        exp = dict(old)
        exp.update(dict(extra))
        ctx.count('meta_updates')
        if dict(new) != json.loads(json.dumps(exp)) or list(new)[:len(old)] != list(old):
            ctx.violation('update', 'update_meta(%r): %r' % (extra, [x for x in exp if new.get(x) != exp[x]]))
        if view(load_dict(out))['words'] is None:
            pass
        # -- versions --------------------------------------------------------
        good = [(x, True) for x in ('2.4', '2.0', '2.5', '2.17')] + [(2.4, True)]
        bad = [(x, False) for x in ('3.0', '1.9', '0.0', '22.4', '3.4', '24', '', 'x.4', '-2.4', '12.4')]
        for ver, ok in rng.sample(good + bad, 5) + [(None, False)]:
            mm = [list(x) for x in new.items() if x[0] != 'format_version']
            if ver is not None:
                mm.insert(0, ['format_version', ver])
            with open(mf, 'w', encoding='utf8') as f:
                json.dump(mm, f)
            for what in (load_dict, pymorphy2.MorphAnalyzer):
                try:
                    what(out)
                    res = True
                except ValueError:
                    res = False
                if not ok:
                    ctx.count('refused')
                if res != ok:
                    ctx.violation('version', 'format version %r is %s' % (ver, 'accepted' if res else 'refused'))
        with open(mf, 'w', encoding='utf8') as f:
            json.dump(list(new.items()), f)
        for fmt, ok in (('opencorpora-int', True), ('opencorpora-foo', False), ('', False)):
            try:
                load_dict(out, gramtab_format=fmt)
                res = True
            except ValueError:
                res = False
            if res != ok:
                ctx.violation('gramtab_format', 'tag format %r is %s' % (fmt, 'accepted' if res else 'refused'))
        mm = copy.deepcopy(dict(new))
        mm['gramtab_formats'] = {'opencorpora-ext': 'x.json'}
        with open(mf, 'w', encoding='utf8') as f:
            json.dump(list(mm.items()), f)
        try:
            load_dict(out)
            ctx.violation('gramtab_format', 'a dictionary without tags in the right format is accepted')
        except ValueError:
            ctx.count('refused')
        ctx.sample(dict(words=len(want['words']), paradigms=len(want['paradigms']), lang=lang))
        shutil.rmtree(out)
        os.remove(xml)
