# -*- coding: utf-8 -*-
"""One process of C41: answers the questions of a file, or compiles."""
import io
import json
import os
import sys

if sys.implementation.name == 'cpython':
    sys.path += [p for p in os.environ['C41_SITE'].split(os.pathsep) if p not in sys.path]
    import inspect
    if not hasattr(inspect, 'getargspec'):
        # gone from the newest Pythons, which the library does not claim to support
        inspect.getargspec = lambda f: inspect.getfullargspec(f)[:4]


def command(argv):
    from pymorphy2 import cli
    so, sys.stdout = sys.stdout, io.StringIO()
    try:
        cli.main(argv)
        return sys.stdout.getvalue()
    except Exception as e:
        return ['raised', type(e).__name__, str(e)[:200]]
    finally:
        sys.stdout = so


def main():
    fn, out = sys.argv[1:3]
    with io.open(fn, encoding='utf8') as f:
        job = json.load(f)
    if os.environ.get('C41_CWD'):
        os.chdir(os.environ['C41_CWD'])
    if job['what'] == 'ask':
        import pymorphy2
        from mon import ops
        path = job['path']
        if path and os.environ.get('C41_CWD'):
            path = os.path.relpath(path)
        m = pymorphy2.MorphAnalyzer(path=path, lang=job['lang'])
        res = [ops.run(m, op) for op in job['ops']]
        for argv in job['commands']:
            res.append(command(argv + (['--dict', path] if path else []) + ['--lang', job['lang']]))
    else:
        import hashlib
        from pymorphy2.opencorpora_dict.compile import convert_to_pymorphy2
        res = []
        for k, (xml, options) in enumerate(job['sources']):
            d = '%s.d%d' % (out, k)
            convert_to_pymorphy2(xml, d, 'toy', 'ru', compile_options=options)
            files = {}
            for name in sorted(os.listdir(d)):
                with io.open(os.path.join(d, name), 'rb') as f:
                    data = f.read()
                if name == 'meta.json':
                    data = json.dumps([kv for kv in json.loads(data.decode('utf8')) if kv[0] != 'compiled_at'],
                                      sort_keys=True).encode('utf8')
                files[name] = hashlib.sha1(data).hexdigest()
            res.append(files)
    with io.open(out, 'w', encoding='utf8') as f:
        f.write(json.dumps(res, sort_keys=True))


if __name__ == '__main__':
    main()
