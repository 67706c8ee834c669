# -*- coding: utf-8 -*-
"""Generates dictionaries (mon.toys) from outside of a leg."""
import os

MAKE = r'''
import os, random, sys
from mon.toys import random_toy, compile_toy, add_estimates, DictRef
out, n, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]
rng = random.Random(seed)
for k in range(n):
    p = os.path.join(out, 'toy%d' % k)
    compile_toy(random_toy(rng), p, max_suffix_length=rng.randint(1, 7), min_ending_freq=1, min_paradigm_popularity=rng.randint(0, 2))
    if k % 2:
        add_estimates(p, rng, DictRef(p, prediction=False))
'''


def prepare(scratch, n, seed):
    """For use outside of legs (the fast environment can compile)."""
    import subprocess
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    d = os.path.join(scratch, 'toys')
    os.mkdir(d)
    p = subprocess.run(['/opt/venv/bin/python', '-c', MAKE, d, str(n), str(seed)], cwd=here, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT,
                       env=dict(os.environ, PYTHONPATH='/repo:' + here, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1',
                                PYTHONHASHSEED='0', PYTHONWARNINGS='ignore'))
    if p.returncode:
        raise RuntimeError('toy dictionaries: ' + p.stdout.decode('utf8', 'replace')[-1500:])
    return d
