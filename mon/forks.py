# -*- coding: utf-8 -*-
"""Run a function in a forked child process, get its JSON-able result."""
import json
import os
import select
import signal
import sys
import time
import traceback


def forked(fn, timeout=None, quiet=True):
    """-> ['ok', value] | ['exc', text] | ['died', status] | ['timeout', None]"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        if quiet:
            n = os.open(os.devnull, os.O_WRONLY)
            os.dup2(n, 1)
            os.dup2(n, 2)
        try:
            v = ['ok', fn()]
        except BaseException as e:
            v = ['exc', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])]
        try:
            data = json.dumps(v).encode('utf8', 'surrogatepass')
        except Exception as e:
            data = json.dumps(['exc', 'not serializable: %r' % e]).encode('utf8')
        while data:
            data = data[os.write(w, data):]
        os._exit(0)
    os.close(w)
    buf, end = b'', None if timeout is None else time.time() + timeout
    while True:
        if end is not None and not select.select([r], [], [], max(0, end - time.time()))[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return ['timeout', None]
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if st == 0:
        return json.loads(buf.decode('utf8', 'surrogatepass'))
    return ['died', st]
