"""Interpreter-seed seam: simulated programs run in fresh interpreters with a chosen PYTHONHASHSEED.

Each server is a separate interpreter started with its own hash seed; it imports the library once and forks for
every program it is asked to run."""
import os
import pickle
import struct
import subprocess
import sys

from . import engine

_servers = {}


def serve():
    """main of a server: read pickled (module, function, args) from stdin, write the pickled result"""
    out = os.dup(1)
    inp = os.dup(0)
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 1)
    os.dup2(dn, 0)
    import gc
    import importlib
    gc.collect()
    gc.freeze()

    def read(n):
        b = b''
        while len(b) < n:
            c = os.read(inp, n - len(b))
            if not c:
                os._exit(0)
            b += c
        return b
    while True:
        n, = struct.unpack('<q', read(8))
        mod, fn, args = pickle.loads(read(n))
        f = getattr(importlib.import_module(mod), fn)
        try:
            r = ('ok', engine.fork_call(f, *args))
        except engine.Timeout as e:
            r = ('timeout', (str(e), e.stuck))
        except BaseException as e:      # noqa
            r = ('err', str(e))
        data = pickle.dumps(r)
        data = struct.pack('<q', len(data)) + data
        while data:
            data = data[os.write(out, data):]


def call(hashseed, fn, *args):
    """run fn(*args) in a fork of an interpreter whose hash seed is `hashseed`"""
    key = (os.getpid(), hashseed)
    p = _servers.get(key)
    if p is None:
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = str(hashseed)
        p = _servers[key] = subprocess.Popen([sys.executable, '-m', 'dst', 'serve'], cwd=engine.ROOT, env=env,
                                             stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                             stderr=subprocess.DEVNULL, bufsize=0)
    data = pickle.dumps((fn.__module__, fn.__name__, args))
    data = struct.pack('<q', len(data)) + data
    while data:
        data = data[p.stdin.write(data):]

    def read(n):
        b = b''
        while len(b) < n:
            c = p.stdout.read(n - len(b))
            if not c:
                raise engine.HarnessError('hash-seed server died')
            b += c
        return b
    n, = struct.unpack('<q', read(8))
    kind, val = pickle.loads(read(n))
    if kind == 'timeout':
        raise engine.Timeout(*val)
    if kind == 'err':
        raise engine.HarnessError(val)
    return val


def stop_all():
    for k in list(_servers):
        p = _servers.pop(k)
        if k[0] == os.getpid():
            p.stdin.close()
            p.stdout.close()
            p.wait()
