"""
Another process to send things to.

The server is forked once from the worker before it has made any object of a case, and forks again for every request, so that a request
meets nothing but the imported and compiled code: no object, cache or counter of the sender.
"""
import gc
import os
import pickle
import select
import struct
import time
import traceback

_SRV = {}
TIMEOUT = 400.0


class RemoteError(Exception):
    """the request could not be answered"""


def _write(fd, data):
    data = struct.pack('q', len(data)) + data
    view = memoryview(data)
    while len(view):
        n = os.write(fd, view)
        view = view[n:]


def _read(fd, deadline=None):
    def exactly(n):
        out = []
        while n:
            if deadline is not None:
                r, _, _ = select.select([fd], [], [], max(0.0, deadline - time.time()))
                if not r:
                    raise RemoteError('no answer')
            b = os.read(fd, min(n, 1 << 20))
            if not b:
                return None
            out.append(b)
            n -= len(b)
        return b''.join(out)
    head = exactly(8)
    if head is None:
        return None
    return exactly(struct.unpack('q', head)[0])


def _answer(func, look, data):
    try:
        args = pickle.loads(data)
    except BaseException as e:
        return ('arrive', '%s: %s' % (type(e).__name__, e), traceback.format_exc()[-1500:])
    seen = look(args)
    try:
        out = func(*args)
    except BaseException as e:
        return ('raised', '%s: %s' % (type(e).__name__, e), traceback.format_exc()[-1500:], seen)
    return ('ok', out, '', seen)


def _serve(rfd, wfd, funcs, look):
    gc.collect()
    gc.freeze()
    while True:
        msg = _read(rfd)
        if msg is None:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            try:
                name, data = pickle.loads(msg)
                out = _answer(funcs[name], look, data)
                try:
                    out = pickle.dumps(out, protocol=4)
                except BaseException as e:
                    out = pickle.dumps(('return', '%s: %s' % (type(e).__name__, e), ''))
                _write(wfd, out)
            finally:
                os._exit(0)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            _write(wfd, pickle.dumps(('died', 'status %d' % st, '')))


def start(funcs, look):
    """funcs: what can be asked for; look: describes the arguments as they arrived"""
    pid = os.getpid()
    if pid in _SRV:
        return
    a, b = os.pipe()
    c, d = os.pipe()
    if os.fork() == 0:
        try:
            os.close(b)
            os.close(c)
            _serve(a, d, funcs, look)
        finally:
            os._exit(1)
    os.close(a)
    os.close(d)
    _SRV[pid] = (b, c)


def call(name, data):
    """data: the pickled arguments; ('ok', result, '', what arrived), or (what went wrong, text, traceback, what arrived if it did)"""
    w, r = _SRV[os.getpid()]
    _write(w, pickle.dumps((name, data)))
    out = _read(r, time.time() + TIMEOUT)
    if out is None:
        raise RemoteError('the other process is gone')
    return pickle.loads(out)
