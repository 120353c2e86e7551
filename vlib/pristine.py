"""Answers computed in processes that have never run anything else.

Server(func) forks a process at once, while the code under test is imported but unused; for every request it forks a child that computes func(request)
and nothing more, so neither objects nor classes nor modules remember anything of other requests.
"""
import os
import pickle
import signal
import struct
import traceback

from vlib import boot


def _write(fd, obj):
    raw = pickle.dumps(obj)
    raw = struct.pack('>Q', len(raw)) + raw
    while raw:
        raw = raw[os.write(fd, raw):]


def _exactly(fd, n):
    out = b''
    while len(out) < n:
        chunk = os.read(fd, n - len(out))
        if not chunk:
            raise EOFError
        out += chunk
    return out


def _read(fd):
    return pickle.loads(_exactly(fd, struct.unpack('>Q', _exactly(fd, 8))[0]))


class Server(object):

    def __init__(self, func):
        req_r, req_w = os.pipe()
        res_r, res_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(req_w)
            os.close(res_r)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            try:
                self._serve(func, req_r, res_w)
            finally:
                os._exit(0)
        os.close(req_r)
        os.close(res_w)
        self.w, self.r = req_w, res_r
        self.known = {}

    @staticmethod
    def _serve(func, r, w):
        while True:
            try:
                request = _read(r)
            except EOFError:
                return
            cr, cw = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(cr)
                try:
                    try:
                        answer = ('ok', func(request))
                    except Exception as e:
                        answer = ('error', '%s: %s' % (type(e).__name__, e), traceback.format_exc(limit=-6))
                    _write(cw, answer)
                finally:
                    os._exit(0)
            os.close(cw)
            try:
                answer = _read(cr)
            except EOFError:
                answer = ('died', None)
            os.close(cr)
            os.waitpid(pid, 0)
            _write(w, answer)

    def ask(self, request):
        key = repr(request)
        if key not in self.known:
            _write(self.w, request)
            answer = _read(self.r)
            if answer[0] == 'died':
                raise boot.HarnessError('pristine process died')
            self.known[key] = answer
        return self.known[key]
