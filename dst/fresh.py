"""A fresh process to compare with.

Forked off before a run touches the library, it stays as it is: every request
is computed in a child of its own, so each answer is the one a process gives
that has done nothing else before."""
import os
import pickle
import signal
import struct
import sys
import traceback

_real_fork = os.fork


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack('>Q', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    def get(n):
        buf = b''
        while len(buf) < n:
            b = os.read(fd, min(1 << 20, n - len(buf)))
            if not b:
                raise EOFError('the fresh process is gone')
            buf += b
        return buf
    return pickle.loads(get(struct.unpack('>Q', get(8))[0]))


class Fresh:
    def __init__(self, handler):
        """handler(request) -> picklable answer; runs in the fresh process"""
        self.handler = handler
        r1, self.w = os.pipe()
        self.r, w2 = os.pipe()
        self.pid = _real_fork()
        if self.pid:
            os.close(r1)
            os.close(w2)
            return
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            os.close(self.w)
            os.close(self.r)
            self._serve(r1, w2)
        finally:
            os._exit(0)

    def _serve(self, r, w):
        while True:
            try:
                req = _recv(r)
            except EOFError:
                return
            pid = _real_fork()
            if pid == 0:
                try:
                    try:
                        ans = ('answer', self.handler(req))
                        pickle.dumps(ans)
                    except BaseException as e:
                        ans = ('broken', ''.join(
                            traceback.format_exception(e))[-2000:])
                    sys.stdout.flush()
                    _send(w, ans)
                finally:
                    os._exit(0)
            _, status = os.waitpid(pid, 0)
            if status:
                _send(w, ('broken', f'wait status {status}'))

    def ask(self, req):
        _send(self.w, req)
        kind, ans = _recv(self.r)
        if kind == 'broken':
            raise RuntimeError('fresh process: ' + ans)
        return ans

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
