"""A process in the state the interpreter had before the run: stands for a restart.

It is forked before the scenario touches hatchet, so that nothing of what the scenario
did to modules, caches or allocators is left; each request runs in a fork of its own.
"""

import json
import os
import struct
import traceback

from . import core

_fork = os.fork


def _send(fd, data):
    data = struct.pack("<q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    def exactly(n):
        out = b""
        while len(out) < n:
            chunk = os.read(fd, n - len(out))
            if not chunk:
                raise EOFError
            out += chunk
        return out

    return exactly(struct.unpack("<q", exactly(8))[0])


class Fresh:
    """answers requests by handler(request) -> plain value, each in a new process"""

    def __init__(self, handler):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = _fork()
        if self.pid == 0:
            try:
                os.close(b)
                os.close(c)
                self._serve(a, d, handler)
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c

    def _serve(self, rfd, wfd, handler):
        while True:
            try:
                req = json.loads(_recv(rfd))
            except EOFError:
                return
            pid = _fork()
            if pid == 0:
                try:
                    try:
                        out = ["ok", handler(req)]
                    except Exception as e:
                        out = ["raised", type(e).__name__, traceback.format_exc()[-1500:]]
                    except BaseException:
                        out = ["harness", traceback.format_exc()[-1500:]]
                    _send(wfd, json.dumps(out).encode())
                finally:
                    os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st:
                _send(wfd, json.dumps(["crashed", "wait status %d" % st]).encode())

    def __call__(self, req):
        _send(self.w, json.dumps(req).encode())
        out = json.loads(_recv(self.r))
        if out[0] == "harness":
            raise core.HarnessError("fresh process: %s" % out[1])
        return out

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)
