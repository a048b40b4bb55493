"""A process that has seen no document yet.  Every request is answered by a new child of it, so the
answer depends on nothing that was processed before."""
import json
import os
import struct
import traceback


class Zygote:
    def __init__(self, fn):
        """fn(request) -> JSON data, called in a child of a process forked right now"""
        self.owner = os.getpid()
        r1, self.w = os.pipe()
        self.r, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.w)
            os.close(self.r)
            self._serve(fn, r1, w2)
        os.close(r1)
        os.close(w2)

    @staticmethod
    def _read(fd, n):
        b = b""
        while len(b) < n:
            x = os.read(fd, n - len(b))
            if not x:
                return None
            b += x
        return b

    def _serve(self, fn, rd, wr):
        while True:
            h = self._read(rd, 8)
            if h is None:
                os._exit(0)
            req = self._read(rd, struct.unpack("<Q", h)[0])
            pid = os.fork()
            if pid == 0:
                try:
                    out = {"ok": fn(json.loads(req))}
                except BaseException as e:
                    out = {"error": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()[-1500:]}
                b = json.dumps(out).encode("utf-8", "surrogatepass")
                b = struct.pack("<Q", len(b)) + b
                while b:
                    b = b[os.write(wr, b):]
                os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, req):
        b = json.dumps(req).encode("utf-8", "surrogatepass")
        b = struct.pack("<Q", len(b)) + b
        while b:
            b = b[os.write(self.w, b):]
        n = self._read(self.r, 8)
        return json.loads(self._read(self.r, struct.unpack("<Q", n)[0]))


_made = {}


def get(name, fn):
    z = _made.get(name)
    if z is None or z.owner != os.getpid():
        z = _made[name] = Zygote(fn)
    return z
