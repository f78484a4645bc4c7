"""Answers computed in a process that has never built a model: a zygote is
forked before the first scenario and forks once per request (one per scenario)."""
import os
import pickle
import struct
import sys
import traceback

_io = None


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('>Q', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    def take(n):
        out = b''
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                raise EOFError
            out += c
        return out
    return pickle.loads(take(struct.unpack('>Q', take(8))[0]))


def start(handler):
    """handler(request) -> answer, run in a fresh child each time."""
    global _io
    rq, ra = os.pipe(), os.pipe()
    if os.fork() == 0:
        os.close(rq[1])
        os.close(ra[0])
        while True:
            try:
                req = _recv(rq[0])
            except EOFError:
                os._exit(0)
            pid = os.fork()
            if pid == 0:
                try:
                    _send(ra[1], ('ok', handler(req)))
                except Exception:  # pylint: disable=broad-except
                    traceback.print_exc()
                    sys.stderr.flush()
                    _send(ra[1], ('fail', traceback.format_exc()))
                os._exit(0)
            os.waitpid(pid, 0)
    os.close(rq[0])
    os.close(ra[1])
    _io = (rq[1], ra[0])


def ask(req):
    _send(_io[0], req)
    st, v = _recv(_io[1])
    if st != 'ok':
        raise RuntimeError(v)
    return v
