"""Answers computed by objects nobody has used: a server process, forked before the stratum touches FIAT, forks one process per
request, builds the object in it and forks again for every query."""
import os
import pickle
import signal
import struct


def _send(fd, obj):
    b = pickle.dumps(obj, protocol=4)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _read(fd, n):
    out = b""
    while len(out) < n:
        c = os.read(fd, n - len(out))
        if not c:
            raise EOFError
        out += c
    return out


def _recv(fd):
    return pickle.loads(_read(fd, struct.unpack("<Q", _read(fd, 8))[0]))


def _in_child(f):
    """f() in a forked process; its result, pickled."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            _send(w, f())
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    try:
        return _recv(r)
    finally:
        os.close(r)
        os.waitpid(pid, 0)


class Server:
    """make(spec) -> object, ask(object, query) -> plain data.  Specs listed in prebuilt are built once, in the server."""

    def __init__(self, make, ask, prebuilt=()):
        self.memo = {}
        a_r, a_w = os.pipe()
        b_r, b_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                os.close(a_w)
                os.close(b_r)
                ready = {}
                for spec in prebuilt:
                    ready[pickle.dumps(spec)] = make(spec)
                while True:
                    spec, queries = _recv(a_r)

                    def answer():
                        k = pickle.dumps(spec)
                        obj = ready[k] if k in ready else make(spec)
                        return [_in_child(lambda q=q: ask(obj, q)) for q in queries]
                    _send(b_w, _in_child(answer))
            except EOFError:
                pass
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(a_r)
        os.close(b_w)
        self.w, self.r = a_w, b_r

    def answers(self, spec, queries):
        """[answer for every query], each given by an object of its own past (only its construction)."""
        keys = [pickle.dumps((spec, q)) for q in queries]
        todo = [i for i, k in enumerate(keys) if k not in self.memo]
        if todo:
            _send(self.w, (spec, [queries[i] for i in todo]))
            try:
                for i, a in zip(todo, _recv(self.r)):
                    self.memo[keys[i]] = a
            except EOFError:
                raise OSError("the pristine server gave no answer for %s" % (spec,))
            if len(self.memo) > 4000:
                keep = {k: self.memo[k] for k in keys}
                self.memo = keep
        return [self.memo[k] for k in keys]
