"""Runs the command line scripts of the repository inside the simulator: their real code, with simulated files, streams, arguments and (for vsc_mount) a simulated FUSE library."""
import builtins
import errno
import io
import os
import sys
from .core import InjectedIOError

_code = {}


def repo():
    return os.environ.get('VERIF_REPO', '/repo')


def code(name):
    p = os.path.join(repo(), name)
    if p not in _code:
        with open(p, 'rb') as f:
            _code[p] = compile(f.read(), p, 'exec', dont_inherit=True)
    return _code[p]


class SimOut(io.RawIOBase):
    """An output file on a simulated file system: takes `cap` bytes in all, then ENOSPC (or EIO); short writes before that."""

    def __init__(self, ctx, name, plan=None):
        io.RawIOBase.__init__(self)
        self.ctx = ctx
        self.name_ = name
        self.data = bytearray()
        self.plan = plan or {}
        self.failed = False
        self.n = 0

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        self.ctx.step()
        self.n += 1
        cap = self.plan.get('cap')
        if cap is not None and len(self.data) + len(b) > cap:
            room = cap - len(self.data)
            if room > 0:
                self.data += b[:room]
                self.ctx.fault('short-write')
                return room
            self.failed = True
            self.ctx.fault(self.plan.get('err', 'enospc'))
            raise InjectedIOError(errno.ENOSPC if self.plan.get('err', 'enospc') == 'enospc' else errno.EIO, 'simulated write error')
        k = self.plan.get('short')
        if k and len(b) > 1 and self.n % k == 0:
            self.ctx.fault('short-write')
            b = b[:len(b) // 2]
        self.data += b
        return len(b)


class Vfs(object):
    """The files a script can open."""

    def __init__(self, ctx, inputs, outputs=None):
        self.ctx = ctx
        self.inputs = inputs      # name -> function returning a file object
        self.outputs = outputs or {}  # name -> fault plan
        self.written = {}
        self.wrappers = []
        self.opened = []

    def open(self, path, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        self.opened.append((path, mode))
        if 'r' in mode and '+' not in mode:
            if path not in self.inputs:
                raise FileNotFoundError(errno.ENOENT, 'no such simulated file', path)
            f = self.inputs[path]()
            return f
        if path in self.inputs:
            self.ctx.writes.append((path, 'open', mode))
        if path not in self.outputs:
            raise PermissionError(errno.EACCES, 'not a simulated output', path)
        o = SimOut(self.ctx, path, self.outputs[path])
        self.written[path] = o
        b = io.BufferedWriter(o, 4096)
        w = b if 'b' in mode else io.TextIOWrapper(b, encoding=encoding or 'utf-8', errors=errors, newline=newline)
        self.wrappers.append(w)
        return w


class Result(object):
    pass


def run(ctx, name, argv, vfs, modules=None):
    """Run a script to its end. Returns a Result with exit status, error (exception or None), stdout and stderr text."""
    res = Result()
    g = {'__name__': '__main__', '__file__': name, '__builtins__': builtins, 'open': vfs.open}
    old = (sys.argv, sys.stdout, sys.stderr)
    out, err = io.StringIO(), io.StringIO()
    saved = {}
    sys.argv = [name] + list(argv)
    sys.stdout, sys.stderr = out, err
    for k, v in (modules or {}).items():
        saved[k] = sys.modules.get(k)
        sys.modules[k] = v
    res.status = 0
    res.error = None
    try:
        exec(code(name), g)
    except SystemExit as e:
        res.status = e.code or 0
    except Exception as e:
        res.status = 1
        res.error = e
    finally:
        sys.argv, sys.stdout, sys.stderr = old
        for k, v in saved.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v
    # end of the process: buffers that were not closed are flushed by the interpreter, failures of that are invisible to the caller
    for w in vfs.wrappers:
        if not w.closed:
            try:
                w.close()
                res.late_close = True
            except Exception:
                res.late_failure = True
    res.out = out.getvalue()
    res.err = err.getvalue()
    res.globals = g
    return res
