"""Enumeration of the file system steps of an operation, with a crash or an error at each of them.

Steps are opening, writing, flushing, closing, syncing, truncating, renaming, removing, making and copying, whatever
function of Python is used for them.  A crash is os._exit(): what was not handed to the operating system is lost.
"""
import builtins
import errno
import io
import os
import shutil

CRASHED = 77
WRITE = {'open-w', 'write', 'flush', 'close', 'fsync', 'mkdir', 'sendfile', 'symlink', 'link', 'rename'}


class Injector:
    def __init__(self, root, at=None, mode=None):
        """mode: None (count only), 'crash', 'torn' (half of a write, then crash), 'error' (this step fails),
        'torn-error' (half of a write, then an error), 'full' (from here on nothing can be written)"""
        self.root, self.at, self.mode = os.path.realpath(root), at, mode
        self.n = 0
        self.log = []
        self.busy = False

    def inside(self, path):
        try:
            if isinstance(path, int):
                return True
            p = os.path.realpath(os.fsdecode(path))
        except (TypeError, ValueError):
            return False
        return p == self.root or p.startswith(self.root + os.sep)

    def step(self, kind, what, half=None):
        """called before a step is done; half: function doing the first half of a write"""
        k = self.n
        self.n += 1
        self.log.append('%s %s' % (kind, what))
        if self.mode is None or self.at is None:
            return
        if self.mode == 'full':
            if k >= self.at and kind in WRITE:
                if half and k == self.at:
                    half()
                raise OSError(errno.ENOSPC, 'No space left on device', str(what))
            return
        if k != self.at:
            return
        if self.mode in ('torn', 'torn-error') and half:
            half()
        if self.mode in ('crash', 'torn'):
            os._exit(CRASHED)
        raise OSError(errno.EIO, 'Input/output error', str(what))


class File:
    """a file opened for writing"""

    def __init__(self, fp, inj, path):
        self.__dict__.update(_fp=fp, _inj=inj, _path=path)

    def write(self, data):
        def half():
            self._fp.write(data[:len(data) // 2])
            self._fp.flush()
        self._inj.step('write', self._path, half)
        return self._fp.write(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        self._inj.step('flush', self._path)
        return self._fp.flush()

    def truncate(self, *a):
        self._inj.step('write', self._path)
        return self._fp.truncate(*a)

    def close(self):
        if not self._fp.closed:
            try:
                self._inj.step('close', self._path)
            except OSError:
                # an error while closing: what is buffered is lost
                try:
                    os.close(os.dup(self._fp.fileno()))
                    raw = self._fp
                    raw = getattr(raw, 'buffer', raw)
                    raw = getattr(raw, 'raw', raw)
                    raw.close()
                except Exception:
                    pass
                raise
        return self._fp.close()

    def __enter__(self):
        self._fp.__enter__()
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __iter__(self):
        return iter(self._fp)

    def __getattr__(self, name):
        return getattr(self._fp, name)

    def __setattr__(self, name, value):
        setattr(self._fp, name, value)


def install(inj):
    """from now on every step of this process below inj.root goes through inj"""
    real_open = io.open

    def wrapped_open(file, mode='r', *a, **k):
        if isinstance(file, int) or not inj.inside(file):
            return real_open(file, mode, *a, **k)
        if any(c in mode for c in 'wxa+'):
            inj.step('open-w', file)
            fp = real_open(file, mode, *a, **k)
            f = File(fp, inj, os.path.basename(str(file)))
            inj.step('opened', file)
            return f
        inj.step('open-r', file)
        return real_open(file, mode, *a, **k)

    builtins.open = wrapped_open
    io.open = wrapped_open

    def wrap(module, name, kind, paths=1):
        real = getattr(module, name, None)
        if real is None:
            return

        def wrapped(*a, **k):
            vals = list(a[:paths]) + [v for n, v in k.items() if n in ('src', 'dst', 'path', 'name')]
            if any(inj.inside(v) for v in vals):
                inj.step(kind, '%s %s' % (name, [os.path.basename(str(v)) for v in vals]))
            return real(*a, **k)

        wrapped.__name__ = name
        setattr(module, name, wrapped)

    for name, kind, paths in (('rename', 'rename', 2), ('replace', 'rename', 2), ('renames', 'rename', 2),
                              ('remove', 'remove', 1), ('unlink', 'remove', 1), ('rmdir', 'remove', 1),
                              ('mkdir', 'mkdir', 1), ('symlink', 'symlink', 2), ('link', 'link', 2),
                              ('truncate', 'write', 1), ('fsync', 'fsync', 1), ('fdatasync', 'fsync', 1),
                              ('chmod', 'attr', 1), ('utime', 'attr', 1), ('listdir', 'list', 1),
                              ('scandir', 'list', 1)):
        wrap(os, name, kind, paths)

    real_os_open = os.open

    def os_open(path, flags, *a, **k):
        if inj.inside(path) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            inj.step('open-w', path)
            fd = real_os_open(path, flags, *a, **k)
            inj.step('opened', path)
            return fd
        return real_os_open(path, flags, *a, **k)

    os.open = os_open
    real_write = os.write

    def os_write(fd, data):
        if fd > 2:
            inj.step('write', 'descriptor', lambda: real_write(fd, bytes(data)[:len(data) // 2]))
        return real_write(fd, data)

    os.write = os_write
    if hasattr(os, 'sendfile'):
        real_sendfile = os.sendfile

        def sendfile(out, in_, offset, count, *a, **k):
            size = os.fstat(in_).st_size - (offset or 0)
            if size > 0:
                inj.step('sendfile', 'copy of data', lambda: real_sendfile(out, in_, offset, max(1, size // 2)))
            return real_sendfile(out, in_, offset, count, *a, **k)

        os.sendfile = sendfile
    # remove trees path by path, through the functions above
    if hasattr(shutil, '_use_fd_functions'):
        shutil._use_fd_functions = False


def run_in_child(inj, fn):
    """fn() in a child process with the injector installed -> ('done'|'error'|'crash', detail, number of steps, log)"""
    import pickle
    r, w = os.pipe()
    real_write, real_close = os.write, os.close
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            install(inj)
            try:
                fn()
                res = ('done', '')
            except Exception as err:
                res = ('error', '%s: %s' % (type(err).__name__, err))
            inj.mode = None
            blob = pickle.dumps(res + (inj.n, inj.log))
            while blob:
                blob = blob[real_write(w, blob):]
            real_close(w)
            os._exit(0)
        finally:
            os._exit(78)
    os.close(w)
    with os.fdopen(r, 'rb') as fp:
        data = fp.read()
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    if code == CRASHED:
        return 'crash', '', inj.at, []
    if code != 0 or not data:
        raise RuntimeError('child ended with %s' % code)
    return pickle.loads(data)
