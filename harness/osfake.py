"""A file system and memory mapper whose calls are recorded and may be made to fail."""
import os


class File(object):
    def __init__(self, env, name, data):
        self.env, self.name, self.data, self.pos, self.closed = env, name, data, 0, False
        env.files.append(self)

    def _chk(self, what):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        self.env.step(what)

    def seek(self, n, whence=0):
        self._chk('seek')
        self.pos = n + (0, self.pos, len(self.data))[whence]
        return self.pos

    def tell(self):
        self._chk('tell')
        return self.pos

    def fileno(self):
        self._chk('fileno')
        return 1000 + self.env.files.index(self)

    def read(self, n=-1):
        self._chk('read')
        end = len(self.data) if n is None or n < 0 else min(len(self.data), self.pos + n)
        r = self.data[self.pos:end]
        self.pos = max(self.pos, end)
        return r

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class Map(object):
    """Content that cannot be changed, and cannot be used after closing."""

    def __init__(self, env, data):
        self.env, self.data, self.closed, self.pos = env, data, False, 0
        env.maps.append(self)

    def _chk(self):
        if self.closed:
            raise ValueError('mmap closed or invalid')

    def __getitem__(self, k):
        self._chk()
        return self.data[k]

    def __len__(self):
        self._chk()
        return len(self.data)

    def find(self, *a):
        self._chk()
        return self.data.find(*a)

    def size(self):
        self._chk()
        return len(self.data)

    def read(self, n=None):
        self._chk()
        r = self.data[self.pos:] if n is None else self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def seek(self, n, whence=0):
        self._chk()
        self.pos = n + (0, self.pos, len(self.data))[whence]

    def close(self):
        self.closed = True

    def __enter__(self):
        self._chk()
        return self

    def __exit__(self, *a):
        self.close()
        return False


class MapModule(object):
    ACCESS_READ, ACCESS_WRITE, ACCESS_COPY = 1, 2, 3
    PROT_READ, MAP_SHARED, MAP_PRIVATE = 1, 1, 2
    error = OSError

    def __init__(self, env):
        self.env = env

    def mmap(self, fd, size, *a, **k):
        self.env.step('mmap')
        f = self.env.files[fd - 1000]
        if f.closed:
            raise OSError(9, 'Bad file descriptor')
        if len(f.data) == 0:
            raise ValueError('cannot mmap an empty file')
        if size > len(f.data):
            raise ValueError('mmap length is greater than file size')
        return Map(self.env, f.data if size == 0 else f.data[:size])


class Env(object):
    """paths: name -> content.  fail: the number of the call that raises OSError."""

    def __init__(self, sx, X, paths, fail=None):
        self.sx, self.paths, self.fail = sx, paths, fail
        self.files, self.maps, self.n = [], [], 0
        X.patch_open(self.open)
        X.patch_all('mmap', MapModule(self))

    def step(self, what):
        if self.fail is not None and self.fail == self.n:
            self.n += 1
            raise OSError(5, 'Input/output error in ' + what)
        self.n += 1

    def open(self, name, mode='r', *a, **k):
        self.step('open')
        if mode not in ('rb', 'br'):
            raise AssertionError('file opened with mode ' + mode)
        if name not in self.paths:
            raise FileNotFoundError(2, 'No such file or directory')
        return File(self, name, self.paths[name])

    def still_open(self):
        return [f.name for f in self.files if not f.closed] + ['map' for m in self.maps if not m.closed]
