"""Operating system calls of the program under test, under control of the explorer.

`install(decide)` puts a stand-in before every call through which a Python program looks at or reads a file
(stat, open, map, reads of files and maps). Before a call is carried out, decide(n, kind, path) is asked: it may
raise the error the call is to fail with, or change the files. Calls on files outside of the watched directory
are passed on.
"""
import builtins
import io
import mmap as _mmap
import os


class Env:
    def __init__(self, top, decide, log=None):
        self.top, self.decide, self.log, self.n, self.fds, self.on = os.path.realpath(top), decide, log, 0, {}, True

    def name(self, path):
        if isinstance(path, int):
            try:
                path = os.readlink('/proc/self/fd/%d' % path)
            except OSError:
                return None
        try:
            p = os.path.abspath(os.fsdecode(path))
        except (TypeError, ValueError):
            return None
        return p if p.startswith(self.top + os.sep) and not os.path.basename(p).startswith('.std') else None

    def event(self, kind, path):
        if not self.on:
            return
        self.on = False
        try:
            p = self.name(path)
            if p is None:
                return
            k = self.n
            self.n += 1
            if self.log is not None:
                self.log.append((kind, p))
            self.decide(k, kind, p)
        finally:
            self.on = True


def install(top, decide, log=None, data=True):
    env = Env(top, decide, log)
    real_open, real_os_open, real_stat, real_map = io.open, os.open, os.stat, _mmap.mmap

    class Reader(io.BufferedReader):
        def _ev(self):
            env.event('read', self.fileno())

        def read(self, *a):
            self._ev()
            return super().read(*a)

        def read1(self, *a):
            self._ev()
            return super().read1(*a)

        def readinto(self, b):
            self._ev()
            return super().readinto(b)

        def readline(self, *a):
            self._ev()
            return super().readline(*a)

    def open_(file, mode='r', *a, **kw):
        env.event('open', file)
        if mode in ('rb', 'br') and not a and not kw and env.name(file):
            return Reader(io.FileIO(file, 'rb'))
        return real_open(file, mode, *a, **kw)

    def os_open(path, *a, **kw):
        env.event('open', path)
        return real_os_open(path, *a, **kw)

    def os_stat(path, *a, **kw):
        env.event('stat', path)
        return real_stat(path, *a, **kw)

    class Map(real_map):
        def __new__(cls, fileno, *a, **kw):
            if fileno != -1:
                env.event('map', fileno)
            self = super().__new__(cls, fileno, *a, **kw)
            self._path = env.name(fileno)
            return self

        def __getitem__(self, k):
            if data and self._path:
                env.event('data', self._path)
            return super().__getitem__(k)

    builtins.open = io.open = open_
    os.open, os.stat, _mmap.mmap = os_open, os_stat, Map
    return env
