"""Faults of the file system below a directory.

While armed, every operation that modifies something below ``base`` (creating
a directory, creating or truncating a file, writing it, unlinking, renaming)
is one step; the number of the failing step is an input of the harness, so the
solver enumerates exactly the feasible ones.

``fault``: the step raises OSError once, the process goes on.
``crash``: the process stops at the step: it and every later modification
raise Crash and change nothing.
"""
from __future__ import annotations

import builtins
import contextlib
import errno
import gc
import os
import threading
import time

from . import core


class Crash(BaseException):
    """The process is killed."""


class Killed(Exception):
    """Stand-in of Crash under a real dask client, whose threads do not
    survive a BaseException; handlers that catch it cannot modify anything."""


_REAL = {'mkdir': os.mkdir, 'unlink': os.unlink, 'remove': os.remove,
         'rmdir': os.rmdir, 'rename': os.rename, 'replace': os.replace,
         'open': builtins.open, 'sleep': time.sleep}


class Faults:
    def __init__(self, h, mode, base, limit=600, name='at', torn=True,
                 but=()):
        self.h, self.mode = h, mode
        self.base = os.path.realpath(base)
        self.at = h.int(name, 0, limit)
        self.count = 0
        self.limit = limit
        self.fired = None
        self.dead = self.crashed = False
        self.torn, self.but = torn, set(but)
        self.seen = {}
        self.lock = threading.RLock()
        self.target = None
        if not h.symbolic:
            self.target = h.extra.get('fault')

    # -- steps ---------------------------------------------------------------
    def _under(self, path, dir_fd=None):
        try:
            path = os.fspath(path)
        except TypeError:
            return None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if dir_fd is not None:
            path = os.path.join(os.readlink(f'/proc/self/fd/{dir_fd}'), path)
        path = os.path.abspath(path)
        if path == self.base or path.startswith(self.base + os.sep):
            return os.path.relpath(path, self.base)
        return None

    def step(self, kind, path):
        """True if this step must fail."""
        with self.lock:
            if self.dead:
                self.fail()
            nth = self.seen[(kind, path)] = self.seen.get((kind, path), 0) + 1
            if self.fired is not None or (kind, path) in self.but:
                return False
            ident = (kind, path, nth)
            if self.target is not None:
                hit = tuple(self.target) == ident
            elif self.h.symbolic:
                hit = self.h.decide(self.at == self.count)
            else:
                hit = int(self.at) == self.count
            self.count += 1
            if self.count >= self.limit:
                raise core.PathAborted('too many steps')
            if not hit:
                return False
            self.fired = ident
            if self.h.symbolic:
                core.current().extra['fault'] = ident
            if self.mode == 'crash':
                self.dead = True
            return True

    def fail(self):
        if self.mode == 'crash':
            raise Crash() if self.h.symbolic else Killed()
        raise OSError(errno.ENOSPC, 'No space left on device')

    # -- operations ----------------------------------------------------------
    def _mkdir(self, path, mode=0o777, *, dir_fd=None):
        rel = self._under(path, dir_fd)
        if rel is not None and not os.path.lexists(path) and self.step(
                'mkdir', rel):
            self.fail()
        return _REAL['mkdir'](path, mode, dir_fd=dir_fd)

    def _remover(self, kind):
        def func(path, *, dir_fd=None):
            rel = self._under(path, dir_fd)
            if rel is not None and self.step(kind, rel):
                self.fail()
            return _REAL[kind](path, dir_fd=dir_fd)
        return func

    def _renamer(self, kind):
        def func(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
            rel = self._under(dst, dst_dir_fd)
            if rel is not None and self.step(kind, rel):
                self.fail()
            return _REAL[kind](src, dst, src_dir_fd=src_dir_fd,
                               dst_dir_fd=dst_dir_fd)
        return func

    def _open(self, file, mode='r', *args, **kwargs):
        if not isinstance(file, int) and any(c in mode for c in 'wxa+'):
            rel = self._under(file)
            if rel is not None:
                if self.step('open', rel):
                    self.fail()
                if self.torn and self.step('write', rel):
                    _REAL['open'](file, mode, *args, **kwargs).close()
                    self.fail()
        return _REAL['open'](file, mode, *args, **kwargs)

    @contextlib.contextmanager
    def armed(self):
        """Run a block under the faults; a crash ends it silently."""
        os.mkdir = self._mkdir
        for kind in ('unlink', 'remove', 'rmdir'):
            setattr(os, kind, self._remover(kind))
        for kind in ('rename', 'replace'):
            setattr(os, kind, self._renamer(kind))
        builtins.open = self._open
        time.sleep = lambda x: _REAL['sleep'](min(x, 0.005))
        try:
            yield self
        except (Crash, Killed):
            assert self.mode == 'crash'
        finally:
            os.mkdir = _REAL['mkdir']
            for kind in ('unlink', 'remove', 'rmdir', 'rename', 'replace'):
                setattr(os, kind, _REAL[kind])
            builtins.open = _REAL['open']
            time.sleep = _REAL['sleep']
            self.crashed, self.dead = self.dead, False
            if not self.h.symbolic:
                gc.collect()  # releases the futures of the failed operation


def scratch(h):
    """Scratch directory of the harness, the same one in a replay."""
    if h.symbolic:
        core.current().extra['tmp'] = h.tmpdir()
    elif h.extra.get('tmp') and h._tmp is None:
        try:
            _REAL['mkdir'](h.extra['tmp'], 0o700)
            h._tmp = h.extra['tmp']
        except OSError:
            pass
    return h.tmpdir()
