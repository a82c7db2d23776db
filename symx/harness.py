"""Interface between the property harnesses and their two interpretations.

A harness is a function ``h -> None`` written once.  In symbolic mode its
inputs are z3 variables and ``h.check`` is a solver query; in concrete mode
(replay of counterexamples, validation of the encoding) its inputs are the
values chosen by the solver and everything under it is the real software.
"""
from __future__ import annotations

import os
import shutil
import tempfile

import fsspec
import numpy

from . import core, values
from .values import SymArray, SymMasked, SymVal
from .z3imp import z3


class Violation(Exception):
    """The property does not hold (concrete mode)."""


class Skip(Exception):
    """The concrete inputs do not satisfy the assumptions."""


class Base:
    symbolic = False

    def __init__(self, config=None, root=None):
        self.config = dict(config or {})
        self._tmp = None
        self._root = root
        self._n = 0
        self.reached = False

    # -- scratch space
    def tmpdir(self):
        if self._tmp is None:
            base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access(
                '/dev/shm', os.W_OK) else None
            self._tmp = tempfile.mkdtemp(prefix='symx-', dir=base)
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None
        from fsspec.implementations.memory import MemoryFileSystem
        MemoryFileSystem.store.clear()
        MemoryFileSystem.pseudo_dirs[:] = ['']

    def filesystem(self, kind='file'):
        """(file system, base directory) on which a harness works."""
        if kind == 'memory':
            fs = fsspec.filesystem('memory')
            return fs, '/zc'
        fs = fsspec.filesystem('file')
        return fs, os.path.join(self.tmpdir(), 'zc')

    def raises(self, excs, func, *args, **kwargs):
        """True if func raises one of excs."""
        try:
            func(*args, **kwargs)
        except excs:
            return True
        return False

    # -- helpers shared by both modes
    def array(self, seq, dtype=None):
        return values.as_sym(seq, dtype) if values.contains_sym(
            seq) else numpy.array(seq, dtype=dtype)

    def done(self):
        self.reached = True


def _bool_term(cond):
    """z3 Bool or bool of anything a harness may check."""
    if isinstance(cond, (z3.BoolRef, )):
        return cond
    if type(cond) is SymVal:
        return values._as_bool(cond.e)
    if type(cond) is SymArray:
        return z3.And(*[values._as_bool(values.lift(v)[0])
                        for v in cond.base_object().ravel()])
    if isinstance(cond, numpy.ndarray):
        return bool(cond.all())
    return bool(cond)


class SymH(Base):
    symbolic = True

    def __init__(self, path, config=None):
        super().__init__(config)
        self.path = path

    # -- inputs
    def _var(self, name, lo, hi):
        assert name not in self.path.inputs, name
        var = z3.Int(name)
        self.path.inputs[name] = (var, lambda v: v.as_long())
        cons = []
        if lo is not None:
            cons.append(var >= lo)
        if hi is not None:
            cons.append(var <= hi)
        if cons:
            self.path.assume(z3.And(*cons))
        return var

    def int(self, name, lo=None, hi=None, dtype=None):
        return SymVal(self._var(name, lo, hi),
                      None if dtype is None else numpy.dtype(dtype))

    def among(self, name, candidates, dtype=None):
        """Integer restricted to a set of values (still symbolic)."""
        var = self._var(name, min(candidates), max(candidates))
        self.path.assume(z3.Or(*[var == c for c in candidates]))
        return SymVal(var, None if dtype is None else numpy.dtype(dtype))

    def bool(self, name):
        return self.path.value(self._var(name, 0, 1)) == 1

    def choice(self, name, options):
        options = list(options)
        return options[self.path.value(self._var(name, 0, len(options) - 1))]

    def concrete_int(self, name, lo, hi):
        return self.path.value(self._var(name, lo, hi))

    def ints(self, name, n, lo=None, hi=None, dtype='int64', shape=None):
        vals = [self.int(f'{name}{i}', lo, hi, dtype) for i in range(n)]
        arr = values.as_sym(vals, dtype) if n else numpy.empty(0, dtype)
        return arr.reshape(shape) if shape is not None else arr

    # -- logic
    def assume(self, cond):
        self.path.assume(_bool_term(cond))

    def check(self, cond, message):
        self.path.prove(_bool_term(cond), message)

    def fail(self, message):
        self.path.prove(False, message)

    def all(self, conds):
        terms = [_bool_term(c) for c in conds]
        terms = [z3.BoolVal(t) if isinstance(t, bool) else t for t in terms]
        return z3.And(*terms) if terms else True

    def any(self, conds):
        terms = [_bool_term(c) for c in conds]
        terms = [z3.BoolVal(t) if isinstance(t, bool) else t for t in terms]
        return z3.Or(*terms) if terms else False

    def not_(self, cond):
        t = _bool_term(cond)
        return (not t) if isinstance(t, bool) else z3.Not(t)

    def implies(self, a, b):
        return self.any([self.not_(a), b])

    def iff(self, a, b):
        a, b = _bool_term(a), _bool_term(b)
        a = z3.BoolVal(a) if isinstance(a, bool) else a
        b = z3.BoolVal(b) if isinstance(b, bool) else b
        return a == b

    def decide(self, cond):
        """Truth value of cond on this path (forks)."""
        return self.path.branch(_bool_term(cond))

    def same(self, a, b):
        """Term: the scalars are equal (NaN == NaN, masked == masked)."""
        return _same_sym(a, b)


def _is_masked(x):
    return x is numpy.ma.masked


def _same_sym(a, b):
    if _is_masked(a) or _is_masked(b):
        return _is_masked(a) and _is_masked(b)
    ea, da = values.lift(a)
    eb, db = values.lift(b)
    if ea is None or eb is None:
        if ea is None and eb is None:
            return _same(a, b)
        return False
    if z3.is_bool(ea) != z3.is_bool(eb):
        ea, eb = values._as_int(ea), values._as_int(eb)
    if da is not None and db is not None and (da.kind in 'mM'
                                              or db.kind in 'mM'):
        if da.kind != db.kind:
            return False
        ea, eb = values._common(ea, da, eb, db)
    return ea == eb


def _same(a, b):
    if _is_masked(a) or _is_masked(b):
        return _is_masked(a) and _is_masked(b)
    try:
        if a != a and b != b:
            return True
    except Exception:
        pass
    return bool(a == b)


class ConcH(Base):
    symbolic = False

    def __init__(self, inputs, config=None, extra=None):
        super().__init__(config)
        self.inputs = dict(inputs)
        self.extra = dict(extra or {})

    def _get(self, name, default):
        return self.inputs.get(name, default)

    def int(self, name, lo=None, hi=None, dtype=None):
        v = self._get(name, lo if lo is not None else (hi or 0))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip(name)
        return v if dtype is None else values.to_scalar(v, numpy.dtype(dtype))

    def among(self, name, candidates, dtype=None):
        v = self._get(name, candidates[0])
        if v not in candidates:
            raise Skip(name)
        return v if dtype is None else values.to_scalar(v, numpy.dtype(dtype))

    def bool(self, name):
        return self._get(name, 0) == 1

    def choice(self, name, options):
        return list(options)[self._get(name, 0)]

    def concrete_int(self, name, lo, hi):
        return self._get(name, lo)

    def ints(self, name, n, lo=None, hi=None, dtype='int64', shape=None):
        vals = [self.int(f'{name}{i}', lo, hi) for i in range(n)]
        arr = numpy.array(vals, dtype='int64').astype(dtype)
        return arr.reshape(shape) if shape is not None else arr

    def assume(self, cond):
        if not _plain(cond):
            raise Skip('assumption')

    def check(self, cond, message):
        if not _plain(cond):
            raise Violation(message)

    def fail(self, message):
        raise Violation(message)

    def all(self, conds):
        return all([_plain(c) for c in conds])

    def any(self, conds):
        return any([_plain(c) for c in conds])

    def not_(self, cond):
        return not _plain(cond)

    def implies(self, a, b):
        return (not _plain(a)) or _plain(b)

    def iff(self, a, b):
        return _plain(a) == _plain(b)

    def decide(self, cond):
        return _plain(cond)

    def same(self, a, b):
        return _same(a, b)


def _plain(cond):
    if isinstance(cond, numpy.ndarray):
        return bool(cond.all())
    return bool(cond)


# -- comparisons usable in both modes -------------------------------------------
def cells(arr):
    """Flat list of the cells of an array (masked cells: numpy.ma.masked)."""
    if type(arr) is SymMasked:
        return [numpy.ma.masked if m else v for v, m in zip(
            arr.data.base_object().ravel(), arr.mask.ravel())]
    if type(arr) is SymArray:
        return list(arr.base_object().ravel())
    if isinstance(arr, numpy.ma.MaskedArray):
        mask = numpy.ma.getmaskarray(arr).ravel()
        data = numpy.asarray(arr.data).ravel()
        return [numpy.ma.masked if m else v for v, m in zip(data, mask)]
    if type(arr) is SymVal:
        return [arr]
    return list(numpy.asarray(arr).ravel())


def same_array(h, a, b, dtype=True):
    """Condition: same shape and same cells."""
    if tuple(a.shape) != tuple(b.shape):
        return False
    return h.all([h.same(x, y) for x, y in zip(cells(a), cells(b))])
