"""Environment of the code under test in symbolic mode.

Everything below zcollection stays real (fsspec, zarr, dask.array, dask.bag,
the file system) except for:

* the byte boundary of zarr arrays: symbolic cells are stored as 64 bit
  handles and decoded on read;
* dask.distributed: a synchronous client (tasks run in submission order, or in
  an order chosen by the harness);
* numpy array constructors called by zcollection modules: they return arrays
  able to hold symbolic cells;
* numpy.ma.masked_equal/masked_where, time.sleep;
* pyarrow tables (arrow.py).
"""
from __future__ import annotations

import contextlib
import os
import sys
import time
import types

import dask
import dask.base
import dask.array
import dask.bag
import dask.bag.core
import dask.optimization
import dask.distributed
import dask.delayed
import numpy
import pyarrow
import pyarrow.compute
import zarr
import zarr.core

from . import arrow, core, values
from .values import SymArray, SymMasked, SymVal

_REAL = {}


def materialize(x):
    """Array held by an object that is not one (lazy, compressed)."""
    if core.active() and not isinstance(x, numpy.ndarray) and type(x) not in (
            SymVal, SymMasked, SymArray) and not isinstance(
                x, numpy.generic) and hasattr(type(x), '__array__'):
        return x.compute() if isinstance(
            x, dask.array.core.Array) else x.__array__()
    return x


# -- numpy proxy ---------------------------------------------------------------
class NumpyProxy(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.__dict__['ma'] = numpy.ma

    def __getattr__(self, name):
        return getattr(numpy, name)

    @staticmethod
    def array(x, dtype=None, **kw):
        x = materialize(x)
        if core.active() and values.contains_sym(x):
            if type(x) is SymArray and not kw.get('copy', True):
                return x if dtype is None else x.astype(dtype)
            return values.as_sym(x, dtype)
        return numpy.array(x, dtype=dtype, **kw)

    @staticmethod
    def asarray(x, dtype=None, *a, **kw):
        x = materialize(x)
        if type(x) is SymMasked:
            x = x.data
        if core.active() and values.contains_sym(x):
            if type(x) is SymArray and (dtype is None
                                        or numpy.dtype(dtype) == x.dtype):
                return x
            return values.as_sym(x, dtype)
        return numpy.asarray(x, dtype, *a, **kw)

    @staticmethod
    def asanyarray(x, dtype=None, *a, **kw):
        x = materialize(x)
        if type(x) is SymMasked:
            return x
        return NumpyProxy.asarray(x, dtype) if values.contains_sym(
            x) else numpy.asanyarray(x, dtype, *a, **kw)

    @staticmethod
    def ascontiguousarray(x, dtype=None, **kw):
        if type(x) is SymArray:
            return NumpyProxy.asarray(x, dtype)
        return numpy.ascontiguousarray(x, dtype, **kw)

    @staticmethod
    def full(shape, fill_value, dtype=None, **kw):
        if core.active():
            if type(fill_value) is SymVal:
                base = numpy.zeros(shape, dtype or fill_value.dtype)
            else:
                base = numpy.full(shape, fill_value, dtype, **kw)
            if _symable(base.dtype):
                out = values.wrap(values.to_object(base), base.dtype)
                if type(fill_value) is SymVal:
                    out[...] = fill_value
                return out
            return base
        return numpy.full(shape, fill_value, dtype, **kw)

    @staticmethod
    def empty(shape, dtype=float, *a, **kw):
        r = numpy.zeros(shape, dtype, *a, **kw)
        if core.active() and _symable(r.dtype):
            return values.wrap(values.to_object(r), r.dtype)
        return numpy.empty(shape, dtype, *a, **kw)

    @staticmethod
    def zeros(shape, dtype=float, *a, **kw):
        r = numpy.zeros(shape, dtype, *a, **kw)
        if core.active() and _symable(r.dtype):
            return values.wrap(values.to_object(r), r.dtype)
        return r

    @staticmethod
    def ones(shape, dtype=float, *a, **kw):
        r = numpy.ones(shape, dtype, *a, **kw)
        if core.active() and _symable(r.dtype):
            return values.wrap(values.to_object(r), r.dtype)
        return r

    @staticmethod
    def isscalar(x):
        return True if type(x) is SymVal else numpy.isscalar(x)


def _symable(dt):
    return dt.kind in 'iufmMb'


PROXY = NumpyProxy()


# -- dask client -----------------------------------------------------------------
class FakeFuture:
    _n = 0

    def __init__(self, thunk):
        FakeFuture._n += 1
        self.key = f'fake-{FakeFuture._n}'
        self.thunk = thunk
        self.done_ = False
        self.value = None
        self.exc = None

    #: number of tasks under way (a task may submit others and wait for them)
    depth = 0
    #: called with each task submitted by the main thread when it starts
    on_run = None

    def run(self):
        if self.done_:
            return
        self.done_ = True
        if FakeFuture.depth == 0 and FakeFuture.on_run is not None:
            FakeFuture.on_run(self)
        FakeFuture.depth += 1
        try:
            self.value = self.thunk()
        except Exception as exc:  # noqa: BLE001 (steering is BaseException)
            self.exc = exc
        finally:
            FakeFuture.depth -= 1

    def done(self):
        return self.done_

    @property
    def status(self):
        return 'pending' if not self.done_ else (
            'error' if self.exc else 'finished')

    def result(self, timeout=None):
        self.run()
        if self.exc is not None:
            raise self.exc
        return self.value

    def exception(self, timeout=None):
        self.run()
        return self.exc

    def cancel(self, **kw):
        pass

    def release(self, **kw):
        pass


_MAP_KW = {'key', 'workers', 'retries', 'resources', 'priority',
           'allow_other_workers', 'fifo_timeout', 'actor', 'actors', 'pure',
           'batch_size'}


def _unwrap(x):
    if isinstance(x, FakeFuture):
        return x.result()
    if type(x) in (list, tuple):
        return type(x)(_unwrap(i) for i in x)
    if type(x) is dict:
        return {k: _unwrap(v) for k, v in x.items()}
    return x


class FakeClient:
    """Synchronous stand-in for dask.distributed.Client."""

    #: None: every task runs when it is submitted; otherwise a callable
    #: deciding (True: now, False: when its result is awaited).
    run_now = None
    #: Called with the list of pending tasks; returns their execution order.
    order = None
    workers = 2
    #: If set, called when a task has failed while others have not started:
    #: True if these ones start after the failure has been reported.
    late = None
    #: tasks submitted by the main thread (kept when late is set)
    submitted = []
    submissions = 0
    asynchronous = False

    def __init__(self, *a, **kw):
        self.pending = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def _submit(self, thunks):
        futures = [FakeFuture(t) for t in thunks]
        if FakeFuture.depth == 0:
            FakeClient.submissions += 1
            for f in futures:
                f.submission = FakeClient.submissions
        seq = list(futures)
        if FakeClient.order is not None and len(seq) > 1:
            seq = FakeClient.order(seq)
        top = FakeFuture.depth == 0
        if top and FakeClient.late is not None:
            FakeClient.submitted.extend(futures)
        for f in seq:
            if FakeClient.run_now is None or not top or FakeClient.run_now(f):
                f.run()
        return futures

    def submit(self, func, *args, **kwargs):
        kw = {k: v for k, v in kwargs.items() if k not in _MAP_KW}
        return self._submit([lambda: func(*_unwrap(args), **_unwrap(kw))])[0]

    def map(self, func, *iterables, **kwargs):
        kw = {k: v for k, v in kwargs.items() if k not in _MAP_KW}

        def thunk(args):
            return lambda: func(*_unwrap(args), **_unwrap(kw))
        return self._submit([thunk(args) for args in zip(*iterables)])

    def scatter(self, data, **kw):
        return data

    def compute(self, collections, sync=False, **kw):
        single = not isinstance(collections, (list, tuple))
        items = [collections] if single else list(collections)

        def thunk(c):
            def run():
                return dask.base.compute(c, scheduler='synchronous')[0]
            return run
        out = [None] * len(items)
        todo = [(i, c) for i, c in enumerate(items)
                if not isinstance(c, FakeFuture)]
        for (i, _), f in zip(todo, self._submit([thunk(c)
                                                 for _, c in todo])):
            out[i] = f
        for i, c in enumerate(items):
            if isinstance(c, FakeFuture):
                out[i] = c
        if sync:
            return self.gather(out[0] if single else out)
        return out[0] if single else out

    def persist(self, collections, **kw):
        return dask.base.persist(collections, scheduler='synchronous')[0]

    def gather(self, futures, errors='raise', **kw):
        if isinstance(futures, FakeFuture):
            return futures.result()
        futures = list(futures)
        asked = False
        for f in futures:
            if isinstance(f, FakeFuture):
                f.run()
                if f.exc is not None and not asked and errors == 'raise' and (
                        FakeClient.late is not None) and FakeFuture.depth == 0:
                    asked = True
                    if FakeClient.late(f):
                        raise f.exc
        if errors == 'skip':
            futures = [f for f in futures if not (isinstance(
                f, FakeFuture) and f.exc is not None)]
        return [_unwrap(f) for f in futures]

    def ncores(self, *a, **k):
        return {f'w{i}': 1 for i in range(FakeClient.workers)}

    def nthreads(self, *a, **k):
        return self.ncores()

    def has_what(self):
        return {}

    def scheduler_info(self, *a, **k):
        return {'workers': {w: {'nthreads': 1} for w in self.ncores()}}

    def run(self, func, *a, **k):
        return {w: func(*a, **k) for w in self.ncores()}

    def close(self, *a, **k):
        pass

    def cancel(self, *a, **k):
        pass

    def wait_for_workers(self, *a, **k):
        pass


_CLIENT = FakeClient()


@contextlib.contextmanager
def _worker_client(*a, **k):
    yield _CLIENT


class _Worker:
    address = 'fake://0'
    name = 'fake'


class _WaitResult:
    def __init__(self, futures):
        self.done = set(futures)
        self.not_done = set()


def _wait(fs, timeout=None, return_when='ALL_COMPLETED'):
    fs = [fs] if isinstance(fs, FakeFuture) else list(fs)
    for f in fs:
        if isinstance(f, FakeFuture):
            f.run()
    return _WaitResult([f for f in fs if isinstance(f, FakeFuture)])


def _as_completed(futures=None, **kw):
    seq = list(futures or [])
    if FakeClient.order is not None and len(seq) > 1:
        seq = FakeClient.order(seq)
    for f in seq:
        f.run()
    with_results = kw.get('with_results', False)
    return iter([(f, f.result()) if with_results else f for f in seq])


def _futures_of(o, client=None):
    found = []

    def walk(x):
        if isinstance(x, FakeFuture):
            found.append(x)
        elif isinstance(x, (list, tuple, set)):
            for i in x:
                walk(i)
        elif isinstance(x, dict):
            for i in x.values():
                walk(i)
        elif dask.base.is_dask_collection(x):
            walk(dict(x.__dask_graph__()))
    walk(o)
    return found


def _persist_as_futures(self, **kwargs):
    """Bag.persist under a distributed client: one future per partition."""
    dsk = dict(self.__dask_optimize__(self.__dask_graph__(),
                                      self.__dask_keys__()))
    keys = self.__dask_keys__()

    def thunk(key):
        return lambda: dask.get(dask.optimization.cull(dsk, [key])[0],
                                [key])[0]
    futures = _CLIENT._submit([thunk(k) for k in keys])
    return dask.bag.core.Bag(dict(zip(keys, futures)), self.name,
                             self.npartitions)


# -- zarr boundary ------------------------------------------------------------------
def _zarr_getitem(self, selection):
    return values.decode(_REAL['zget'](self, values.norm_key(selection)))


def _zarr_setitem(self, selection, value):
    if core.active() and isinstance(value, zarr.core.Array):
        value = value[...]
    if type(value) is SymMasked:
        value = value.data
    if type(value) is SymVal:
        value = values.as_sym([value]).reshape(())
    if type(value) is SymArray:
        if self.dtype.itemsize != 8 or self.dtype.kind not in 'iufmM':
            value = value.realize()
        else:
            if value.dtype != self.dtype:
                value = value.astype(self.dtype)
            if FORK_EMPTY and self.fill_value is not None and _is_fill(
                    value, self.fill_value):
                # zarr does not store the chunks made of fill values
                value = numpy.full(value.shape, self.fill_value, self.dtype)
                return _REAL['zset'](self, values.norm_key(selection), value)
            value = values.encode(value)
            if value.ndim == 0:
                value = value[()]
    return _REAL['zset'](self, values.norm_key(selection), value)


#: Distinguish the paths on which a block written holds only fill values
FORK_EMPTY = False


def _is_fill(value, fill):
    from .z3imp import z3
    cells = [values.lift(v)[0] for v in value.base_object().ravel()]
    fill = values.lift(fill)[0]
    if fill is None or any(c is None for c in cells):
        return False
    return core.current().branch(z3.And(*[c == fill for c in cells]))


def _masked_equal(x, value, copy=True):
    x = materialize(x)
    if type(x) is SymMasked:
        # masked cells remain masked
        r = _masked_equal(x.data, value, copy)
        return values.make_masked(r.data, numpy.ma.getmaskarray(r) | x.mask
                                  if type(r) is not SymMasked else
                                  r.mask | x.mask, value)
    if type(x) is SymVal:
        return numpy.ma.masked if bool(x == value) else x
    if type(x) is SymArray:
        if isinstance(value, (float, numpy.floating)) and value != value:
            mask = numpy.zeros(x.shape, bool)
        else:
            mask = values.concrete_mask(numpy.equal(x, value))
        return values.make_masked(x.copy() if copy else x, mask, value)
    return _REAL['masked_equal'](x, value, copy)


def _masked_where(condition, a, copy=True):
    if type(condition) in (SymArray, ):
        condition = values.concrete_mask(condition)
    if type(a) is SymArray:
        return values.make_masked(a.copy() if copy else a, condition)
    return _REAL['masked_where'](condition, a, copy)


def _ma_concatenate(arrays, axis=0):
    arrays = [materialize(a) for a in arrays]
    if not any(type(a) in (SymMasked, SymArray) for a in arrays):
        return _REAL['ma_concatenate'](arrays, axis)
    data = numpy.concatenate([
        a.data if type(a) is SymMasked else (
            a.data if isinstance(a, numpy.ma.MaskedArray) else a)
        for a in arrays], axis)
    mask = numpy.concatenate([
        a.mask if type(a) is SymMasked else numpy.ma.getmaskarray(a)
        if isinstance(a, numpy.ma.MaskedArray) else numpy.zeros(
            a.shape, bool) for a in arrays], axis)
    fills = [a.fill_value for a in arrays
             if isinstance(a, numpy.ma.MaskedArray)]
    return values.make_masked(
        data, mask, fills[0] if fills and all(
            type(f) is not SymVal and f == fills[0] for f in fills) else None)


_INSTALLED = False


def zc_modules():
    return [m for n, m in list(sys.modules.items())
            if (n == 'zcollection' or n.startswith('zcollection.'))
            and '.tests' not in n and m is not None]


def install():
    """Install the stand-ins (once per process, never undone)."""
    global _INSTALLED
    if _INSTALLED:
        return
    _INSTALLED = True
    import zcollection  # noqa: F401
    import zcollection.convenience  # noqa: F401
    import zcollection.indexing  # noqa: F401
    import zcollection.view  # noqa: F401

    dask.config.set(scheduler='synchronous')
    _REAL['zget'] = zarr.core.Array.__getitem__
    _REAL['zset'] = zarr.core.Array.__setitem__
    zarr.core.Array.__getitem__ = _zarr_getitem
    zarr.core.Array.__setitem__ = _zarr_setitem
    _REAL['masked_equal'] = numpy.ma.masked_equal
    _REAL['masked_where'] = numpy.ma.masked_where
    replaced = {}

    def patch(module, name, new):
        old = getattr(module, name)
        replaced[id(old)] = (old, new)
        setattr(module, name, new)

    patch(numpy.ma, 'masked_equal', _masked_equal)
    numpy.ma.core.masked_equal = _masked_equal
    patch(numpy.ma, 'masked_where', _masked_where)
    numpy.ma.core.masked_where = _masked_where
    _REAL['ma_concatenate'] = numpy.ma.concatenate
    numpy.ma.concatenate = numpy.ma.core.concatenate = _ma_concatenate
    dask.array.core.concatenate_lookup.register(
        SymMasked, lambda arrays, axis=0, **k: _ma_concatenate(arrays, axis))
    dd = dask.distributed
    patch(dd, 'Client', FakeClient)
    patch(dd, 'Future', FakeFuture)
    patch(dd, 'get_client', lambda *a, **k: _CLIENT)
    patch(dd, 'worker_client', _worker_client)
    patch(dd, 'get_worker', lambda *a, **k: _Worker())
    patch(dd, 'wait', _wait)
    patch(dd, 'as_completed', _as_completed)
    patch(dd, 'futures_of', _futures_of)
    patch(dd, 'secede', lambda *a, **k: None)
    patch(dd, 'rejoin', lambda *a, **k: None)
    patch(time, 'sleep', lambda *a: None)
    dask.bag.core.Bag.persist = _persist_as_futures
    # names imported directly by the modules under test
    for mod in zc_modules():
        for key, val in list(vars(mod).items()):
            if val is numpy:
                setattr(mod, key, PROXY)
            elif val is pyarrow:
                setattr(mod, key, arrow.PROXY)
            elif id(val) in replaced and replaced[id(val)][0] is val:
                setattr(mod, key, replaced[id(val)][1])
    # tokens of symbolic arrays are never reused
    counter = iter(range(10**12))
    for cls in (SymArray, SymVal, SymMasked):
        dask.base.normalize_token.register(
            cls, lambda x: ('symx', next(counter)))


# -- coverage of the code under test ---------------------------------------------
SEEN = set()


def start_coverage():
    import zcollection
    root = os.path.dirname(zcollection.__file__)
    mon = sys.monitoring
    try:
        mon.use_tool_id(mon.COVERAGE_ID, 'symx')
    except ValueError:
        return

    def on_start(code, offset):
        fn = code.co_filename
        if fn.startswith(root) and '/tests/' not in fn:
            SEEN.add(f'{fn[len(root) - 11:]}:{code.co_qualname}')
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.PY_START, on_start)
    mon.set_events(mon.COVERAGE_ID, mon.events.PY_START)
