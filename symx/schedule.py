"""Choice of the order in which the tasks submitted together are executed, of
the order in which they are seen to complete, and of the number of workers.

In a replay, the tasks are submitted to the real dask client one after the
other, in the order chosen.
"""
from __future__ import annotations

import contextlib
import itertools
import sys
import threading

import dask.distributed


class Schedule:
    def __init__(self, h, workers=(1, 2, 3), orders=2, limit=3):
        self.h = h
        self.workers = h.choice('workers', list(workers))
        self.left, self.limit, self.n = orders, limit, 0
        #: task under way: (number of the submission, task)
        self.task = None
        self.count = 0

    def permute(self, items):
        items = list(items)
        if len(items) < 2 or self.left == 0:
            return items
        self.left -= 1
        self.n += 1
        if len(items) <= self.limit:
            perms = list(itertools.permutations(range(len(items))))
        else:
            perms = [tuple(range(len(items))),
                     tuple(reversed(range(len(items))))]
        perm = self.h.choice(f'order{self.n}', perms)
        return [items[i] for i in perm]

    @contextlib.contextmanager
    def active(self):
        with (self._symbolic if self.h.symbolic else self._concrete)():
            yield self

    @contextlib.contextmanager
    def _symbolic(self):
        from . import world
        client = world.FakeClient

        def order(seq):
            return self.permute(seq) if world.FakeFuture.depth == 0 else seq
        client.order, client.workers = order, self.workers
        world.FakeFuture.on_run = lambda f: setattr(
            self, 'task', (f.submission, f.key))
        try:
            yield
        finally:
            client.order, client.workers = None, 2
            world.FakeFuture.on_run = None

    @contextlib.contextmanager
    def _concrete(self):
        from zcollection import dask_utils
        cls = dask.distributed.Client
        real = {'map': cls.map, 'compute': cls.compute,
                'as_completed': dask.distributed.as_completed,
                'workers': dask_utils.dask_workers}

        def main():
            return threading.current_thread() is threading.main_thread()

        def one_by_one(tasks):
            out = {}
            self.count += 1
            for i in self.permute(range(len(tasks))):
                self.task = self.count, i
                out[i] = tasks[i]()
                dask.distributed.wait(out[i])
            self.task = None
            return [out[i] for i in range(len(tasks))]

        def map_(client, func, *iterables, **kw):
            args = list(zip(*[list(i) for i in iterables]))
            if not main() or len(args) < 2:
                return real['map'](client, func, *zip(*args), **kw) if (
                    args) else []
            return one_by_one([
                lambda a=a: real['map'](client, func, *[[x] for x in a],
                                        **kw)[0] for a in args])

        def compute(client, collections, *a, **kw):
            if not main() or not isinstance(
                    collections, (list, tuple)) or len(
                        collections) < 2 or isinstance(
                            collections[0], dask.distributed.Future):
                return real['compute'](client, collections, *a, **kw)
            return one_by_one([
                lambda c=c: real['compute'](client, c, *a, **kw)
                for c in collections])

        def as_completed(futures=None, *a, **kw):
            if not main() or not futures:
                return real['as_completed'](futures, *a, **kw)
            futures = list(futures)
            dask.distributed.wait(futures)
            seq = self.permute(futures)
            return iter([(f, f.result()) for f in seq]
                        if kw.get('with_results') else seq)
        new = {'map': map_, 'compute': compute}
        cls.map, cls.compute = map_, compute
        names = [(m, k, v) for m in list(sys.modules.values())
                 if getattr(m, '__name__', '').startswith('zcollection')
                 or m is dask.distributed for k, v in list(vars(m).items())
                 if v is real['as_completed'] or v is real['workers']]
        for m, k, v in names:
            setattr(m, k, as_completed if v is real['as_completed']
                    else lambda *a, **k: self.workers)
        try:
            yield
        finally:
            for k in new:
                setattr(cls, k, real[k])
            for m, k, v in names:
                setattr(m, k, v)
