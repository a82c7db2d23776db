"""C17: the partitions are only modified while the lock is held."""
import threading
import time

import numpy
import zcollection
from zcollection import meta, sync

from .common import *  # noqa: F401,F403
from .common import Harness, product
from . import C06, C13, coll
from symx import faults

_SLEEP = time.sleep


def _free(path):
    """The configuration files, and the files that replace them."""
    return path == '.' or '/' not in path and ('.zcollection' in path
                                               or '.view' in path)


class _State:
    """State of the lock (same process as the workers)."""

    def reset(self, slow):
        self.slow = slow
        self.held, self.entries, self.nested = False, 0, False
        self.bad = []


L = _State()
L.reset(False)


class Lock(sync.Sync):
    """Lock that is not reentrant, as those shared by several processes."""

    def __enter__(self):
        if L.slow:  # another process holds it for a while
            _SLEEP(0.15)
        L.nested = L.nested or L.held
        L.entries += 1
        L.held = True
        return True

    def __exit__(self, *exc):
        L.held = False

    def is_locked(self):
        return L.held

    def __reduce__(self):
        return Lock, ()


class Watch(faults.Faults):
    """Records the modifications made without the lock."""

    def step(self, kind, path):
        if not _free(path):
            if not self.h.symbolic and self.fired is not None and (
                    threading.current_thread() is not
                    threading.main_thread()):
                # a slow worker: it goes on once the failure is reported
                end = time.time() + 0.5
                while L.held and time.time() < end:
                    _SLEEP(0.01)
            if not L.held:
                L.bad.append((kind, path))
        return super().step(kind, path)


def _with_id(schema, keys):
    return coll.as_filter(schema, keys)


def modify(h):
    kind, op = h.config['kind'], h.config['op']
    view_op = op.startswith('view')
    schema = coll.Schema(kind, wdims=0, delayed=h.config.get('delayed', True),
                         immutable=op == 'first')
    faults.scratch(h)
    L.reset(False)
    model = coll.fixed(h, schema, (1, 2, 1), payload=False)
    keys = sorted(model)
    lock = Lock()
    col = schema.create(h, 'file', synchronizer=None if view_op else lock)
    if op != 'first':
        coll.insert(h, schema, col, [r for k in keys for r in model[k]])
    coll.start(h, schema)
    base = col.partition_properties.dir
    view = None
    if view_op:
        base += '-view'
    if view_op and op != 'view-create':
        view = zcollection.create_view(
            base, zcollection.view.ViewReference(
                col.partition_properties.dir, col.fs), filesystem=col.fs,
            synchronizer=lock)
        view.add_variable(C13._var())
        if op == 'view-sync':
            coll.insert(h, schema, col, [
                schema.row(h, 'new', 10, keys[1], payload=False),
                schema.row(h, 'new2', 11, keys[2], payload=False)])
    chosen = keys[:2]
    np_ = h.choice('np', [None, 1]) if op in (
        'insert', 'merge', 'update', 'overlap', 'view-update') and not (
        h.config['fault']) else None
    if op == 'fix':
        for k in chosen:
            col.fs.rm(f'{base}/{schema.relpath(k)}/.zmetadata')

    def act():
        rows = [schema.row(h, f'n{i}', 20 + i, k, payload=False)
                for i, k in enumerate(keys[1:])]
        if op in ('insert', 'merge', 'first'):
            list(col.insert(
                schema.to_dataset(h, rows), npartitions=np_,
                merge_callable=C06.merge_by_id if op == 'merge' else None))
        elif op in ('update', 'overlap'):
            col.update(coll.new_v, variables=('v', ), npartitions=np_,
                       depth=int(op == 'overlap'),
                       filters=coll.as_filter(schema, chosen))
        elif op == 'drop':
            col.drop_partitions(filters=coll.as_filter(schema, chosen))
        elif op == 'add':
            col.add_variable(meta.Variable(
                'n', numpy.dtype('int64'), dimensions=('x', ), fill_value=-7))
        elif op == 'remove':
            col.drop_variable('v')
        elif op == 'fix':
            C06.validate(h, col, fix=True)
        elif op == 'view-create':
            zcollection.create_view(
                base, zcollection.view.ViewReference(
                    col.partition_properties.dir, col.fs),
                filesystem=col.fs, synchronizer=lock)
        elif op == 'view-add':
            view.add_variable(C13._var('p'))
        elif op in ('view-update', 'view-overlap'):
            view.update(C13.new_n, npartitions=np_,
                        depth=int(op == 'view-overlap'))
        elif op == 'view-remove':
            view.drop_variable('n')
        elif op == 'view-sync':
            view.sync()
    watch = Watch(h, 'fault', base)
    fault = h.config['fault']
    if not fault:
        watch.fired = ()
    L.reset(not h.symbolic)
    client = None
    if h.symbolic:
        from symx import world
        client = world.FakeClient
        eager = fault or h.bool('eager')
        client.run_now = lambda f: eager
        client.late = lambda f: h.bool('late')
    with watch.armed():
        done = C06.attempt(act)
        still = L.held
        if client is not None:
            for f in client.submitted:
                f.run()
        else:
            _SLEEP(0.05)
    if not watch.fired:
        h.check(done, 'the operation succeeds')
    h.check(not L.nested, 'the lock is not acquired while it is held')
    h.check(not still and not L.held, 'the lock is released in the end')
    h.check(not L.bad, f'modifications without the lock: {L.bad[:3]}')
    h.check(L.entries or not done, 'the lock is acquired')
    h.done()


def listing(h):
    """partitions(lock=True) lists the partitions while the lock is held."""
    schema = coll.Schema(h.config['kind'], wdims=0)
    L.reset(False)
    model = coll.fixed(h, schema, (1, 1, 1), payload=False)
    col = schema.create(h, h.config['fs'], synchronizer=Lock())
    coll.insert(h, schema, col, [r for k in sorted(model) for r in model[k]])
    chosen = sorted(coll.predicate(h, 'sel', sorted(model)))
    locked = h.bool('lock')
    fs = col.fs
    bad = []
    real = fs.ls
    L.reset(False)

    def ls(*args, **kwargs):
        if locked and not L.held:
            bad.append(args)
        return real(*args, **kwargs)
    fs.ls = ls
    try:
        got = []
        # (the lock is not held while the caller uses the partitions)
        for item in col.partitions(filters=coll.as_filter(schema, chosen),
                                   lock=locked, relative=True):
            h.check(not L.held, 'the lock is released')
            got.append(item)
    finally:
        del fs.ls
    h.check(not bad, 'listed without the lock')
    h.check(not locked or L.entries, 'the lock is acquired')
    h.check(not L.held and not L.nested, 'the lock is released in the end')
    h.check(got == [schema.relpath(k) for k in chosen], 'partitions')
    h.done()


OPS = ['insert', 'merge', 'first', 'update', 'overlap', 'drop', 'add',
       'remove', 'fix', 'view-create', 'view-add', 'view-update',
       'view-overlap', 'view-remove', 'view-sync']
HARNESSES = [
    Harness('modify', modify,
            quick=product(kind=['seq'], op=OPS, fault=[False, True]) +
            product(kind=['date/D'], op=['insert', 'update', 'view-sync'],
                    fault=[False]),
            client=True, samples=3,
            bounds='3 partitions of 1-2 rows, tasks started as soon as they '
            'are submitted or only when awaited, no failure or a failure of '
            'any file operation, the tasks not yet started then running '
            'before or after the failure is reported'),
    Harness('listing', listing,
            quick=product(kind=['seq', 'date/D'], fs=['memory', 'file']),
            bounds='3 partitions, any filter'),
]
OUTSIDE = ('the configuration files (.zcollection, .view), written outside '
           'of the lock; the lock of the reference of a view; locks other '
           'than the non-reentrant one of the harness (ProcessSync.is_locked '
           'tells whether the lock file exists)')
