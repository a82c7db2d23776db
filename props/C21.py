"""C21: the results do not depend on how the work is distributed."""
import os

import zcollection

from .common import *  # noqa: F401,F403
from .common import Harness, cells, product
from . import C06, C13, C15, coll
from symx import faults
from symx.schedule import Schedule


def see(zds, *args, partition_info=None):
    return coll.seen(zds)


def _view(h, schema, col, model):
    view = zcollection.create_view(
        col.partition_properties.dir + '-view',
        zcollection.view.ViewReference(col.partition_properties.dir, col.fs),
        filesystem=col.fs)
    view.add_variable(C13._var())
    view.update(C13.new_n)
    own = {k: {'n': [coll.fresh([s.id for s in model[k]], r.id)
                     for r in model[k]]} for k in model}
    C13._nofill(h)
    return view, own


def read(h):
    """Loading, mapping, validating."""
    op = h.config['op']
    schema = coll.Schema(h.config['kind'], wdims=0)
    model = coll.fixed(h, schema, (1, 2, 1))
    keys = sorted(model)
    col = coll.build(h, schema, model)
    coll.start(h, schema)
    view = own = None
    if op.startswith('view'):
        view, own = _view(h, schema, col, model)
        coll.start(h, schema)
    elif op == 'validate':
        bad = sorted(coll.predicate(h, 'bad', keys))
        for k in bad:
            col.fs.rm(f'{col.partition_properties.dir}/{schema.relpath(k)}'
                      '/.zmetadata')
    delayed = h.config.get('delayed', False)
    rows = [r for k in keys for r in model[k]]
    s = Schedule(h)
    np_ = h.choice('np', [None, 1, 2]) if 'map' in op or (
        'overlap' in op) else None
    with s.active():
        if op == 'load':
            zds = col.load(delayed=delayed)
            coll.check_rows(h, schema, zds, rows, 'loaded')
        elif op == 'view-load':
            C13._check_view(h, schema, view, model, own, 'loaded',
                            delayed=delayed)
        elif op in ('indexer', 'view-indexer'):
            index = [(schema.scheme(k), slice(0, len(model[k])))
                     for k in keys]
            zds = (view or col).load(delayed=delayed, indexer=index)
            coll.check_rows(h, schema, zds, rows, 'loaded')
            if view:
                h.check(h.all([h.same(a, b) for a, b in zip(
                    cells(zds.variables['n'].values),
                    [c for k in keys for c in own[k]['n']])]), 'content of n')
        elif op in ('map', 'view-map', 'overlap', 'view-overlap'):
            depth = int('overlap' in op)
            kw = {'depth': 1} if depth else {}
            target = view or col
            func = target.map_overlap if depth else target.map
            kw['npartition' if depth and not view else 'npartitions'] = np_
            got = func(see, delayed=delayed, **kw).compute()
            want = [(schema.scheme(k), [
                r.id for q in coll.window(keys, k, depth) for r in model[q]])
                for k in keys]
            h.check([(tuple(k), v) for k, v in got] == want, 'mapped')
        elif op == 'validate':
            h.check(C06.validate(h, col) == [schema.relpath(k) for k in bad],
                    'invalid partitions')
        elif op == 'view-synced':
            changed = h.bool('changed')
            if changed:
                coll.insert(h, schema, col, [
                    schema.row(h, 'x', 50, h.choice('key', keys))])
            h.check(view.is_synced() == (not changed), 'is_synced')
    h.done()


def write(h):
    """Modifications: the result is that of tasks executed in sequence."""
    op = h.config['op']
    schema = coll.Schema(h.config['kind'], wdims=0,
                         delayed=h.config.get('delayed', True))
    model = coll.fixed(h, schema, (1, 2, 1))
    keys = sorted(model)
    col = coll.build(h, schema, model)
    coll.start(h, schema)
    view = own = None
    if op.startswith('view'):
        view, own = _view(h, schema, col, model)
        coll.start(h, schema)
        coll.STATE['round'] = 1
    chosen = keys
    s = Schedule(h)
    np_ = h.choice('np', [None, 1, 2, 4]) if op in (
        'insert', 'merge', 'update', 'overlap', 'copy', 'view-update',
        'view-overlap') else None
    new = [schema.row(h, f'n{i}', 20 + i, k) for i, k in enumerate(keys)]
    depth = int('overlap' in op)
    target = col
    with s.active():
        if op in ('insert', 'merge'):
            got = list(col.insert(
                schema.to_dataset(h, new), npartitions=np_,
                merge_callable=C06.merge_by_id if op == 'merge' else None))
            h.check([str(p)[-len(schema.relpath(k)):] for p, k in zip(
                got, keys)] == [schema.relpath(k) for k in keys] and len(
                    got) == len(keys), 'partitions returned')
            model = {k: (model[k] if op == 'merge' else []) + [r]
                     for k, r in zip(keys, new)}
        elif op in ('update', 'overlap'):
            col.update(coll.new_v, npartitions=np_, depth=depth,
                       variables=('v', ), selected_variables=['id'])
            model = {k: [r.copy() for r in model[k]] for k in keys}
            for k in keys:
                ctx = [r.id for q in coll.window(keys, k, depth)
                       for r in model[q]]
                for r in model[k]:
                    r.v = coll.fresh(ctx, r.id)
        elif op == 'drop':
            chosen = sorted(coll.predicate(h, 'sel', keys))
            got = list(col.drop_partitions(
                filters=coll.as_filter(schema, chosen)))
            h.check(len(got) == len(chosen), 'partitions returned')
            model = {k: v for k, v in model.items() if k not in chosen}
        elif op == 'copy':
            target = col.copy(col.partition_properties.dir + '-copy',
                              npartitions=np_)
        elif op == 'fix':
            chosen = sorted(coll.predicate(h, 'sel', keys))
            for k in chosen:
                col.fs.rm(f'{col.partition_properties.dir}/'
                          f'{schema.relpath(k)}/.zmetadata')
            C06.validate(h, col, fix=True)
            model = {k: v for k, v in model.items() if k not in chosen}
        elif op == 'view-create':
            view.drop_variable('n')
            view.add_variable(C13._var())
            own = C13._blank(model, keys, ('n', ))
        elif op in ('view-update', 'view-overlap'):
            view.update(C13.new_n, npartitions=np_, depth=depth)
            for k in keys:
                ctx = [r.id for q in coll.window(keys, k, depth)
                       for r in model[q]]
                own[k] = {'n': [coll.fresh(ctx, r.id) for r in model[k]]}
            C13._nofill(h)
        elif op == 'view-sync':
            changed = sorted(coll.predicate(h, 'chg', keys))
            if changed:
                rows = [schema.row(h, f'c{k}', 50 + i, k)
                        for i, k in enumerate(changed)]
                coll.insert(h, schema, col, rows)
                for k, r in zip(changed, rows):
                    model[k] = [r]
                    own[k] = C13._blank(model, [k], ('n', ))[k]
            done = view.sync()
            h.check({k for k in keys if done(dict(schema.scheme(k)))} ==
                    set(changed), 'synchronized partitions')
    if view is not None:
        C13._check_view(h, schema, view, model, own, 'in the end')
    coll.check_collection(h, schema, target, model, 'in the end')
    h.done()


class Track(faults.Faults):
    """Files modified by each of the tasks that may run at the same time."""

    def step(self, kind, path):
        task = self.schedule.task
        if task is not None and kind != 'mkdir':
            self.seen.setdefault(task[0], {}).setdefault(
                path, set()).add(task[1])
        return False


def disjoint(h):
    """Tasks of the same submission never modify the same file, so that they
    can be interleaved in any way."""
    op = h.config['op']
    schema = coll.Schema(h.config['kind'], wdims=0)
    faults.scratch(h)
    model = coll.fixed(h, schema, (1, 1, 2), payload=False)
    keys = sorted(model)
    col = coll.build(h, schema, model, 'file')
    coll.start(h, schema)
    base = os.path.dirname(col.partition_properties.dir)
    view = None
    if op.startswith('view'):
        view, _ = _view(h, schema, col, model)
    s = Schedule(h, workers=(2, ), orders=1)
    np_ = h.choice('np', [1, 3]) if op != 'drop' else None
    track = Track(h, 'fault', base)
    track.schedule, track.seen = s, {}
    new = [schema.row(h, f'n{i}', 20 + i, k, payload=False)
           for i, k in enumerate(keys)]
    with s.active(), track.armed():
        if op in ('insert', 'merge'):
            list(col.insert(
                schema.to_dataset(h, new), npartitions=np_,
                merge_callable=C06.merge_by_id if op == 'merge' else None))
        elif op in ('update', 'overlap'):
            col.update(coll.new_v, npartitions=np_,
                       depth=int(op == 'overlap'), variables=('v', ))
        elif op == 'drop':
            col.drop_partitions()
        elif op == 'add':
            col.add_variable(C13._var())
        elif op == 'remove':
            col.drop_variable('v')
        elif op == 'copy':
            col.copy(base + '/copy', npartitions=np_)
        elif op == 'view-update':
            view.update(C13.new_n, npartitions=np_)
        elif op == 'view-add':
            view.add_variable(C13._var('p'))
        elif op == 'view-remove':
            view.drop_variable('n')
        elif op == 'view-sync':
            coll.insert(h, schema, col, new)
            view.sync()
    shared = sorted({path for paths in track.seen.values()
                     for path, tasks in paths.items() if len(tasks) > 1})
    h.check(not shared, f'files modified by several tasks: {shared[:3]}')
    h.done()


READ = ['load', 'indexer', 'map', 'overlap', 'validate', 'view-load',
        'view-indexer', 'view-map', 'view-overlap', 'view-synced']
WRITE = ['insert', 'merge', 'update', 'overlap', 'drop', 'copy', 'fix',
         'view-create', 'view-update', 'view-overlap', 'view-sync']
HARNESSES = [
    Harness('read', read,
            quick=product(kind=['seq'], op=READ) +
            product(kind=['date/D'], op=['load', 'view-load', 'indexer'],
                    delayed=[True]),
            client=True, samples=2,
            bounds='3 partitions of 1-2 rows, any content; every order of '
            'execution or completion of the tasks of the first two '
            'submissions of several tasks, 1-3 workers, 1-2 batches'),
    Harness('write', write,
            quick=product(kind=['seq'], op=WRITE) +
            product(kind=['date/D'], op=['insert', 'update'],
                    delayed=[False]),
            client=True, samples=2,
            bounds='the same, up to 4 batches'),
    Harness('disjoint', disjoint,
            quick=product(kind=['seq', 'date/D'],
                          op=['insert', 'merge', 'update', 'overlap', 'drop',
                              'add', 'remove', 'copy', 'view-update',
                              'view-add', 'view-remove', 'view-sync']),
            client=True, samples=1,
            bounds='3 partitions, 1 or 3 batches, every order'),
]
OUTSIDE = ('orders of the tasks submitted by other tasks; update functions '
           'reading, through an overlap, a variable that the same call '
           'updates; the order of the list returned by validate_partitions; '
           'more partitions')
