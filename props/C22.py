"""C22: variables without the partitioned dimension are kept once, as is."""
import zcollection

from .common import *  # noqa: F401,F403
from .common import Harness, cells, product
from . import coll


def _values(h, tag):
    return [h.int(f'{tag}{i}', -2**62, 2**62, dtype='int64')
            for i in range(2)]


def _has_c(h, zds, c, what):
    h.check('c' in zds.variables, f'{what}: the variable is there')
    got = cells(coll.raw(zds.variables['c']))
    h.check(len(got) == 2, f'{what}: its shape')
    h.check(h.all([h.same(a, b) for a, b in zip(got, c)]),
            f'{what}: its content')


def _spy(zds, *args, partition_info=None):
    ids = coll.seen(zds)
    STATE = coll.STATE
    STATE['c'].append(cells(coll.raw(zds.variables['c'])))
    STATE['calls'].append((ids, partition_info, args, {}))
    return ids


def _update(zds):
    ids = coll.seen(zds)
    coll.STATE['c'].append(cells(coll.raw(zds.variables['c'])))
    return {'v': coll.STATE['h'].array([coll.fresh(ids, i) for i in ids],
                                       dtype='int64')}


def reads(h):
    """Every way of reading gives the stored values."""
    schema = coll.Schema(h.config['kind'], immutable=True)
    model = coll.fixed(h, schema, h.config['sizes'])
    c = _values(h, 'c')
    col = coll.build(h, schema, model, h.config['fs'], c=c)
    if h.bool('reopen'):
        col = zcollection.open_collection(col.partition_properties.dir,
                                          mode='w', filesystem=col.fs)
    coll.start(h, schema)
    coll.STATE['c'] = []
    keys = sorted(model)
    chosen = coll.predicate(h, 'sel', keys)
    order = sorted(chosen)
    filters = coll.as_filter(schema, chosen)
    op = h.config['op']
    delayed = h.config['delayed']
    if op == 'load':
        names = h.choice('names', [None, ('v', 'c', 'id'), ('v', 'id'),
                                   ('c', )])
        zds = col.load(delayed=delayed, filters=filters,
                       selected_variables=names)
        h.check((zds is None) == (not chosen), 'nothing selected')
        if chosen:
            if names is None or 'c' in names:
                _has_c(h, zds, c, 'load')
            else:
                h.check('c' not in zds.variables, 'c is not selected')
            if names != ('c', ):
                coll.check_rows(h, schema, zds,
                                [r for k in order for r in model[k]], 'load',
                                variables=names and ('v', 'id'))
            if names:
                h.check(set(zds.variables) == set(names), 'only what is asked')
    elif op == 'indexer':
        items, rows = [], []
        for k in order:
            sl = slice(*h.choice('s' + '_'.join(map(str, k)),
                                 [(0, 1), (1, 2), (0, 2)]))
            items.append((schema.scheme(k), sl))
            rows += model[k][sl]
        names = h.choice('names', [None, ('id', 'c')])
        zds = col.load(delayed=delayed, indexer=items,
                       selected_variables=names)
        h.check((zds is None) == (not chosen), 'nothing designated')
        if chosen:
            _has_c(h, zds, c, 'load with an indexer')
            coll.check_rows(h, schema, zds, rows, 'load with an indexer',
                            variables=names and ('id', ))
    elif op == 'map':
        got = col.map(_spy, 3, filters=filters, delayed=delayed,
                      npartitions=h.choice('np', [1, 2])).compute()
        h.check([(schema.scheme(k), [r.id for r in model[k]])
                 for k in order] == [(tuple(a), b) for a, b in got],
                'map: partitions and rows')
    elif op == 'map_overlap':
        depth = h.config['depth']
        got = col.map_overlap(_spy, 3, depth=depth, filters=filters,
                              delayed=delayed).compute()
        h.check([(schema.scheme(k), [r.id for n in coll.window(
            order, k, depth) for r in model[n]]) for k in order] ==
            [(tuple(a), b) for a, b in got], 'map_overlap: rows')
    else:
        depth = h.config['depth']
        col.update(_update, filters=filters, depth=depth, delayed=delayed,
                   npartitions=h.choice('np', [None, 2]))
        for key in order:
            ctx = [r.id for k in coll.window(order, key, depth)
                   for r in model[k]]
            rows = [r.copy() for r in model[key]]
            for r in rows:
                r.v = coll.fresh(ctx, r.id)
            model[key] = rows
    for seen in coll.STATE['c']:
        h.check(len(seen) == 2 and h.all([
            h.same(a, b) for a, b in zip(seen, c)]),
            f'{op}: content seen by the function')
    if op not in ('load', 'indexer'):
        h.check(len(coll.STATE['c']) >= len(order), f'{op}: calls')
    coll.check_collection(h, schema, col, model, 'afterwards', c=c)
    h.done()


def history(h):
    """The values are those of the first accepted insertion."""
    schema = coll.Schema(h.config['kind'], immutable=True)
    col = schema.create(h, h.config['fs'])
    model, c = {}, None
    for step in range(h.config['steps']):
        op = h.choice(f'op{step}', ['insert', 'refused', 'without', 'drop',
                                    'dropvar', 'reopen'])
        new = _values(h, f'c{step}_')
        keys = [(1, ), (2, )] if schema.kind == 'seq' else [
            (2020, 1, 30), (2020, 2, 1)]
        rows = [schema.row(h, f's{step}r{i}', 10 * step + i, k)
                for i, k in enumerate(keys)]
        if op == 'insert':
            coll.insert(h, schema, col, rows, c=new)
            model = coll.group(rows, model)
            c = c or new
        elif op == 'refused':
            rows.reverse()
            h.check(h.raises(ValueError, coll.insert, h, schema, col, rows,
                             c=new), 'unsorted data is refused')
        elif op == 'without' and c is not None:
            coll.insert(h, schema, col, rows[:1], skip=('c', ))
            model = coll.group(rows[:1], model)
        elif op == 'drop':
            list(col.drop_partitions())
            model = {}
        elif op == 'dropvar' and c is not None:
            h.check(h.raises(ValueError, col.drop_variable, 'c'),
                    'it cannot be dropped')
        elif op == 'reopen':
            col = zcollection.open_collection(col.partition_properties.dir,
                                              mode='w', filesystem=col.fs)
        h.check(col.immutable, 'the collection has such variables')
        coll.check_collection(h, schema, col, model, f'step {step}', c=c)
        h.check(list(col.validate_partitions()) == [],
                'no partition is invalid')
    h.done()


HARNESSES = [
    Harness('reads', reads,
            quick=product(kind=['seq', 'date/D'], sizes=[(1, 2)],
                          op=['load', 'map', 'indexer'], fs=['memory'],
                          delayed=[True, False], depth=[0]) +
            product(kind=['seq'], sizes=[(1, 2, 1)],
                    op=['map_overlap', 'update'], fs=['memory'],
                    delayed=[True, False], depth=[0, 1, 2]),
            thorough=product(kind=['seq2', 'date/M'], sizes=[(1, 2, 1, 1)],
                             op=['load', 'map', 'indexer', 'map_overlap',
                                 'update'],
                             fs=['file'], delayed=[True, False],
                             depth=[1, 2]),
            client=True, samples=1,
            bounds='2-3 partitions of 1-2 rows (4 thorough), any subset '
            'selected, any content, depth 0-2'),
    Harness('history', history,
            quick=product(kind=['seq'], fs=['memory'], steps=[3]) +
            product(kind=['date/D'], fs=['file'], steps=[2]),
            thorough=product(kind=['seq', 'date/D'], fs=['file'], steps=[4]),
            client=True, samples=3,
            bounds='every sequence of 3 operations (4 thorough) among insert, '
            'refused insert, insert without the variable, drop partitions, '
            'drop the variable, reopen; any content'),
]
OUTSIDE = ('variables without the partitioned dimension added after the '
           'creation; more partitions')
