"""C12: nothing done through a read-only collection modifies the storage."""
import io
import json

from .common import *  # noqa: F401,F403
from .common import Harness, meta, numpy, product
from . import coll
import zcollection

_DENIED = ['insert', 'update', 'update depth', 'drop all', 'drop some',
           'drop old', 'drop_variable', 'add_variable', 'validate fix']
_READ = ['load', 'load delayed', 'map', 'map_overlap', 'partitions',
         'records', 'variables', 'validate', 'copy']


def _op(h, schema, col, rows, op, n):
    import datetime
    if op == 'insert':
        col.insert(schema.to_dataset(h, rows))
    elif op == 'update':
        col.update(coll.new_v)
    elif op == 'update depth':
        col.update(coll.new_v, depth=1, variables=('v', ))
    elif op == 'drop all':
        col.drop_partitions()
    elif op == 'drop some':
        col.drop_partitions(filters=lambda x: True)
    elif op == 'drop old':
        col.drop_partitions(timedelta=datetime.timedelta(days=-1))
    elif op == 'drop_variable':
        col.drop_variable('v')
    elif op == 'add_variable':
        col.add_variable(meta.Variable('n', numpy.dtype('int64'),
                                       dimensions=('x', )))
    elif op == 'validate fix':
        col.validate_partitions(fix=True)
    elif op == 'load':
        zds = col.load(delayed=False)
        if zds is not None:
            zds.variables['v'].array[0] = 5
    elif op == 'load delayed':
        zds = col.load()
        if zds is not None:
            zds.compute()
    elif op == 'map':
        col.map(lambda zds: len(zds.variables)).compute()
    elif op == 'map_overlap':
        col.map_overlap(lambda zds: len(zds.variables)).compute()
    elif op == 'partitions':
        list(col.partitions(lock=True))
    elif op == 'records':
        for _, g in col.iterate_on_records():
            h.raises((Exception, ), lambda: g['v'].__setitem__(
                slice(None), 3))
    elif op == 'variables':
        col.variables()
    elif op == 'validate':
        col.validate_partitions()
    elif op == 'copy':
        col.copy(f'/copy{n}', filesystem=col.fs)


def readonly(h):
    schema = coll.Schema(h.config['kind'], wdims=0)
    model = coll.fixed(h, schema, (1, 2), payload=False)
    col = coll.build(h, schema, model)
    base = col.partition_properties.dir
    broken = h.config.get('broken')
    if broken:
        # a partition that validate_partitions reports as invalid
        path = f'{base}/{schema.relpath(sorted(model)[0])}/v/.zarray'
        col.fs.pipe_file(path, b'{}')
    # the configuration may have been written by another version
    config = f'{base}/.zcollection'
    col.fs.pipe_file(config, json.dumps(json.loads(
        col.fs.cat_file(config))).encode())
    before = coll.snapshot(col.fs, base)
    coll.start(h, schema)
    ro = zcollection.open_collection(base, mode=h.choice('mode', ['r', None]),
                                     filesystem=col.fs)
    h.check(ro.is_readonly(), 'collections are opened read-only by default')
    rows = [schema.row(h, 'z', 77, sorted(model)[0])]
    for n in range(h.config['steps']):
        op = h.choice(f'op{n}', _DENIED + ([] if broken else _READ)
                      if not broken else ['validate fix', 'validate',
                                          'drop all', 'insert'])
        try:
            _op(h, schema, ro, rows, op, n)
            refused = False
        except io.UnsupportedOperation:
            refused = True
        h.check(refused == (op in _DENIED), f'{op}: ' + (
            'refused' if op not in _DENIED else 'not refused'))
        h.check(coll.snapshot(col.fs, base) == before,
                f'{op}: the storage is unchanged')
    if not broken:
        coll.check_collection(h, schema, ro, model, 'afterwards')
    h.done()


HARNESSES = [
    Harness('readonly', readonly,
            quick=product(kind=['seq'], steps=[1, 2]) +
            product(kind=['date/D', 'seq2'], steps=[1]) +
            product(kind=['seq'], steps=[1, 2], broken=[True]),
            thorough=product(kind=['date/D'], steps=[2], broken=[False]),
            client=True, samples=3,
            bounds='every sequence of 1-2 of the 18 public operations'),
]
OUTSIDE = 'longer sequences of operations'
