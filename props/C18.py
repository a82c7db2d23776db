"""C18: a copy is faithful and leaves its source alone."""
from .common import *  # noqa: F401,F403
from .common import Harness, meta, numpy, product
from . import coll


def copy(h):
    schema = coll.Schema(h.config['kind'],
                         immutable=h.config.get('immutable', False))
    model = coll.fixed(h, schema, h.config['sizes'])
    col = coll.build(h, schema, model, h.config['fs'])
    base = col.partition_properties.dir
    before = coll.snapshot(col.fs, base)
    chosen = sorted(coll.predicate(h, 'sel', sorted(model)))
    filters = coll.as_filter(schema, chosen)
    if h.config.get('all') and len(chosen) == len(model):
        filters = None
    kwargs = {}
    if h.config['target'] == 'same':
        target_fs, target = col.fs, base + '-copy'
    elif h.config['target'] == 'default':
        target_fs, target = None, base + '-copy'
    else:
        target_fs, target = h.filesystem(h.config['target'])
        target = target + '-copy'
    if target_fs is not None:
        kwargs['filesystem'] = target_fs
    out = col.copy(target, filters=filters, mode=h.choice('mode', ['r', 'w']),
                   npartitions=h.choice('npart', [None, 1, 2]), **kwargs)
    h.check(coll.snapshot(col.fs, base) == before, 'the source is unchanged')
    left = {k: model[k] for k in chosen}
    for delayed in (False, True):
        coll.check_collection(h, schema, out, left, 'copy', delayed=delayed)
    h.check(out.metadata == col.metadata and out.axis == col.axis
            and out.partitioning.get_config() == col.partitioning.get_config(),
            'same description')
    coll.check_collection(h, schema, col, model, 'source')
    # the copy and its source are independent
    if out.mode == 'w':
        key = sorted(model)[0]
        row = schema.row(h, 'z', 77, key)
        coll.insert(h, schema, out, [row])
        left[key] = [row]
        coll.check_collection(h, schema, out, left, 'insertion in the copy')
        op = h.choice('op', ['add', 'drop', 'update'])
        if op == 'add':
            out.add_variable(meta.Variable('n', numpy.dtype('int64'),
                                           dimensions=('x', ), fill_value=0))
            coll.check_collection(h, schema, out, left, 'add_variable')
        elif op == 'drop':
            out.drop_variable('v')
            names = [schema.axis, 'id', 'w'] + list(schema.keys)
            coll.check_collection(h, schema, out, left, 'drop_variable',
                                  variables=names)
        else:
            coll.start(h, schema)
            out.update(coll.new_v)
            for key, rows in left.items():
                ids = [r.id for r in rows]
                left[key] = [r.copy() for r in rows]
                for r in left[key]:
                    r.v = coll.fresh(ids, r.id)
            coll.check_collection(h, schema, out, left, 'update of the copy')
        coll.check_collection(h, schema, col, model, 'source')
        h.check(coll.snapshot(col.fs, base) == before,
                'the source is unchanged')
    h.done()


HARNESSES = [
    Harness('copy', copy,
            quick=product(kind=['seq', 'date/D'], sizes=[(1, 2)],
                          fs=['memory'], target=['same', 'default', 'file'],
                          immutable=[False], all=[True]) +
            product(kind=['seq2'], sizes=[(1, 1)], fs=['file'],
                    target=['same', 'memory', 'default'], immutable=[True]),
            thorough=product(kind=['seq', 'date/D'], sizes=[(1, 2, 1)],
                             fs=['file'], target=['memory', 'same'],
                             immutable=[True]),
            client=True, samples=1,
            bounds='every subset of 2 partitions (3 thorough), any content, '
            'same or different file system'),
]
OUTSIDE = 'remote file systems; more partitions'
