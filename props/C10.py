"""C10: dropping partitions removes the selected ones and nothing else."""
import datetime
import os
import time

from .common import *  # noqa: F401,F403
from .common import Harness, product
from . import coll
from .storage import AgedMemory


def drop(h):
    schema = coll.Schema(h.config['kind'])
    model = coll.fixed(h, schema, h.config['sizes'])
    col = coll.build(h, schema, model, h.config.get('fs', 'memory'))
    base = col.partition_properties.dir
    before = coll.snapshot(col.fs, base)
    chosen = sorted(coll.predicate(h, 'sel', sorted(model)))
    filters = coll.as_filter(schema, chosen)
    if h.config.get('all') and len(chosen) == len(model):
        filters = None
    got = [str(p) for p in col.drop_partitions(filters=filters)]
    h.check(got == [f'{base}/{schema.relpath(k)}' for k in chosen],
            'drop returns the dropped partitions')
    left = {k: v for k, v in model.items() if k not in chosen}
    coll.check_collection(h, schema, col, left, 'after the drop')
    after = coll.snapshot(col.fs, base)
    gone = tuple('/' + schema.relpath(k) + '/' for k in chosen)
    h.check(after == {k: v for k, v in before.items()
                      if not k.startswith(gone)},
            'the other files are untouched')
    # dropped partitions can be inserted again
    if chosen:
        key = chosen[0]
        rows = [schema.row(h, 'again', 90, key)]
        coll.insert(h, schema, col, rows)
        left[key] = rows
        coll.check_collection(h, schema, col, left, 'after a new insertion')
    h.done()


def aged(h):
    """timedelta: only the partitions older than the given age."""
    zone = h.choice('zone', h.config['zones'])
    old = os.environ.get('TZ')
    os.environ['TZ'] = zone
    time.tzset()
    try:
        _aged(h)
    finally:
        if old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = old
        time.tzset()


def _aged(h):
    schema = coll.Schema('seq', wdims=0)
    model = coll.fixed(h, schema, h.config['sizes'], payload=False)
    fs = AgedMemory()
    AgedMemory.ages.clear()
    col = coll.build(h, schema, model, (fs, '/zc'))
    chosen = coll.predicate(h, 'sel', sorted(model))
    limit = datetime.timedelta(minutes=60)
    doomed = []
    for k in sorted(model):
        age = h.choice(f'age{k[0]}', [30, 90])
        AgedMemory.ages[schema.relpath(k)] = datetime.timedelta(minutes=age)
        if age > 60 and k in chosen:
            doomed.append(k)
    got = [str(p) for p in col.drop_partitions(
        filters=coll.as_filter(schema, chosen), timedelta=limit)]
    h.check(got == [f'/zc/{schema.relpath(k)}' for k in doomed],
            f'dropped {got}, expected {doomed}')
    left = {k: v for k, v in model.items() if k not in doomed}
    coll.check_collection(h, schema, col, left, 'after the drop')
    h.done()


HARNESSES = [
    Harness('drop', drop,
            quick=product(kind=['seq', 'date/M', 'date/D'], sizes=[(1, 2, 1)],
                          all=[True]) +
            product(kind=['seq2'], sizes=[(1, 1, 1, 1)], fs=['memory',
                                                             'file']),
            thorough=product(kind=['seq2', 'date/D'],
                             sizes=[(1, 2, 1, 1, 1)], fs=['memory', 'file']),
            client=True, bounds='every subset of 3-4 partitions (5 thorough)'),
    Harness('aged', aged,
            quick=product(sizes=[(1, 1)], zones=[('UTC', 'XXX-09', 'XXX+08')]),
            thorough=product(sizes=[(1, 1, 1)],
                             zones=[('UTC', 'XXX-01', 'XXX-09', 'XXX+08')]),
            client=True, bounds='ages on both sides of the limit for every '
            'partition, any selection, 3 time zones'),
]
OUTSIDE = 'more partitions'
