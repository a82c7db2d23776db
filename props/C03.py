"""C03: what is inserted is what is loaded; overwriting is per partition."""
from .common import *  # noqa: F401,F403
from .common import Harness, dataset, product
from . import coll
import numcodecs
import zcollection


def _schema(h, **kw):
    return coll.Schema(h.config.get('kind', 'seq'), delayed=h.config[
        'delayed'], chunks=h.config.get('chunks'), block=h.config.get('block'),
        wdims=h.config.get('wdims', 2), **kw)


def roundtrip(h):
    """One insertion into an empty collection."""
    schema = _schema(h)
    col = schema.create(h, h.config.get('fs', 'memory'))
    rows = schema.rows(h, 'a', h.config['rows'],
                       domain=h.config.get('domain', (1, 2, 3)))
    paths = coll.insert(h, schema, col, rows,
                        npartitions=h.config.get('npartitions'))
    model = coll.group(rows)
    base = col.partition_properties.dir
    h.check(paths == [f'{base}/{schema.relpath(k)}' for k in sorted(model)],
            'insert returns the written partitions')
    coll.check_collection(h, schema, col, model, 'after insertion',
                          delayed=h.config.get('load', False))
    again = zcollection.open_collection(base, mode='r', filesystem=col.fs)
    coll.check_collection(h, schema, again, model, 'after reopening',
                          delayed=h.config.get('load', False))
    h.done()


def overwrite(h):
    """Second insertion: replaces the partitions it touches, only those."""
    schema = _schema(h)
    col = schema.create(h, h.config.get('fs', 'memory'))
    first = schema.rows(h, 'a', h.config['first'])
    coll.insert(h, schema, col, first)
    second = schema.rows(h, 'b', h.config['second'], first_id=50)
    coll.insert(h, schema, col, second)
    model = coll.group(second, coll.group(first))
    coll.check_collection(h, schema, col, model, 'after the second insertion',
                          delayed=h.config.get('load', False))
    h.done()


def unsorted(h):
    """Rows in any order: exact storage or an error leaving all unchanged."""
    schema = _schema(h)
    col = schema.create(h, 'memory')
    first = schema.rows(h, 'a', 1, payload=False)
    coll.insert(h, schema, col, first)
    model = coll.group(first)
    rows = schema.rows(h, 'b', h.config['rows'], first_id=50, sort=False)
    try:
        coll.insert(h, schema, col, rows)
    except ValueError:
        pass
    else:
        model = coll.group(rows, model)
    coll.check_collection(h, schema, col, model, 'after the insertion')
    h.done()


def missing(h):
    """Variables absent from the dataset are stored as fill values."""
    schema = _schema(h, immutable=True)  # gives the size of the dimension y
    col = schema.create(h, 'memory')
    if h.bool('before'):
        first = schema.rows(h, 'a', 1)
        coll.insert(h, schema, col, first)
    else:
        first = []
    rows = schema.rows(h, 'b', h.config['rows'], first_id=50)
    absent = [n for n in ('v', 'w') if h.bool(f'absent_{n}')]
    zds = schema.to_dataset(h, rows, skip=absent)
    col.insert(zds)
    for r in rows:
        if 'v' in absent:
            r.v = schema.FILL
        if 'w' in absent:
            r.w = [schema.FILL] * schema.wdims
    model = coll.group(rows, coll.group(first))
    coll.check_collection(h, schema, col, model, f'insertion without {absent}',
                          delayed=h.config.get('load', False))
    h.done()


DIFFERENCES = ['none', 'absent', 'type', 'fill', 'no fill', 'attribute',
               'attribute value', 'compressor', 'filter', 'dimensions',
               'title', 'chunks', 'unknown']


def validated(h):
    """What does not match the declared metadata is refused as a whole."""
    from zcollection.variable.abc import new_variable
    schema = _schema(h, immutable=True)
    col = schema.create(h, 'memory')
    first = schema.rows(h, 'a', 1)
    coll.insert(h, schema, col, first)
    model = coll.group(first)
    rows = schema.rows(h, 'b', h.config['rows'], first_id=50)
    what = h.choice('difference', DIFFERENCES)
    zds = schema.to_dataset(h, rows, skip=['v'] if what == 'absent' else ())
    if what not in ('none', 'absent'):
        var = zds.variables['v']
        kw = dict(name=var.name, array=var.array, dimensions=var.dimensions,
                  attrs=var.attrs, compressor=var.compressor,
                  fill_value=var.fill_value, filters=var.filters)
        if what == 'type':
            kw['array'] = var.array.astype('int32')
        elif what == 'fill':
            kw['fill_value'] = schema.FILL + 1
        elif what == 'no fill':
            kw['fill_value'] = None
        elif what == 'attribute':
            kw['attrs'] = (dataset.Attribute('units', 'm'), )
        elif what == 'compressor':
            kw['compressor'] = numcodecs.Zlib(9)
        elif what == 'filter':
            kw['filters'] = (numcodecs.Delta('int64', 'int64'), )
        elif what == 'unknown':
            kw['name'] = 'unknown'
        chunks = zds.dims_chunk
        attrs = zds.attrs
        items = dict(zds.variables)
        items[kw['name']] = new_variable(type(var), **kw)
        if what == 'dimensions':
            w = items['w']
            items['w'] = new_variable(
                type(w), name='w', array=w.array, dimensions=('x', 'z'),
                attrs=w.attrs, compressor=w.compressor,
                fill_value=w.fill_value, filters=w.filters)
        elif what == 'title':
            attrs = []
        elif what == 'attribute value':
            attrs = [dataset.Attribute('title', 'U')]
        elif what == 'chunks':
            chunks = [dataset.Dimension('x', 7)]
        zds = dataset.Dataset(list(items.values()), attrs=attrs,
                              chunks=chunks, delayed=schema.delayed)
    before = coll.snapshot(col.fs, col.partition_properties.dir)
    validate = what != 'unknown' or h.bool('validate')
    try:
        col.insert(zds, validate=validate)
    except ValueError:
        h.check(what not in ('none', 'absent'), f'{what}: accepted')
        h.check(before == coll.snapshot(
            col.fs, col.partition_properties.dir), f'{what}: nothing stored')
    else:
        h.check(what in ('none', 'absent'), f'{what}: refused')
        if what == 'absent':
            for r in rows:
                r.v = schema.FILL
        model = coll.group(rows, model)
    coll.check_collection(h, schema, col, model, f'{what}: after')
    h.done()


def history(h):
    """Any sequence of insertions, removals and reopenings."""
    schema = _schema(h)
    col = schema.create(h, h.config.get('fs', 'memory'))
    base = col.partition_properties.dir
    model = {}
    coll.start(h, schema)
    for step in range(h.config['steps']):
        op = h.choice(f'op{step}', ['insert', 'drop', 'reopen', 'update']
                      if step else ['insert'])
        if op == 'insert':
            rows = schema.rows(h, f's{step}_', h.config['rows'],
                               first_id=10 * step, domain=(1, 2))
            coll.insert(h, schema, col, rows)
            model = coll.group(rows, model)
        elif op == 'drop':
            keep = coll.predicate(h, f'd{step}', sorted(model))
            col.drop_partitions(filters=coll.as_filter(
                schema, set(model) - keep))
            model = {k: v for k, v in model.items() if k in keep}
        elif op == 'update' and model:
            coll.STATE['round'] = step
            col.update(coll.new_v)
            for key, rows in model.items():
                ids = [r.id for r in rows]
                model[key] = [r.copy() for r in rows]
                for r in model[key]:
                    r.v = coll.fresh(ids, r.id)
        else:
            col = zcollection.open_collection(base, mode='w',
                                              filesystem=col.fs)
        coll.check_collection(h, schema, col, model, f'step {step} ({op})')
    h.done()


HARNESSES = [
    Harness('roundtrip', roundtrip,
            quick=product(kind=['seq', 'date/M', 'date/D'], rows=[3],
                          delayed=[False, True], load=[False]) +
            product(kind=['seq2'], rows=[2], delayed=[True, False],
                    load=[True]) +
            product(kind=['seq'], rows=[3], delayed=[True], load=[True],
                    npartitions=[1, 2, 3], fs=['file']) +
            product(kind=['seq'], rows=[3], delayed=[True], load=[True],
                    block=[1, 2], chunks=[{'x': 2}, {'x': 1, 'y': 1}]) +
            product(kind=['seq'], rows=[3], delayed=[False], load=[True],
                    chunks=[{'x': 2}], domain=[(1, 2)]) +
            product(kind=['seq', 'seq2'], rows=[2], delayed=[False],
                    domain=[(-10, -1, 0, 9, 10, 100)]) +
            product(kind=['date/Y', 'date/h', 'date/s'], rows=[3],
                    delayed=[False], load=[False]),
            thorough=product(kind=['seq', 'date/D'], rows=[4, 5],
                             delayed=[False, True], load=[True]) +
            product(kind=['seq2'], rows=[3], delayed=[True], load=[True]),
            client=True, bounds='3 rows (2 with two keys; 5 thorough), keys '
            'among 3-6 values, any int64 payload, dask blocks of 1-3 rows, '
            'zarr chunks of 1-3 rows, up to 3 batches'),
    Harness('overwrite', overwrite,
            quick=product(kind=['seq', 'date/D'], first=[3], second=[2],
                          delayed=[False, True]) +
            product(kind=['seq'], first=[2], second=[2], delayed=[True],
                    fs=['file']) +
            product(kind=['seq'], first=[1], second=[1], delayed=[False],
                    fs=['memory', 'file'], empty=[True], wdims=[1]) +
            product(kind=['seq'], first=[2], second=[2], delayed=[True],
                    fs=['file', 'memory'], chunks=[{'x': 1}], block=[1],
                    wdims=[0], empty=[True]),
            thorough=product(kind=['seq', 'seq2', 'date/D'], first=[3],
                             second=[3], delayed=[False, True]),
            client=True, bounds='3 then 2 rows, keys among 3 values, any '
            'payload; with empty: blocks made of fill values told apart'),
    Harness('unsorted', unsorted,
            quick=product(kind=['seq', 'date/D'], rows=[3],
                          delayed=[False, True]),
            client=True, bounds='3 rows in any order of 3 keys'),
    Harness('missing', missing,
            quick=product(kind=['seq'], rows=[2], delayed=[False, True]),
            client=True, bounds='2 rows, any subset of the variables'),
    Harness('validated', validated,
            quick=product(kind=['seq'], rows=[1], delayed=[False, True]) +
            product(kind=['seq'], rows=[1], delayed=[True],
                    chunks=[{'x': 2}]),
            client=True, bounds='1 row of any of 3 keys, any payload, 11 '
            'differences with the metadata declared at the creation'),
    Harness('history', history,
            quick=product(kind=['seq'], rows=[2], steps=[3],
                          delayed=[False, True]) +
            product(kind=['seq'], rows=[1], steps=[3], fs=['file'],
                    delayed=[False]),
            thorough=product(kind=['seq'], rows=[1], steps=[4],
                             delayed=[False]) +
            product(kind=['date/D'], rows=[2], steps=[3], delayed=[True]),
            client=True, bounds='sequences of 3 operations (4 thorough) among '
            'insertion, removal, update, reopening'),
]
OUTSIDE = ('string and structured variables, remote file systems, concurrent '
           'writers')
