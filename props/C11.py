"""C11: adding or dropping a variable touches that variable only."""
from .common import *  # noqa: F401,F403
from .common import Harness, meta, numpy, product
from . import coll
import zcollection
from symx.harness import cells


def _files(fs, base, skip):
    """Files of the variables, except the one named skip."""
    return {k: v for k, v in coll.snapshot(fs, base).items()
            if f'/{skip}/' not in k and not k.endswith(('.zmetadata',
                                                        '.zcollection'))}


def _new(h, name='n', dims=('x', ), fill=None, dtype='int64'):
    return meta.Variable(name, numpy.dtype(dtype), dimensions=dims,
                         fill_value=fill,
                         attrs=(zcollection.dataset.Attribute('units', 'm'), ))


def add(h):
    schema = coll.Schema(h.config['kind'],
                         immutable=h.config.get('immutable', False),
                         more=[('u', ('x', 'z')), ('t', ('y', 'x'))])
    schema.more_first = h.config.get('first', False)
    schema.chunks = h.config.get('chunks')
    model = coll.fixed(h, schema, h.config['sizes'])
    col = coll.build(h, schema, model, h.config.get('fs', 'memory')) \
        if model else schema.create(h)
    base = col.partition_properties.dir
    before = _files(col.fs, base, 'n')
    dims = h.choice('dims', [('x', ), ('x', 'y'), ('x', 'z'), ('y', 'x')])
    fill = h.choice('fill', [None, -7, 0])
    col.add_variable(_new(h, dims=dims, fill=fill))
    h.check(_files(col.fs, base, 'n') == before,
            'the files of the other variables are untouched')
    again = zcollection.open_collection(base, mode='w', filesystem=col.fs)
    for c in (col, again):
        h.check('n' in c.metadata.variables, 'the variable is declared')
        h.check(c.metadata.variables['n'] == _new(h, dims=dims, fill=fill),
                'the declaration is the one requested')
        coll.check_collection(h, schema, c, model, 'after add_variable')
        zds = c.load(delayed=False)
        if zds is None:
            continue
        n = sum(len(v) for v in model.values())
        var = zds.variables['n']
        h.check(tuple(var.shape) == tuple({'x': n, **coll.SIZES}[d]
                                          for d in dims), 'shape of the new variable')
        h.check(var.fill_value == fill, 'fill value of the new variable')
        h.check([a.name for a in var.attrs] == ['units'],
                'attributes of the new variable')
        if fill is not None:
            h.check(all(v is numpy.ma.masked for v in cells(var.values)),
                    'the new variable is entirely masked')
    # it can be populated
    if model:
        key = sorted(model)[-1]
        row = schema.row(h, 'z', 77, key)
        row.extra['n'] = h.int('zn', -2**62, 2**62, dtype='int64')
        zds = schema.to_dataset(h, [row])
        shape = tuple({'x': 1, **coll.SIZES}[d] for d in dims)
        data = h.array([row.extra['n']] * int(numpy.prod(shape)),
                       dtype='int64')
        zds.add_variable(_new(h, dims=dims, fill=fill), data.reshape(shape))
        again.insert(zds)
        got = again.load(delayed=False, filters=coll.as_filter(schema, [key]))
        coll.check_rows(h, schema, got, [row], 'insertion of the variable')
        h.check(h.all([h.same(v, row.extra['n'])
                       for v in cells(coll.raw(got.variables['n']))]),
                'insertion of the new variable')
        again.drop_variable('n')
        if h.bool('twice'):
            # added again with another description
            other = _new(h, dims=('x', ), fill=5, dtype='float64')
            again.add_variable(other)
            var = again.load(delayed=False).variables['n']
            h.check(var.metadata() == other, 'second declaration')
            h.check(all(v is numpy.ma.masked for v in cells(var.values)),
                    'the variable added again is entirely masked')
            again.drop_variable('n')
        coll.check_collection(h, schema, again,
                              dict(model, **{key: [row]}) if False else
                              {**model, key: [row]}, 'after drop_variable')
        h.check('n' not in again.load(delayed=False).variables,
                'the variable is gone')
    h.done()


def refuse(h):
    """A refused operation leaves the collection as it was."""
    schema = coll.Schema(h.config['kind'], immutable=True)
    model = coll.fixed(h, schema, (1, 1), payload=False)
    col = coll.build(h, schema, model)
    base = col.partition_properties.dir
    before = coll.snapshot(col.fs, base)
    op = h.choice('op', ['exists', 'nodim', 'unknown dim', 'drop key',
                         'drop unknown', 'drop immutable', 'drop axis',
                         'no model'])

    def act():
        if op == 'exists':
            col.add_variable(_new(h, 'v'))
        elif op == 'nodim':
            col.add_variable(_new(h, 'n', ('y', )))
        elif op == 'unknown dim':
            col.add_variable(_new(h, 'n', ('x', 'q')))
        elif op == 'no model':
            # no variable has these dimensions
            col.add_variable(_new(h, 'n', ('y', 'x')))
        elif op == 'drop key':
            col.drop_variable(schema.handler().variables[0])
        elif op == 'drop unknown':
            col.drop_variable('zz')
        elif op == 'drop immutable':
            col.drop_variable('c')
        else:
            col.drop_variable(schema.axis)
    h.check(h.raises((Exception, ) if op == 'no model' else (ValueError, ), act), f'{op}: refused')
    h.check(coll.snapshot(col.fs, base) == before, f'{op}: nothing changed')
    coll.check_collection(h, schema, col, model, op)
    h.check(set(col.metadata.variables) == set(
        schema.metadata_dataset().variables), f'{op}: metadata unchanged')
    h.done()


def drop(h):
    schema = coll.Schema(h.config['kind'])
    model = coll.fixed(h, schema, h.config['sizes'])
    col = coll.build(h, schema, model, h.config.get('fs', 'memory')) \
        if model else schema.create(h)
    base = col.partition_properties.dir
    name = h.choice('name', ['v', 'w', 'id'])
    before = _files(col.fs, base, name)
    col.drop_variable(name)
    files = coll.snapshot(col.fs, base)
    h.check(not any(f'/{name}/' in k for k in files),
            'the files of the variable are removed')
    h.check(_files(col.fs, base, name) == before,
            'the files of the other variables are untouched')
    again = zcollection.open_collection(base, mode='w', filesystem=col.fs)
    left = [n for n in [schema.axis, 'id', 'v', 'w'] + list(schema.keys)
            if n != name]
    for c in (col, again):
        h.check(name not in c.metadata.variables, 'no longer declared')
        coll.check_listing(h, schema, c, model, 'after drop_variable')
        zds = c.load(delayed=False)
        if model:
            h.check(set(zds.variables) == set(left), 'variables left')
            coll.check_rows(h, schema, zds, [
                r for k in sorted(model) for r in model[k]],
                'after drop_variable', variables=left)
    # insertions still work without it
    key = sorted(model)[0] if model else coll._first_key(schema)
    row = schema.row(h, 'z', 77, key)
    again.insert(schema.to_dataset(h, [row], skip=(name, )))
    zds = again.load(delayed=False, filters=coll.as_filter(schema, [key]))
    coll.check_rows(h, schema, zds, [row], 'insertion without the variable',
                    variables=left)
    h.done()


HARNESSES = [
    Harness('add', add,
            quick=product(kind=['seq', 'date/D'], sizes=[(2, 1), ()]) +
            product(kind=['seq2'], sizes=[(1, 1, 2)], fs=['file'],
                    immutable=[True]) +
            product(kind=['seq'], sizes=[(2, 1), (3, )], first=[True],
                    chunks=[{'x': 2}, {'x': 1, 'z': 2, 'y': 1}]),
            client=True, bounds='0-3 partitions, any content, 4 shapes, 3 '
            'fill values'),
    Harness('refuse', refuse, quick=product(kind=['seq', 'date/D']),
            client=True, bounds='8 invalid requests'),
    Harness('drop', drop,
            quick=product(kind=['seq', 'date/D'], sizes=[(2, 1), ()]) +
            product(kind=['seq2'], sizes=[(1, 1, 2)], fs=['file']),
            client=True, bounds='0-3 partitions, any content, 3 variables'),
]
OUTSIDE = 'data types other than 64 bit integers; more partitions'
