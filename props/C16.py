"""C16: reopening a collection gives back its full description."""
from .common import *  # noqa: F401,F403
from .common import (Array, DelayedArray, Harness, dataset, meta, numpy,
                     partitioning, product)
from . import coll
import numcodecs
import zcollection

_NAN = float('nan')
_FILLS = {
    'int8': [None, -128, 127, 0], 'uint8': [None, 0, 255],
    'int16': [None, -32768, 7], 'int32': [None, 2**31 - 1],
    'int64': [None, -2**63, 2**63 - 1, 0, -1],
    'uint64': [None, 2**64 - 1, 0],
    'float32': [None, _NAN, 0.5, -0.0, float('inf')],
    'float64': [None, _NAN, 1e300, float('-inf'), 0.1, 0.0],
    'bool': [None, True, False],
    'M8[ns]': [None, numpy.datetime64('NaT'),
               numpy.datetime64('2000-01-01', 'ns')],
    'M8[D]': [None, numpy.datetime64('NaT'), numpy.datetime64('1970-01-02')],
    'm8[s]': [None, numpy.timedelta64('NaT'), numpy.timedelta64(-5, 's')],
    'S4': [None, b'ab'], 'U3': [None, 'ab'],
}
_COMP = [None, numcodecs.Zlib(level=3), numcodecs.Blosc(cname='lz4', clevel=2)]


def _filters(dt):
    kind = numpy.dtype(dt).kind
    out = [()]
    if kind in 'iu':
        out.append((numcodecs.Delta(dtype=dt), ))
    if kind == 'f':
        out.append((numcodecs.FixedScaleOffset(
            offset=1, scale=10, dtype=dt, astype='i4'), ))
    return out


_ATTRS = [(), (('units', 'm'), ), (('b', 1), ('a', 2.5)),
          (('z', [1, 2]), ('flag', True), ('none', None)),
          (('nested', {'x': [1, 'y']}), ('accent', 'é"\\')),
          (('arr', numpy.array([1, 2])), ('np', numpy.float32(0.5)))]


def _same_fill(a, b):
    if a is None or b is None:
        return a is b
    try:
        if numpy.isnat(a) or numpy.isnat(b):
            return bool(numpy.isnat(a) and numpy.isnat(b))
    except TypeError:
        pass
    return bool(a == b) or bool(a != a and b != b)


def _compare(h, a, b, what):
    h.check(a.name == b.name and a.dtype == b.dtype,
            f'{what}: name and type')
    h.check(tuple(a.dimensions) == tuple(b.dimensions), f'{what}: dimensions')
    h.check(_same_fill(a.fill_value, b.fill_value),
            f'{what}: fill value {a.fill_value!r} {b.fill_value!r}')
    h.check(tuple(a.filters or ()) == tuple(b.filters or ()),
            f'{what}: filters')
    h.check(a.compressor == b.compressor, f'{what}: compressor')
    h.check({x.name: x.value for x in a.attrs} == {
        x.name: x.value for x in b.attrs}, f'{what}: attributes')


def _base():
    return [
        meta.Variable('time', numpy.dtype('M8[ns]'), dimensions=('x', )),
        meta.Variable('k', numpy.dtype('int64'), dimensions=('x', )),
        meta.Variable('l', numpy.dtype('int64'), dimensions=('x', )),
    ]


def _reopen(h, ds, handler, check, axis='time'):
    fs, base = h.filesystem('memory')
    col = zcollection.Collection(axis, ds, handler, base, mode='w',
                                 filesystem=fs)
    check(col)
    for mode in ('r', 'w'):
        check(zcollection.open_collection(base, mode=mode, filesystem=fs))
    # rewriting an existing description changes nothing
    before = coll.snapshot(fs, base)
    zcollection.open_collection(base, mode='w', filesystem=fs)
    h.check(coll.snapshot(fs, base) == before, 'opening writes nothing')
    h.done()


def variable(h):
    dt = h.config['dtype']
    fill = h.choice('fill', _FILLS[dt])
    comp = h.choice('comp', _COMP)
    filters = h.choice('filters', _filters(dt))
    dims = h.choice('dims', [('x', ), ('x', 'y'), ('y', )])
    attrs = h.choice('attrs', _ATTRS)
    var = meta.Variable('v', numpy.dtype(dt), dimensions=dims, attrs=[
        dataset.Attribute(*a) for a in attrs], compressor=comp,
        fill_value=fill, filters=filters)

    def check(col):
        _compare(h, col.metadata.variables['v'], var, 'reopened')
        h.check(set(col.metadata.variables) == {'time', 'k', 'l', 'v'},
                'variables')
        h.check(col.immutable == ('x' not in dims), 'immutable')
        got = {v.name: v for v in col.variables()}
        h.check(set(got) == set(col.metadata.variables), 'variables()')
        h.check({x.name: x.value for x in got['v'].attrs} == {
            x.name: x.value for x in var.attrs}, 'variables(): attributes')
    _reopen(h, meta.Dataset(('x', 'y'), _base() + [var]),
            partitioning.Sequence(('k', )), check)


def description(h):
    attrs = [dataset.Attribute(*a) for a in h.choice('attrs', _ATTRS)]
    chunks = h.choice('chunks', [(), (('x', 10), ), (('x', 3), ('y', 2))])
    limit = h.choice('limit', [None, 1000, 2**31])
    kind = h.choice('kind', ['k', 'kl', 'lk', 'int8', 'mixed', 'Y', 'M', 'D',
                             'h', 'm', 's'])
    handler = {
        'k': lambda: partitioning.Sequence(('k', )),
        'kl': lambda: partitioning.Sequence(('k', 'l')),
        'lk': lambda: partitioning.Sequence(('l', 'k')),
        'int8': lambda: partitioning.Sequence(('k', ), dtype=('int8', )),
        'mixed': lambda: partitioning.Sequence(('k', 'l'),
                                               dtype=('int64', 'uint16')),
    }.get(kind, lambda: partitioning.Date(('time', ), kind))()
    ds = meta.Dataset(('x', 'y'), _base(), attrs=attrs,
                      chunks=[meta.Dimension(*c) for c in chunks],
                      block_size_limit=limit)
    ref = type(handler)(handler.variables, *(
        (handler.resolution, ) if hasattr(handler, 'resolution') else
        (handler._dtype, )))

    def check(col):
        h.check(col.axis == 'time', 'axis')
        h.check(col.partition_properties.dim == 'x', 'dimension')
        h.check({x.name: x.value for x in col.metadata.attrs} == {
            x.name: x.value for x in attrs}, 'attributes')
        h.check(tuple(col.metadata.dimensions) == ('x', 'y'), 'dimensions')
        h.check(tuple((c.name, c.value) for c in col.metadata.chunks) ==
                chunks, 'chunks')
        h.check(col.metadata.block_size_limit == (
            limit or meta.BLOCK_SIZE_LIMIT), 'block size limit')
        got = col.partitioning
        h.check(type(got) is type(ref) and tuple(got.variables) ==
                tuple(ref.variables), 'partitioning')
        h.check(getattr(got, 'resolution', None) == getattr(
            ref, 'resolution', None), 'resolution')
        h.check(got.dtype() == ref.dtype(), 'binary types of the keys')
    _reopen(h, ds, handler, check)


def evolve(h):
    """The description follows add_variable and drop_variable."""
    schema = coll.Schema('seq', wdims=0)
    col = schema.create(h)
    base = col.partition_properties.dir
    names = set(col.metadata.variables)
    for n in range(h.config['steps']):
        op = h.choice(f'op{n}', ['add a', 'add b', 'drop a', 'drop b',
                                 'drop v', 'reopen'])
        verb, _, name = op.partition(' ')
        if verb == 'add':
            var = meta.Variable(name, numpy.dtype('int64'), dimensions=('x', ),
                                fill_value=n)
            refused = h.raises((ValueError, ), col.add_variable, var)
            h.check(refused == (name in names), f'{op}: {refused}')
            names.add(name)
        elif verb == 'drop':
            refused = h.raises((ValueError, ), col.drop_variable, name)
            h.check(refused == (name not in names), f'{op}: {refused}')
            names.discard(name)
        else:
            col = zcollection.open_collection(base, mode='w',
                                              filesystem=col.fs)
        h.check(set(col.metadata.variables) == names, 'declared variables')
        again = zcollection.open_collection(base, filesystem=col.fs)
        h.check(again.metadata == col.metadata, 'same description reopened')
    h.done()


def creation(h):
    """Creating anything over something that exists is refused."""
    fs, base = h.filesystem(h.config['fs'])
    schema = coll.Schema('seq', wdims=0)
    there = h.choice('there', ['absent', 'directory', 'file', 'collection'])
    what = h.choice('what', ['collection', 'view', 'bad axis', 'bad key',
                             'bad mode'])
    target = f'{base}/target'
    fs.makedirs(base, exist_ok=True)
    fs.pipe_file(f'{base}/witness', b'1')
    ref = None
    if what == 'view':
        ref = schema.create(h, fs=(fs, f'{base}/ref'))
        coll.insert(h, schema, ref, [schema.row(h, 'r', 0, (1, ),
                                                payload=False)])
    if there == 'directory':
        fs.makedirs(target)
        fs.pipe_file(f'{target}/some_file', b'2')
    elif there == 'file':
        fs.pipe_file(target, b'3')
    elif there == 'collection':
        other = coll.Schema('date/D', wdims=0, delayed=False)
        col = other.create(h, fs=(fs, target))
        coll.insert(h, other, col, [other.row(h, 'o', 0, (2000, 1, 1),
                                              payload=False)])
    before = coll.snapshot(fs, base)
    zds = schema.metadata_dataset()
    try:
        if what == 'view':
            new = zcollection.create_view(
                target, zcollection.view.ViewReference(f'{base}/ref', fs),
                filesystem=fs)
        else:
            new = zcollection.create_collection(
                'nothing' if what == 'bad axis' else 'time', zds,
                partitioning.Sequence(
                    ('nothing' if what == 'bad key' else 'k', )),
                target, filesystem=fs)
            if what == 'bad mode':
                before = coll.snapshot(fs, base)
                zcollection.open_collection(target, mode='x', filesystem=fs)
    except ValueError:
        h.check(there != 'absent' or what.startswith('bad'),
                f'{what}: {there}: accepted')
        h.check(coll.snapshot(fs, base) == before,
                f'{what}: {there}: nothing written')
    else:
        h.check(there == 'absent' and not what.startswith('bad'),
                f'{what}: {there}: refused')
        after = coll.snapshot(fs, base)
        h.check({k: v for k, v in after.items()
                 if not k.startswith('/target/')} == before,
                f'{what}: nothing else written')
        h.check(new is not None, 'created')
        opened = (zcollection.open_view if what == 'view' else
                  zcollection.open_collection)
        opened(target, filesystem=fs)
        h.check(coll.snapshot(fs, base) == after, 'opening writes nothing')
    h.check(h.raises((ValueError, ), zcollection.open_collection,
                     f'{base}/nowhere', filesystem=fs) and
            h.raises((ValueError, ), zcollection.open_view,
                     f'{base}/nowhere', filesystem=fs),
            'nothing to open')
    h.check(not fs.exists(f'{base}/nowhere'), 'opening creates nothing')
    h.done()


def loaded(h):
    """What is loaded carries the declared description."""
    attrs = [dataset.Attribute(*a) for a in h.choice('attrs', _ATTRS[:5:2])]
    own = [dataset.Attribute(*a) for a in h.choice('own', _ATTRS[:5:2])]
    comp = h.choice('comp', _COMP[:2])
    filters = h.choice('filters', _filters('int64'))
    delayed = h.config['delayed']
    values = [h.int(f'v{i}', -5, 5, dtype='int64') for i in range(3)]
    handler = DelayedArray if delayed else Array

    def make(bare):
        data = dict(k=numpy.array([1, 1, 2]), time=numpy.arange(3).astype(
            'M8[ns]'), v=h.array(values, dtype='int64'), c=numpy.array([4]))
        return dataset.Dataset([
            handler(n, a, ('y', ) if n == 'c' else ('x', ),
                    attrs=() if bare or n not in ('v', 'c') else own,
                    compressor=comp if n == 'v' else None,
                    filters=filters if n == 'v' else None,
                    fill_value=-5 if n == 'v' else None)
            for n, a in data.items()], attrs=() if bare else attrs)
    fs, base = h.filesystem('memory')
    ds = make(False).metadata()
    if not h.config['immutable']:
        del ds.variables['c']
    col = zcollection.Collection('time', ds, partitioning.Sequence(('k', )),
                                 base, mode='w', filesystem=fs)
    zds = make(h.config['bare'])
    if not h.config['immutable']:
        zds.drops_vars('c')
    col.insert(zds)
    if h.bool('reopen'):
        col = zcollection.open_collection(base, filesystem=fs)
    how = h.choice('how', ['load', 'selected', 'indexer', 'variables'] +
                   ([] if h.config['immutable'] else ['view']))
    names = set(ds.variables)
    extra = {}
    if how == 'load':
        got = col.load(delayed=delayed)
    elif how == 'selected':
        names = {'v', 'c'} & names
        got = col.load(delayed=delayed, selected_variables=names)
    elif how == 'indexer':
        got = col.load(delayed=delayed, indexer=[
            ((('k', 1), ), slice(0, 1)), ((('k', 2), ), slice(0, 1))])
    elif how == 'variables':
        got = dataset.Dataset(col.variables(), attrs=attrs)
    else:
        view = zcollection.create_view(
            f'{base}-view', zcollection.view.ViewReference(base, fs),
            filesystem=fs)
        view.add_variable(meta.Variable(
            'n', numpy.dtype('int64'), dimensions=('x', ), fill_value=3,
            attrs=own, compressor=comp, filters=filters))
        if h.bool('reopen_view'):
            view = zcollection.open_view(f'{base}-view', filesystem=fs)
        extra = view.metadata.variables
        names.add('n')
        h.check([v.name for v in view.variables()] == ['n'],
                'variables of the view')
        got = view.load(delayed=delayed)
    h.check(set(got.variables) == names, f'{how}: variables')
    h.check({a.name: a.value for a in got.attrs} ==
            {a.name: a.value for a in attrs}, f'{how}: attributes')
    for name in names:
        want = extra.get(name) or ds.variables[name]
        var = got.variables[name]
        meta_ = var.metadata()
        h.check({a.name: a.value for a in meta_.attrs} ==
                {a.name: a.value for a in want.attrs},
                f'{how}: attributes of {name}')
        h.check(meta_.dtype == want.dtype and tuple(meta_.dimensions) ==
                tuple(want.dimensions), f'{how}: structure of {name}')
        h.check(_same_fill(meta_.fill_value, want.fill_value),
                f'{how}: fill value of {name}')
        if name in ('v', 'n'):
            h.check(tuple(meta_.filters or ()) == tuple(want.filters or ()),
                    f'{how}: filters of {name}')
            if comp is not None:
                h.check(meta_.compressor == comp,
                        f'{how}: compressor of {name}')
    h.done()


HARNESSES = [
    Harness('variable', variable, quick=product(dtype=list(_FILLS)),
            samples=1, bounds='14 data types, 2-6 fill values each, 3 '
            'compressors, filters, 3 shapes, 6 sets of attributes'),
    Harness('description', description, quick=[{}], samples=2,
            bounds='11 partitionings, 6 sets of attributes, 3 chunkings, 3 '
            'block size limits'),
    Harness('evolve', evolve, quick=product(steps=[3]),
            thorough=product(steps=[4]), client=True,
            bounds='every sequence of 3 (4 thorough) additions, removals and '
            'reopenings'),
    Harness('loaded', loaded,
            quick=product(delayed=[True, False], bare=[True, False],
                          immutable=[False, True]),
            client=True, bounds='3 rows in 2 partitions, 3 sets of attributes '
            'of the dataset and of the variables, loaded in 5 ways'),
    Harness('creation', creation, quick=product(fs=['memory', 'file']),
            client=True, bounds='collections and views created over nothing, '
            'a directory, a file or another collection; wrong axis, key and '
            'mode'),
]
OUTSIDE = 'other data types, codecs and attribute values'
