"""C23: datasets go through xarray, Zarr groups and copies unchanged."""
from .common import *  # noqa: F401,F403
from .common import Harness, cells, dataset, numpy, product, variable

import copy

import dask.array.core
import numcodecs
import xarray

import zcollection
from zcollection import storage

from . import coll

FILL = -9
TIMES = {'ns': 'M8[ns]', 'us': 'M8[us]', 's': 'M8[s]', 'D': 'M8[D]'}


def _data(h, tag, n, dtype='int64', chunks=1, shape=None):
    seq = [h.int(f'{tag}{i}', 0, 10**6, dtype=dtype) for i in range(n)]
    arr = h.array(seq, dtype=dtype)
    if shape is not None:
        arr = arr.reshape(shape)
    return seq, dask.array.core.from_array(arr, chunks=chunks)


def _codec(codec):
    return None if codec is None else codec.get_config()


def _properties(h, var):
    """Declared properties of v, each of them present or not."""
    kw = {}
    if h.bool('attrs'):
        kw['attrs'] = [dataset.Attribute('units', 'm'),
                       dataset.Attribute('valid', [1, 2])]
    if h.bool('compressor'):
        kw['compressor'] = numcodecs.Zlib(3)
    if h.bool('filters'):
        kw['filters'] = (numcodecs.Delta('int64', 'int64'), )
    return kw


def _make(h, fill):
    """Dataset of three variables and its model."""
    n, res = h.config['rows'], h.config.get('time', 'ns')
    chunks = h.config.get('block', 1)
    v, arr = _data(h, 'v', n, chunks=chunks)
    kw = _properties(h, 'v')
    w, warr = _data(h, 'w', 2 * n, chunks=(chunks, 2), shape=(n, 2))
    t, tarr = _data(h, 't', n, TIMES[res], chunks=chunks)
    d, darr = _data(h, 'd', n, 'm8[ns]', chunks=chunks)
    zds = dataset.Dataset([
        variable('v', arr, ('x', ), True, fill_value=fill, **kw),
        variable('w', warr, ('x', 'y'), True),
        variable('t', tarr, ('x', ), True),
        variable('d', darr, ('x', ), True),
    ], attrs=[dataset.Attribute('title', 'T'), dataset.Attribute('k', 3)])
    return zds, dict(v=v, w=w, t=t, d=d), kw


def _cells(h, got, model, what):
    got = cells(got.compute() if hasattr(got, 'compute') else got)
    h.check(len(got) == len(model), f'{what}: size')
    h.check(h.all([h.same(a, b) for a, b in zip(got, model)]),
            f'{what}: content')


def _scaled(h, seq, unit):
    factor = {'ns': 1, 'us': 10**3, 's': 10**9, 'D': 86400 * 10**9}[unit]
    if h.symbolic:
        return [s.astype('M8[ns]') for s in seq]
    return [numpy.datetime64(int(s.astype('int64')) * factor, 'ns')
            for s in seq]


def to_xarray(h):
    """Every variable, dimension and attribute goes to xarray and back."""
    fill = FILL if h.config['fill'] else None
    zds, model, kw = _make(h, fill)
    xds = zds.to_xarray(mask_and_scale=False)
    h.check(set(xds.variables) == set(model), 'names')
    h.check(dict(xds.attrs) == {'title': 'T', 'k': 3}, 'attributes')
    want = {a.name: a.value for a in kw.get('attrs', ())}
    if fill is not None:
        want['_FillValue'] = fill
    h.check(dict(xds.variables['v'].attrs) == want, 'attributes of v')
    h.check(xds.variables['v'].encoding.get('compressor') == kw.get(
        'compressor'), 'compressor')
    h.check(tuple(xds.variables['v'].encoding.get('filters', ())) == kw.get(
        'filters', ()), 'filters')
    times = _scaled(h, model['t'], h.config.get('time', 'ns'))
    for name, seq in dict(model, t=times).items():
        var = xds.variables[name]
        h.check(tuple(var.dims) == (('x', 'y') if name == 'w' else ('x', )),
                f'{name}: dimensions')
        _cells(h, var.data, seq, f'{name} in xarray')
    h.check(str(xds.variables['t'].dtype) == 'datetime64[ns]', 'type of t')
    h.check(str(xds.variables['d'].dtype) == 'timedelta64[ns]', 'type of d')
    back = dataset.Dataset.from_xarray(xds)
    h.check(back.delayed, 'lazy')
    _same(h, back, zds, dict(model, t=times), 'back', fill=None,
          attrs=want)
    h.done()


def _same(h, got, ref, model, what, fill, attrs=None, raw=True):
    h.check(set(got.variables) == set(ref.variables), f'{what}: names')
    h.check({a.name: a.value for a in got.attrs} ==
            {a.name: a.value for a in ref.attrs}, f'{what}: attributes')
    h.check(dict(got.dimensions) == dict(ref.dimensions),
            f'{what}: dimensions')
    for name, seq in model.items():
        a, b = got.variables[name], ref.variables[name]
        h.check(tuple(a.dimensions) == tuple(b.dimensions) and
                (name == 't' or a.dtype == b.dtype),
                f'{what}: structure of {name}')
        wanted = {x.name: x.value for x in b.attrs}
        if name == 'v' and attrs is not None:
            wanted = attrs
        h.check({x.name: x.value for x in a.attrs} == wanted,
                f'{what}: attributes of {name}')
        if name == 'v':
            h.check((a.fill_value is None) == (fill is None) and
                    (fill is None or a.fill_value == fill),
                    f'{what}: fill value')
            h.check(_codec(a.compressor) == _codec(b.compressor)
                    or b.compressor is None, f'{what}: compressor')
            h.check([_codec(x) for x in a.filters or ()] ==
                    [_codec(x) for x in b.filters or ()],
                    f'{what}: filters')
        _cells(h, a.array, seq, f'{what}: {name}')


def from_xarray(h):
    """The encoding of the xarray variables is kept."""
    n = h.config['rows']
    v, arr = _data(h, 'v', n)
    kw = _properties(h, 'v')
    encoding = {}
    fill = h.config['fill']
    if fill is not None:
        encoding['_FillValue'] = fill
    for name in ('compressor', 'filters'):
        if name in kw:
            encoding[name] = kw[name]
    attrs = {a.name: a.value for a in kw.get('attrs', ())}
    w, warr = _data(h, 'w', 2 * n, chunks=(1, 2), shape=(n, 2))
    xds = xarray.Dataset({
        'v': xarray.Variable(('x', ), arr, attrs, encoding),
        'w': xarray.Variable(('x', 'y'), warr)}, attrs={'title': 'T'})
    if h.bool('coordinate'):
        xds = xds.set_coords('w')
    got = dataset.Dataset.from_xarray(xds)
    ref = dataset.Dataset(
        [variable('v', arr, ('x', ), True, fill_value=fill, **kw),
         variable('w', warr, ('x', 'y'), True)],
        attrs=[dataset.Attribute('title', 'T')])
    _same(h, got, ref, dict(v=v, w=w), 'from xarray', fill)
    if fill is not None:
        masked = got.variables['v'].values
        for c, m in zip(cells(masked), v):
            if c is numpy.ma.masked:
                h.check(h.same(m, fill), 'only fill values are masked')
            else:
                h.check(h.not_(h.same(m, fill)), 'fill values are masked')
    h.done()


def inserted(h):
    """An xarray dataset is inserted as the same zcollection dataset."""
    schema = coll.Schema('seq', delayed=True, block=h.config.get('block'))
    rows = schema.rows(h, 'a', h.config['rows'])

    def as_xarray(zds):
        return xarray.Dataset({
            name: xarray.Variable(
                var.dimensions, var.array, None,
                {} if var.fill_value is None else
                {'_FillValue': var.fill_value})
            for name, var in zds.variables.items()}, attrs={'title': 'T'})
    fs, base = h.filesystem('memory')
    col = zcollection.create_collection(
        schema.axis, as_xarray(schema.metadata_dataset())
        if h.bool('created_from_xarray') else schema.metadata_dataset(),
        schema.handler(), base, filesystem=fs)
    h.check(col.metadata.variables['v'].fill_value == schema.FILL,
            'declared fill value')
    h.check(col.metadata.variables['v'].dtype == numpy.dtype('int64'),
            'declared type')
    col.insert(as_xarray(schema.to_dataset(h, rows)))
    coll.check_collection(h, schema, col, coll.group(rows), 'after insertion')
    var = col.load().variables['v']
    h.check(var.fill_value == schema.FILL, 'fill value of v')
    h.done()


def to_zarr(h):
    """A dataset written in a Zarr group is read back unchanged."""
    fill = FILL if h.config['fill'] else None
    zds, model, _ = _make(h, fill)
    fs, base = h.filesystem(h.config.get('fs', 'memory'))
    path = f'{base}/a/group'
    zds.to_zarr(path, fs=fs, parallel=h.config['parallel'])
    for delayed in (True, False):
        got = storage.open_zarr_group(path, fs, delayed=delayed)
        h.check(got.delayed == delayed, 'lazy or not')
        _same(h, got, zds, model, f'read (delayed: {delayed})', fill)
        h.check(got.variables['t'].dtype == zds.variables['t'].dtype,
                'type of t')
        one = storage.open_zarr_group(path, fs, delayed=delayed,
                                      selected_variables=['w', 'unknown'])
        h.check(set(one.variables) == {'w'}, 'selection')
        _cells(h, one.variables['w'].array, model['w'], 'selection')
    h.done()


def copies(h):
    """Copies and selections keep everything."""
    fill = FILL if h.config['fill'] else None
    zds, model, _ = _make(h, fill)
    zds.chunks.update({'x': 3})
    zds.block_size_limit = 12345
    got = copy.copy(zds)
    _same(h, got, zds, model, 'copy', fill)
    h.check(dict(got.chunks) == {'x': 3} and got.block_size_limit == 12345
            and got.delayed, 'copy: chunks')
    names = [n for n in model if h.bool(f'keep_{n}')]
    part = zds.select_vars(names) if names else None
    if part is not None:
        ref = dataset.Dataset([zds.variables[n] for n in names],
                              attrs=zds.attrs)
        _same(h, part, ref, {n: model[n] for n in names}, 'selection', fill)
        h.check(dict(part.chunks) == {'x': 3}
                and part.block_size_limit == 12345, 'selection: chunks')
    h.done()


HARNESSES = [
    Harness('to_xarray', to_xarray,
            quick=product(rows=[2], fill=[False, True], block=[1, 2],
                          time=['ns', 'us', 's', 'D']),
            client=True, bounds='2 rows of any value, 4 variables (with and '
            'without fill value, two dimensions, dates of 4 units, '
            'durations), any subset of attributes, compressor, filters'),
    Harness('from_xarray', from_xarray,
            quick=product(rows=[3], fill=[None, 0, 7]),
            client=True, bounds='3 rows of any value, every encoding among '
            'compressor, filters, fill value (0 included)'),
    Harness('inserted', inserted,
            quick=product(rows=[2], block=[1, 2]),
            client=True, bounds='2 rows, keys among 3 values'),
    Harness('to_zarr', to_zarr,
            quick=product(rows=[2], fill=[False, True],
                          parallel=[False, True], time=['us']) +
            product(rows=[3], fill=[True], parallel=[False], block=[2],
                    fs=['file']),
            client=True, bounds='2 or 3 rows of any value'),
    Harness('copies', copies,
            quick=product(rows=[2], fill=[True]),
            client=True, bounds='2 rows, every selection of variables'),
]
OUTSIDE = ('the decoding of the fill values by xarray (masked integers become '
           'NaN), datasets held in memory, index coordinates, strings')
