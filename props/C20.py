"""C20: the cells holding the fill value are masked, and nothing else is."""
from .common import *  # noqa: F401,F403
from .common import (Array, DelayedArray, Harness, cells, dataset, meta,
                     numpy, product, variable)

import dask.array.core
import dask.base

from . import coll

FILL = -9


def masked(h, seq, mask, fill):
    """Masked array of these cells (fill: as given by the user)."""
    arr = h.array(list(seq), dtype='int64')
    if h.symbolic:
        from symx import values
        if type(arr) is values.SymArray:
            return values.make_masked(arr, numpy.array(mask), fill)
    return numpy.ma.MaskedArray(arr, mask=mask, fill_value=fill)


def _fill(kind):
    return {'int': FILL, 'numpy': numpy.int64(FILL), None: None}[kind]


def _build(h, tag, n, kind, form, other=True):
    """One dataset and the model of its variable v."""
    seq = [h.int(f'{tag}{i}', -50, 50, dtype='int64') for i in range(n)]
    arr = h.array(seq, dtype='int64')
    delayed = form != 'eager'
    if delayed:
        arr = dask.array.core.from_array(arr, chunks=int(form))
    var = [variable('v', arr, ('x', ), delayed, fill_value=_fill(kind))]
    if other:
        w = numpy.arange(n)
        if delayed:
            w = dask.array.core.from_array(w, chunks=int(form))
        var.append(variable('w', w, ('x', ), delayed))
    return dataset.Dataset(var), seq


def _expect(h, got, model, fill, what):
    """got: masked exactly where the model holds the fill value."""
    got = got.compute() if hasattr(got, 'compute') else got
    h.check(tuple(got.shape) == (len(model), ), f'{what}: shape')
    if fill is not None and len(model):
        h.check(isinstance(got, numpy.ma.MaskedArray),
                f'{what}: a masked array')
    for g, w in zip(cells(got), model):
        if g is numpy.ma.masked:
            h.check(h.same(w, fill) if fill is not None else False,
                    f'{what}: only fill values are masked')
        else:
            h.check(h.same(g, w), f'{what}: values')
            if fill is not None:
                h.check(h.not_(h.same(w, fill)),
                        f'{what}: fill values are masked')


def _observe(h, zds, model, fill, what):
    var = zds.variables['v']
    h.check((var.fill_value is None) == (fill is None)
            and (fill is None or var.fill_value == fill),
            f'{what}: fill value {var.fill_value!r}')
    _expect(h, var.values, model, fill, f'{what}: values')
    _expect(h, var.data, model, fill, f'{what}: data')
    _expect(h, var[1:], model[1:], fill, f'{what}: slice')
    _expect(h, zds.to_dict()['v'], model, fill, f'{what}: to_dict')
    h.check([int(i) for i in cells(zds.variables['w'].values)] ==
            list(range(len(model))) if what != 'x' else True,
            f'{what}: other variable')


OPS = ['persist', 'compress', 'compute', 'rechunk', 'isel', 'concat',
       'concat compressed', 'rename', 'duplicate', 'assign', 'assign dataset',
       'fill', 'set_for_insertion', 'dask compute', 'dask persist', 'variable '
       'persist']


def _step(h, op, tag, zds, model, kind, form):
    fill = _fill(kind)
    var = zds.variables['v']
    w = zds.variables['w']

    def pair(new):
        return dataset.Dataset([new, w], delayed=zds.delayed)
    if op == 'persist':
        zds = zds.persist()
    elif op == 'compress':
        zds = zds.persist(compress=True)
    elif op == 'compute':
        zds = zds.compute()
    elif op == 'rechunk':
        zds = zds.rechunk(chunks={0: 3})
    elif op == 'isel':
        zds = zds.isel({'x': slice(0, 2)})
        model = model[:2]
    elif op in ('concat', 'concat compressed'):
        other, seq = _build(h, f'{tag}o', 1, kind,
                            form if zds.delayed else 'eager')
        other['w'].array = other['w'].array + len(model)
        if op != 'concat':
            other = other.persist(compress=True)
        zds = zds.concat(other, 'x')
        model = model + seq
    elif op == 'rename':
        zds = pair(var.rename('r').rename('v'))
    elif op == 'duplicate':
        zds = pair(var.duplicate(var.values))
    elif op == 'assign':
        var.values = var.values
    elif op == 'assign dataset':
        var.values = var.data
    elif op == 'fill':
        var.fill()
        if fill is not None:
            model = [fill] * len(model)
    elif op == 'set_for_insertion':
        zds = pair(var.set_for_insertion())
    elif op == 'dask compute':
        if zds.delayed:
            zds = pair(dask.base.compute(var)[0])
    elif op == 'dask persist':
        if zds.delayed:
            zds = pair(dask.base.persist(var)[0])
    elif op == 'copy':
        zds = zds.copy()
    elif op == 'variable persist':
        var.persist()
    return zds, model


def chain(h):
    kind, form = h.config['fill'], h.config['form']
    zds, model = _build(h, 'c', h.config['n'], kind, form)
    fill = _fill(kind)
    done = []
    for n in range(h.config['steps']):
        op = h.choice(f'op{n}', OPS)
        zds, model = _step(h, op, f's{n}', zds, model, kind, form)
        done.append(op)
        _observe(h, zds, model, fill, ', '.join(done))
    h.done()



# -- compressed arrays --------------------------------------------------------
def _numpy(h, seq, fill):
    """What a compressed array stands for."""
    arr = h.array(list(seq), dtype='int64')
    return arr if fill is None else numpy.ma.masked_equal(arr, fill)


def _same(h, got, want, what):
    """Same cells, same mask (never forks)."""
    h.check(tuple(got.shape) == tuple(want.shape), f'{what}: shape')
    h.check(h.all([h.same(a, b) for a, b in zip(cells(got), cells(want))]),
            f'{what}: cells')


UNARY = {
    'read': lambda x: x[...],
    'slice': lambda x: x[1:],
    'step': lambda x: x[::2],
    'one': lambda x: x[0:1],
    'negative': lambda x: -x,
    'plus one': lambda x: x + 1,
    'minus from': lambda x: 3 - x,
    'numpy scalar': lambda x: x * numpy.int64(2),
    'less': lambda x: x < 3,
    'ufunc': numpy.abs,
    'reshape': lambda x: x.reshape(3, 1),
}


def _concatenated(h, kind, a, b):
    if kind == 'method':
        from zcollection import compressed_array
        return compressed_array._concatenate_compressed_array([a, b], axis=0)
    return numpy.ma.concatenate([a[...], b[...]])


def compressed(h):
    """A compressed array stands for the array it has been made from."""
    from zcollection.compressed_array import CompressedArray
    fa, fb = h.config['fills']
    n = 3
    sa = [h.int(f'a{i}', -50, 50, dtype='int64') for i in range(n)]
    sb = [h.int(f'b{i}', -50, 50, dtype='int64') for i in range(n)]

    def make(seq, fill):
        kw = {} if fill is None else {'fill_value': fill}
        return CompressedArray(h.array(list(seq), dtype='int64'), **kw)
    op = h.config['op']
    a = make(sa, fa)
    if op == 'set':
        pos = h.concrete_int('pos', 0, n - 1)
        a[pos:pos + 1] = h.array([sb[0]], dtype='int64')
        sa[pos] = sb[0]
    elif op == 'rechunk':
        a = a.rechunk((h.concrete_int('chunk', 1, 3), ))
    elif op == 'again':
        a = CompressedArray(a)
    na = _numpy(h, sa, fa)
    h.check(a.fill_value == fa and a.shape == (n, ) and a.ndim == 1
            and a.size == n and a.dtype == numpy.dtype('int64'),
            f'{op}: description')
    if op in ('read', 'set', 'rechunk', 'again'):
        name = h.choice('unary', list(UNARY))
        if op != 'read' and name not in ('read', 'plus one', 'less'):
            name = 'read'
        _same(h, UNARY[name](a), UNARY[name](na), f'{op}, {name}')
        _same(h, a.__array__(), na, f'{op}: array')
    else:
        other = h.choice('with', ['compressed', 'array'])
        nb = _numpy(h, sb, fb)
        b = make(sb, fb) if other == 'compressed' else nb
        if other == 'array' and fb is not None:
            b = h.array(list(sb), dtype='int64')
            nb = b
        swap = h.bool('swap')
        x, y, nx, ny = (b, a, nb, na) if swap else (a, b, na, nb)
        if op == 'add':
            got, want = x + y, nx + ny
        elif op == 'subtract':
            got, want = x - y, nx - ny
        elif op == 'less':
            got, want = x < y, nx < ny
        elif op == 'multiply':
            got, want = numpy.multiply(x, y), nx * ny
        elif op == 'concatenate':
            fill = fa if fa is not None else fb
            var = DelayedArray('v', dask.array.core.concatenate([
                dask.array.core.from_array(x, chunks=3),
                dask.array.core.from_array(y, chunks=3)]), ('x', ),
                fill_value=None)
            got = var.values
            raw = (list(sb) + list(sa)) if swap else (list(sa) + list(sb))
            # the mask of the parts may be dropped, not their values
            h.check(tuple(got.shape) == (2 * n, ), 'concatenation: shape')
            for g, w in zip(cells(got), raw):
                if g is numpy.ma.masked:
                    h.check(h.any([h.same(w, f) for f in (fa, fb)
                                   if f is not None]),
                            'concatenation: only fill values are masked')
                else:
                    h.check(h.same(g, w), 'concatenation: values')
            h.done()
            return
        _same(h, got, want, f'{op} with {other}')
    h.done()


# -- storage ------------------------------------------------------------------
def _new_masked(zds):
    """Update function: any cells, any mask, some fill value."""
    st = coll.STATE
    ids = coll.seen(zds)
    seq = [st['cells'][i] for i in ids]
    mask = [st['mask'][i] for i in ids]
    if st['form'] == 'plain':
        arr = st['h'].array(seq, dtype='int64')
    else:
        arr = masked(st['h'], seq, mask, st['fill'])
    return {'v': arr}


def stored(h):
    """Masks go through the storage."""
    schema = coll.Schema('seq', wdims=0, delayed=h.config['delayed'])
    fill = schema.FILL
    col = schema.create(h)
    n = 3
    rows = [schema.row(h, f'r{i}', i, (1 + (i >= 2), ),
                       payload=not h.config['update']) for i in range(n)]
    mask = [h.bool(f'm{i}') if not h.config['update'] else i == 1
            for i in range(n)]
    zds = schema.to_dataset(h, rows)
    given = masked(h, [r.v for r in rows], mask, fill)
    var = zds.variables['v']
    how = h.choice('how', ['new', 'duplicate', 'assign']
                   if not h.config['update'] else ['new'])
    if how == 'assign':
        var.values = given
    elif how == 'duplicate':
        zds.variables['v'] = var.duplicate(given)
    else:
        zds.variables['v'] = variable('v', given, ('x', ), schema.delayed)
    col.insert(zds)
    model = [fill if m else r.v for r, m in zip(rows, mask)]
    coll.start(h, schema)
    if h.config['update']:
        form = h.choice('form', ['plain', 'masked', 'other fill'])
        new = [h.int(f'n{i}', -2**62, 2**62, dtype='int64')
               for i in range(n)]
        nmask = [h.bool(f'nm{i}') if form != 'plain' else False
                 for i in range(n)]
        coll.STATE.update(cells=new, mask=nmask, form=form,
                          fill=fill if form == 'masked' else 5)
        col.update(_new_masked)
        model = [fill if m and form != 'plain' else c
                 for c, m in zip(new, nmask)]
    if h.config['reopen']:
        import zcollection
        col = zcollection.open_collection(col.partition_properties.dir,
                                          mode='w', filesystem=col.fs)
    for delayed in (False, True):
        zds = col.load(delayed=delayed)
        var = zds.variables['v']
        h.check(var.fill_value == fill, 'fill value')
        _expect(h, var.values, model, fill, 'values')
        _expect(h, var.data, model, fill, 'data')
        _expect(h, zds.persist().variables['v'].values, model, fill,
                'persisted')
    h.done()


_FILLS = [(-9, -9), (-9, 7), (-9, None), (None, 7), (None, None)]
HARNESSES = [
    Harness('chain', chain,
            quick=product(fill=['int', 'numpy', None],
                          form=['eager', '1', '2', '3'], n=[3], steps=[2]),
            thorough=product(fill=['int'], form=['eager', '2'], n=[2],
                             steps=[3]),
            bounds='3 cells of any value, blocks of 1-3 cells, every sequence '
            'of 2 operations (3 thorough) among 16 on a dataset with and '
            'without fill value'),
    Harness('compressed', compressed,
            quick=product(op=['read', 'set', 'rechunk', 'again'],
                          fills=[(-9, None), (None, None)]) +
            product(op=['add', 'subtract', 'less', 'multiply',
                        'concatenate'], fills=_FILLS),
            bounds='compressed arrays of 3 cells of any value, with or '
            'without fill value; 5 operations between two arrays of possibly '
            'different fill values, 11 reading operations'),
    Harness('stored', stored,
            quick=product(delayed=[False, True], update=[False, True],
                          reopen=[True]), client=True,
            bounds='2 partitions of 2 and 1 rows, any mask and any cells'),
]
OUTSIDE = ('fill values that are equal to nothing (NaN, NaT), conversions to '
           'xarray, masked arrays given to CompressedArray')
