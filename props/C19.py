"""C19: dataset operations keep the variables aligned and lose nothing."""
from .common import *  # noqa: F401,F403
from .common import (Array, DelayedArray, Harness, cells, dataset, meta,
                     numpy, product, values_of, variable)
import pickle

import dask.array.core

ROWS, COLS = 4, 2


class Model:
    """Reference: name -> (dimensions, object array of cells, fill, attrs)."""

    def __init__(self, items, attrs=()):
        self.items, self.attrs = dict(items), tuple(attrs)

    def map(self, func):
        return Model({k: (d, func(d, a), f, at)
                      for k, (d, a, f, at) in self.items.items()}, self.attrs)


def _obj(arr):
    out = numpy.empty(arr.size, object)
    for i, cell in enumerate(cells(arr)):
        out[i] = cell
    return out.reshape(arr.shape)


def build(h, tag, rows, delayed, chunk=None, cols=COLS, base=None):
    """A dataset over the dimensions x and y with symbolic cells."""
    spec = [('a', ('x', ), (rows, ), None),
            ('m', ('x', 'y'), (rows, cols), -7),
            ('t', ('y', 'x'), (cols, rows), None),
            ('z', ('y', ), (cols, ), 9)]
    out, model = [], {}
    for name, dims, shape, fill in spec:
        n = int(numpy.prod(shape))
        if base is not None and 'x' not in dims:
            arr = base[name]
        else:
            arr = h.ints(f'{tag}{name}', n, -50, 50, shape=shape)
        attrs = (dataset.Attribute('units', f'u{name}'), )
        data = arr
        if delayed and chunk:
            data = dask.array.core.from_array(
                arr, chunks=tuple(min(chunk, s) if s else 1 for s in shape))
        out.append(variable(name, data, dims, delayed, fill_value=fill,
                            attrs=attrs))
        model[name] = (dims, _obj(arr), fill, attrs)
        if base is None:
            pass
    zds = dataset.Dataset(out, attrs=(dataset.Attribute('title', 't'), ),
                          chunks=(meta.Dimension('x', 2), ),
                          block_size_limit=1 << 20)
    return zds, Model(model, zds.attrs)


def check_values(h, zds, model, what):
    for name, (dims, arr, fill, _) in model.items.items():
        values = zds.variables[name].values
        h.check(tuple(values.shape) == arr.shape, f'{what}: shape of {name}')
        for got, want in zip(cells(values), arr.ravel()):
            if got is numpy.ma.masked:
                h.check(h.same(want, fill), f'{what}: only fill values are '
                        'masked')
            else:
                h.check(h.same(got, want), f'{what}: values')
                if fill is not None:
                    h.check(h.not_(h.same(want, fill)),
                            f'{what}: fill values are masked')


def check(h, zds, model, delayed, what, props=True):
    h.check(set(zds.variables) == set(model.items), f'{what}: variables')
    sizes = {}
    for name, (dims, arr, fill, attrs) in model.items.items():
        var = zds.variables[name]
        h.check(isinstance(var, DelayedArray) == delayed,
                f'{what}: laziness preserved')
        h.check(var.name == name, f'{what}: names')
        h.check(tuple(var.dimensions) == tuple(dims), f'{what}: dimensions')
        h.check(var.fill_value == fill, f'{what}: fill values')
        h.check(tuple(var.attrs) == tuple(attrs), f'{what}: attributes')
        got = values_of(var)
        h.check(tuple(got.shape) == arr.shape, f'{what}: shape of {name}')
        h.check(h.all([h.same(x, y) for x, y in zip(
            cells(got), arr.ravel())]), f'{what}: values')
        for d, s in zip(dims, arr.shape):
            sizes[d] = s
    h.check({d: zds.dimensions.get(d) for d in sizes} == sizes,
            f'{what}: dimension sizes')
    if props:
        h.check(tuple(zds.attrs) == model.attrs, f'{what}: global attributes')
        h.check(zds.chunks == {'x': 2} and zds.block_size_limit == 1 << 20,
                f'{what}: storage properties')
        h.check(zds.delayed == delayed, f'{what}: laziness')


def _sel(arr, dims, dim, key):
    return arr[tuple(key if d == dim else slice(None) for d in dims)]


def select(h):
    """isel and delete."""
    delayed, op, kind = h.config['delayed'], h.config['op'], h.config['kind']
    rows = h.config.get('rows', ROWS)
    zds, model = build(h, '', rows, delayed, h.config.get('chunk'))
    dim = h.config.get('dim', 'x')
    size = rows if dim == 'x' else COLS
    if kind == 'slice':
        lo, hi = (-size - 1, size + 1) if op == 'isel' else (-size, size)
        start = h.concrete_int('start', lo, hi)
        stop = h.concrete_int('stop', lo, hi)
        key = slice(start, stop, h.choice('step', [None, 2]))
    else:
        count = h.config['count']
        if op == 'isel':
            key = [h.concrete_int(f'k{i}', -size, size - 1)
                   for i in range(count)]
            if kind == 'array':
                key = numpy.array(key, dtype='int64')
        else:
            key = [h.concrete_int(f'k{i}', -size, size - 1)
                   for i in range(count)]
            if kind == 'array':
                key = numpy.array(key, dtype='int64')
    if op == 'isel':
        out = zds.isel({dim: key})
        expected = model.map(lambda d, a: _sel(a, d, dim, key))
    else:
        out = zds.delete(key, dim)
        keep = numpy.delete(numpy.arange(size), key)
        expected = model.map(lambda d, a: _sel(a, d, dim, keep))
    check(h, out, expected, delayed, op)
    check(h, zds, model, delayed, f'{op} leaves its operand unchanged')
    h.done()


def concat(h):
    delayed, sizes = h.config['delayed'], h.config['sizes']
    first, m0 = build(h, 'd0', sizes[0], delayed, h.config.get('chunk'))
    base = {'z': m0.items['z'][1]}
    parts, models = [first], [m0]
    for i, n in enumerate(sizes[1:]):
        zds, m = build(h, f'd{i + 1}', n, delayed, h.config.get('chunk'),
                       base={'z': h.array(list(base['z']), 'int64')})
        parts.append(zds)
        models.append(m)
    other = parts[1:]
    out = first.concat(other[0] if len(other) == 1 and h.config.get(
        'bare') else other, 'x')
    expected = Model({
        k: (d, numpy.concatenate([m.items[k][1] for m in models],
                                 d.index('x')) if 'x' in d else a, f, at)
        for k, (d, a, f, at) in m0.items.items()}, m0.attrs)
    check(h, out, expected, delayed, 'concat')
    for zds, m in zip(parts, models):
        check(h, zds, m, delayed, 'concat leaves its operands unchanged')
    h.done()


def mismatch(h):
    """Impossible combinations are rejected, and nothing is lost."""
    delayed = h.config['delayed']
    first, m0 = build(h, 'd0', 2, delayed)
    op = h.config['op']
    if op == 'concat-alone':
        # nothing but the variable itself betrays the mismatch
        first = first.select_vars('m')
        m0 = Model({'m': m0.items['m']}, m0.attrs)
        second, m1 = build(h, 'd1', 2, delayed, cols=3)
        h.check(h.raises(Exception, first.concat, [second], 'x'),
                'a concatenation that fails is not silently ignored')
    elif op == 'concat-shape':
        second, m1 = build(h, 'd1', 2, delayed, cols=3)
        h.check(h.raises(Exception, first.concat, [second], 'x'),
                'datasets of different widths cannot be concatenated')
    elif op == 'concat-missing':
        second, m1 = build(h, 'd1', 2, delayed)
        second.drops_vars('m')
        h.check(h.raises(Exception, first.concat, [second], 'x'),
                'a missing variable is not silently ignored')
    elif op == 'concat-kind':
        second, m1 = build(h, 'd1', 2, not delayed)
        h.check(h.raises(ValueError, first.concat, [second], 'x'),
                'lazy and loaded data are not mixed')
    elif op == 'merge-name':
        second = dataset.Dataset([
            variable('new', h.ints('n', 2, 0, 9), ('x', ), delayed),
            variable('a', h.ints('o', 2, 0, 9), ('x', ), delayed)])
        h.check(h.raises(ValueError, first.merge, second),
                'an existing variable is not overwritten by a merge')
    elif op == 'merge-dim':
        second = dataset.Dataset([
            variable('new', h.ints('n', 3, 0, 9), ('x', ), delayed)])
        h.check(h.raises(ValueError, first.merge, second),
                'conflicting dimensions are rejected by a merge')
    elif op == 'merge-kind':
        second = dataset.Dataset([
            variable('new', h.ints('n', 2, 0, 9), ('x', ), not delayed)])
        h.check(h.raises(ValueError, first.merge, second),
                'lazy and loaded data are not merged')
    elif op == 'build':
        h.check(h.raises(ValueError, dataset.Dataset, [
            variable('a', h.ints('n', 3, 0, 9), ('x', ), delayed),
            variable('b', h.ints('o', 2, 0, 9), ('x', ), delayed)]),
            'conflicting dimensions are rejected')
        h.check(h.raises(ValueError, dataset.Dataset, [
            variable('a', h.ints('p', 2, 0, 9), ('x', ), delayed),
            variable('b', h.ints('q', 2, 0, 9), ('x', ), not delayed)]),
            'mixed laziness is rejected')
    elif op == 'add-shape':
        var = meta.Variable('new', numpy.dtype('int64'), dimensions=('x', ))
        h.check(h.raises(ValueError, first.add_variable, var,
                         h.ints('n', 3, 0, 9)),
                'data of another size is rejected')
    elif op == 'rename':
        h.check(h.raises(ValueError, first.rename, {'a': 'm'}),
                'renaming never overwrites a variable')
    check(h, first, m0, delayed, f'{op}: a rejected operation changes nothing')
    h.done()


def others(h):
    """merge, selection of variables, compute, persist, pickle, add..."""
    delayed, op = h.config['delayed'], h.config['op']
    zds, model = build(h, '', 3, delayed, h.config.get('chunk'))
    items, attrs = model.items, model.attrs
    if op == 'merge':
        arr = h.ints('n', 3, 0, 9)
        scalar = h.ints('s', 2, 0, 9)
        zds.merge(dataset.Dataset([
            variable('n', arr, ('x', ), delayed),
            variable('s', scalar, ('k', ), delayed)],
            attrs=(dataset.Attribute('title', 'other'),
                   dataset.Attribute('more', 1))))
        items = dict(items, n=(('x', ), _obj(arr), None, ()),
                     s=(('k', ), _obj(scalar), None, ()))
        attrs = (dataset.Attribute('title', 'other'),
                 dataset.Attribute('more', 1))
        check(h, zds, Model(items, attrs), delayed, op)
    elif op == 'select':
        names = [n for n in ('a', 'm', 't', 'z') if h.bool(f'sel_{n}')]
        if names:
            check(h, zds.select_vars(names),
                  Model({n: items[n] for n in names}, attrs), delayed, op)
        check(h, zds, model, delayed, 'select leaves its operand unchanged')
        zds.drops_vars(names)
        check(h, zds, Model({n: v for n, v in items.items()
                             if n not in names}, attrs), delayed, 'drop',
              props=len(names) < 4)
    elif op == 'by_dims':
        dims = [d for d in ('x', 'y') if h.bool(f'dim_{d}')]
        pred = h.bool('predicate')
        out = zds.select_variables_by_dims(dims, predicate=pred)
        want = {n: v for n, v in items.items()
                if (bool(set(v[0]) & set(dims)) if dims else
                    len(v[0]) == 0) == pred}
        check(h, out, Model(want, attrs), delayed, op, props=bool(want))
    elif op == 'rename':
        zds.rename({'a': 'b', 'z': 'y'})
        check(h, zds, Model({{'a': 'b', 'z': 'y'}.get(n, n): v
                             for n, v in items.items()}, attrs), delayed, op)
    elif op == 'compute':
        check(h, zds.compute(), model, False, op)
        check(h, zds, model, delayed, 'compute leaves its operand unchanged')
    elif op == 'rechunk':
        check(h, zds.rechunk(chunks=2), model, delayed, op)
    elif op == 'persist':
        check_values(h, zds.persist(), model, op)
    elif op == 'persist-var':
        for var in zds.variables.values():
            var.persist()
        check_values(h, zds, model, op)
    elif op == 'insertion':
        mds = zds.metadata()
        out = zds.set_for_insertion(mds)
        bare = Model({n: (d, a, f, ()) for n, (d, a, f, _) in items.items()})
        check(h, out, bare, delayed, op)
        out.fill_attrs(mds)
        check(h, out, model, delayed, 'attributes restored')
        check(h, zds, model, delayed, 'the dataset is unchanged')
    elif op == 'to_dict':
        out = zds.to_dict()
        h.check(set(out) == set(items), 'to_dict: variables')
        for name, (d, arr, fill, _) in items.items():
            for got, want in zip(cells(out[name]), arr.ravel()):
                if got is numpy.ma.masked:
                    h.check(h.same(want, fill), 'only fill values are masked')
                else:
                    h.check(h.same(got, want), 'to_dict: values')
                    if fill is not None:
                        h.check(h.not_(h.same(want, fill)),
                                'fill values are masked')
    elif op == 'add':
        var = meta.Variable('new', numpy.dtype('int64'),
                            dimensions=('y', 'x'), fill_value=5)
        zds.add_variable(var)
        check(h, zds, Model(dict(items, new=(
            ('y', 'x'), numpy.full((COLS, 3), 5, object), 5, ())), attrs),
            delayed, op)
        arr = h.ints('w', 3, 0, 9)
        data = dask.array.core.from_array(arr) if delayed else arr
        zds.add_variable(meta.Variable('w', numpy.dtype('int64'),
                                       dimensions=('x', )), data)
        check(h, zds, Model(dict(items, new=(
            ('y', 'x'), numpy.full((COLS, 3), 5, object), 5, ()),
            w=(('x', ), _obj(arr), None, ())), attrs), delayed, op)
    h.done()


HARNESSES = [
    Harness('select', select,
            quick=product(op=['isel', 'delete'], kind=['slice'],
                          delayed=[False, True], dim=['x', 'y'], rows=[3]) +
            product(op=['isel'], kind=['slice'], delayed=[True], chunk=[2]) +
            product(op=['isel'], kind=['list', 'array'], count=[2],
                    delayed=[False, True]) +
            product(op=['delete'], kind=['list', 'array'], count=[1, 2],
                    delayed=[False, True]) +
            product(op=['isel', 'delete'], kind=['list'], count=[2],
                    delayed=[False, True], rows=[2], dim=['x', 'y']),
            bounds='4 variables (1-D, 2-D, transposed, without the selected '
            'dimension), 2 to 4 rows, any start/stop within one of the size, '
            'steps 1 and 2, any list of up to 2 positions (from both ends), any cell values in '
            '[-50, 50]'),
    Harness('concat', concat,
            quick=product(sizes=[(2, 1), (1, 2, 1), (2, 2, 2)], delayed=[False, True]) +
            product(sizes=[(3, 2)], delayed=[True], chunk=[2]) +
            product(sizes=[(2, 2)], delayed=[False, True], bare=[True]) +
            product(sizes=[(0, 2), (2, 0)], delayed=[False]),
            bounds='2 or 3 datasets of 0 to 3 rows'),
    Harness('mismatch', mismatch,
            quick=product(op=['concat-shape', 'concat-alone', 'concat-missing', 'concat-kind',
                              'merge-name', 'merge-dim', 'merge-kind',
                              'build', 'add-shape', 'rename'],
                          delayed=[False, True]), bounds='2 rows'),
    Harness('others', others,
            quick=product(op=['merge', 'select', 'by_dims', 'rename',
                              'compute', 'rechunk', 'persist', 'persist-var',
                              'insertion', 'to_dict', 'add'],
                          delayed=[False, True]) +
            product(op=['compute', 'rechunk', 'persist', 'to_dict'],
                    delayed=[True], chunk=[2]), bounds='3 rows'),
]
OUTSIDE = 'xarray conversions; larger datasets; negative steps'
