"""C01: splitting a dataset files every row once, under its own key."""
from .common import *  # noqa: F401,F403
from .common import (I64, Array, Harness, dataset, lex_le, numpy,
                     partitioning, product, variable)


def _check_split(h, parts, keys, n):
    """parts: [(key tuple, slice)]; keys: per row key tuples."""
    pos = 0
    for key, sl in parts:
        start, stop = int(sl.start), int(sl.stop)
        h.check(sl.step in (None, 1), 'slices are contiguous')
        h.check(start == pos, 'slices are adjacent: no row lost or duplicated')
        h.check(stop > start, 'no empty partition')
        for row in range(start, min(stop, n)):
            h.check(h.all([h.same(a, b) for a, b in zip(key, keys[row])]),
                    'each row is filed in the partition of its own key')
        pos = stop
    h.check(pos == n, 'the slices cover all the rows')
    for i in range(len(parts)):
        for j in range(i):
            h.check(h.any([h.not_(h.same(a, b)) for a, b in zip(
                parts[i][0], parts[j][0])]),
                'a key appears in a single partition')


def _sequence(h, lo, hi, names_too):
    nkeys, n, delayed = (h.config['keys'], h.config['rows'],
                         h.config['delayed'])
    dtypes = h.config.get('dtypes', ['int64'] * nkeys)
    names = ['a', 'b', 'c'][:nkeys]
    cols = [h.ints(f'{name}_', n, lo, hi, dtype=dt)
            for name, dt in zip(names, dtypes)]
    zds = dataset.Dataset([
        variable(name, col, ('x', ), delayed)
        for name, col in zip(names, cols)
    ] + [variable('v', numpy.arange(n * 2).reshape(n, 2), ('x', 'y'),
                  delayed)])
    part = partitioning.Sequence(tuple(names))
    rows = [tuple(c[i] for c in cols) for i in range(n)]
    is_sorted = h.decide(h.all([lex_le(h, rows[i], rows[i + 1])
                                for i in range(n - 1)]))
    try:
        if names_too:
            got = []
            for item, indexer in part.split_dataset(zds, 'x'):
                h.check(tuple(indexer) == ('x', ), 'indexer of the dimension')
                keys = []
                for name, text in zip(names, item):
                    k, _, v = text.partition('=')
                    h.check(k == name, 'partition names carry the key names')
                    keys.append(int(v))
                h.check(len(item) == nkeys, 'one path element per key')
                got.append((tuple(keys), indexer['x']))
        else:
            got = []
            for item, sl in part.index_dataset(zds):
                h.check(tuple(k for k, _ in item) == tuple(names),
                        'partition keys in order')
                got.append((tuple(v for _, v in item), sl))
    except ValueError:
        h.check(not is_sorted, 'sorted keys are never rejected')
        h.done()
        return
    _check_split(h, got, rows, n)
    h.done()


def sequence_wide(h):
    _sequence(h, *I64, False)


def sequence_names(h):
    _sequence(h, h.config.get('lo', -1), h.config.get('hi', 2), True)


_RES = {'Y': 1, 'M': 2, 'D': 3, 'h': 4, 'm': 5, 's': 6}
_UNITS = ['year', 'month', 'day', 'hour', 'minute', 'second']


def date(h):
    res, unit, n, delayed = (h.config['res'], h.config['unit'],
                             h.config['rows'], h.config['delayed'])
    lo = numpy.datetime64(h.config['lo']).astype(f'M8[{unit}]').astype(int)
    hi = numpy.datetime64(h.config['hi']).astype(f'M8[{unit}]').astype(int)
    times = h.ints('t', n, int(lo), int(hi), dtype=f'M8[{unit}]')
    zds = dataset.Dataset([variable('time', times, ('x', ), delayed)])
    part = partitioning.Date(('time', ), res)
    cells = [times[i] for i in range(n)]
    is_sorted = h.decide(h.all([cells[i] <= cells[i + 1]
                                for i in range(n - 1)]))
    try:
        got = []
        for item, indexer in part.split_dataset(zds, 'x'):
            fields = [t.partition('=') for t in item]
            h.check([f[0] for f in fields] == _UNITS[:_RES[res]],
                    'path elements are the date units')
            h.check(all(len(f[2]) >= 2 for f in fields),
                    'fields are zero padded')
            got.append(([int(f[2]) for f in fields], indexer['x']))
    except ValueError:
        h.check(not is_sorted, 'sorted dates are never rejected')
        h.done()
        return
    # oracle: the instant lies in [start of the period, start of the next one)
    bounds = []
    for vals, sl in got:
        full = vals + [1, 1, 0, 0, 0][len(vals) - 1:]
        start = numpy.datetime64(
            f'{full[0]:04d}-{full[1]:02d}-{full[2]:02d}T{full[3]:02d}:'
            f'{full[4]:02d}:{full[5]:02d}' if len(full) > 5 else
            f'{full[0]:04d}-{full[1]:02d}-{full[2]:02d}T{full[3]:02d}:'
            f'{full[4]:02d}:00')
        begin = start.astype(f'M8[{res}]')
        stop = (begin + numpy.timedelta64(1, res)).astype(f'M8[{unit}]')
        bounds.append((begin.astype(f'M8[{unit}]'), stop, sl))
    pos = 0
    for begin, stop, sl in bounds:
        h.check(int(sl.start) == pos and int(sl.stop) > pos,
                'slices are adjacent and not empty')
        for row in range(int(sl.start), min(int(sl.stop), n)):
            h.check(h.all([cells[row] >= begin, cells[row] < stop]),
                    'each row is filed in the partition of its own date')
        pos = int(sl.stop)
    h.check(pos == n, 'the slices cover all the rows')
    h.check(len({tuple(v) for v, _ in got}) == len(got),
            'a date appears in a single partition')
    h.done()


HARNESSES = [
    Harness('sequence_wide', sequence_wide,
            quick=product(keys=[1], rows=[1, 4], delayed=[False, True]) +
            product(keys=[2], rows=[3], delayed=[False, True]),
            thorough=product(keys=[1], rows=[5], delayed=[False, True]) +
            product(keys=[2], rows=[4], delayed=[False, True]) +
            product(keys=[3], rows=[3], delayed=[False, True]),
            bounds='1-3 int64 keys in [-2^62, 2^62], up to 4 rows (5 thorough)'),
    Harness('sequence_names', sequence_names,
            quick=product(keys=[1], rows=[3], delayed=[False, True], lo=[8],
                          hi=[11]) +
            product(keys=[2], rows=[2], delayed=[False, True], lo=[-1],
                    hi=[2]),
            bounds='path names of keys in [8, 11] / [-1, 2], up to 3 rows'),
    Harness('date', date,
            quick=product(res=['Y', 'M', 'D'], unit=['ns'], rows=[3],
                          delayed=[False, True], lo=['2019-12-30T00:00'],
                          hi=['2020-01-02T00:00']) +
            product(res=['h'], unit=['us'], rows=[3], delayed=[False, True],
                    lo=['2020-02-28T22:00'], hi=['2020-02-29T01:00']) +
            product(res=['m'], unit=['s'], rows=[3], delayed=[False, True],
                    lo=['2020-02-29T23:58'], hi=['2020-03-01T00:01']) +
            product(res=['s'], unit=['ms'], rows=[3], delayed=[False, True],
                    lo=['2020-12-31T23:59:58'], hi=['2021-01-01T00:00:01']),
            bounds='3 instants anywhere in windows around year, month, leap '
            'day, hour and minute boundaries'),
]
OUTSIDE = ('more than 5 rows or 3 keys; dates outside of the windows; keys '
           'narrower than 64 bits')
