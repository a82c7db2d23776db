"""C04: merging a time series replaces only the re-inserted period(s)."""
from .common import *  # noqa: F401,F403
from .common import (Harness, cells, dataset, numpy, product, values_of,
                     variable)
from zcollection.merging import merge_time_series


def _series(h, name, n, unit, delayed, first_id, lo, hi, dup):
    times = h.ints(name, n, lo, hi, dtype=f'M8[{unit}]')
    for i in range(n - 1):
        h.assume(times[i] <= times[i + 1] if dup else times[i] < times[i + 1])
    ids = numpy.arange(first_id, first_id + n)
    zds = dataset.Dataset([
        variable('time', times, ('x', ), delayed),
        variable('id', ids, ('x', ), delayed),
        variable('m', numpy.stack([ids * 10, ids * 10 + 1], 1), ('x', 'y'),
                 delayed),
    ])
    return zds, [times[i] for i in range(n)]


def check_merge(h, got, existing, inserted, segments):
    """got: [(id, time)]; existing/inserted: times by row; segments: rows of
    the inserted series belonging to a same uninterrupted piece."""
    ids = [i for i, _ in got]
    n, m = len(existing), len(inserted)
    h.check(len(set(ids)) == len(ids), 'no row is duplicated')
    h.check(all(100 + j in ids for j in range(m)),
            'every inserted row is present')
    h.check(all(i < n or 100 <= i < 100 + m for i in ids),
            'no row comes out of nowhere')
    for i in range(n):
        replaced = h.any([
            h.all([inserted[seg[0]] <= existing[i],
                   existing[i] <= inserted[seg[-1]]]) for seg in segments])
        if i in ids:
            h.check(h.not_(replaced),
                    'existing rows of the re-inserted period are replaced')
        else:
            h.check(replaced, 'existing rows outside of the re-inserted '
                    'period are kept')
    for a, b in zip(got, got[1:]):
        h.check(a[1] <= b[1], 'the merged series is sorted')
    for i, t in got:
        h.check(h.same(t, existing[i] if i < n else inserted[i - 100]),
                'rows keep their own date')


def _segments(h, inserted, tolerance):
    segs = [[0]]
    for j in range(1, len(inserted)):
        if tolerance is not None and h.decide(
                inserted[j] - inserted[j - 1] > tolerance):
            segs.append([j])
        else:
            segs[-1].append(j)
    return segs


def merge(h):
    n, m, unit, delayed = (h.config['existing'], h.config['inserted'],
                           h.config['unit'], h.config['delayed'])
    dup = h.config.get('dup', False)
    span = h.config.get('span', 10**12)
    old, told = _series(h, 'old', n, unit, delayed, 0, 0, span, dup)
    new, tnew = _series(h, 'new', m, unit, delayed, 100, 0, span, dup)
    tol = h.config.get('tolerance')
    kwargs = {}
    tolerance = None
    if tol:
        tolerance = numpy.timedelta64(tol, unit)
        kwargs['tolerance'] = tolerance
    out = merge_time_series(old, new, 'time', 'x', **kwargs)
    ids = [int(v) for v in cells(values_of(out.variables['id']))]
    times = cells(values_of(out.variables['time']))
    mat = [int(v) for v in cells(values_of(out.variables['m']))]
    h.check(len(times) == len(ids), 'variables stay aligned')
    h.check(mat == [v for i in ids for v in (i * 10, i * 10 + 1)],
            'variables stay aligned')
    check_merge(h, list(zip(ids, times)), told, tnew,
                _segments(h, tnew, tolerance))
    h.check([int(v) for v in cells(values_of(old.variables['id']))] ==
            list(range(n)), 'the existing dataset is not altered')
    h.done()


HARNESSES = [
    Harness('merge', merge,
            quick=product(existing=[1, 2, 3], inserted=[1, 2], unit=['ns'],
                          delayed=[False]) +
            product(existing=[3], inserted=[3], unit=['s'], delayed=[False]) +
            product(existing=[2, 3], inserted=[2], unit=['D'], delayed=[True]) +
            product(existing=[3], inserted=[2], unit=['ns'], delayed=[False],
                    dup=[True]) +
            product(existing=[2, 3], inserted=[3], unit=['s'],
                    delayed=[False], tolerance=[5]),
            thorough=product(existing=[4, 5], inserted=[3], unit=['ns'],
                             delayed=[False, True]) +
            product(existing=[4], inserted=[4], unit=['s'], delayed=[False],
                    tolerance=[1, 5]),
            samples=4,
            bounds='up to 3 existing and 3 inserted rows (5+3, 4+4 thorough) '
            'at any dates in [0, 10^12] units, with or without tolerance'),
]
OUTSIDE = ('longer series; unsorted series')
