"""Collections under test, their reference model and the comparison of both.

The reference model of a collection is ``{partition key: [Row, ...]}``.
Every row carries a concrete identifier, so that rows can be followed, and
symbolic payloads, so that a verdict holds for every content."""
import datetime

import numpy

import zcollection
from zcollection import dataset, meta, partitioning

from symx.harness import cells

from .common import variable

EPOCH = int(numpy.datetime64('2020-01-30T00:00:00', 'ns').astype('int64'))
DAY = 86400 * 10**9
#: sizes of the dimensions that are not partitioned
SIZES = {'y': 2, 'z': 3}


class Row:
    __slots__ = ('key', 'id', 'time', 'v', 'w', 'extra')

    def __init__(self, key, id, time, v, w):
        self.key, self.id, self.time, self.v, self.w = key, id, time, v, w
        self.extra = {}

    def copy(self):
        out = Row(self.key, self.id, self.time, self.v, list(self.w))
        out.extra = dict(self.extra)
        return out

    def __repr__(self):
        return f'Row({self.key}, id={self.id})'


class Schema:
    """kind: seq (key k), seq2 (keys k, l), date/<resolution> (key time)."""

    FILL = -999

    def __init__(self, kind='seq', immutable=False, axis='time', dim='x',
                 delayed=True, wdims=2, chunks=None, block=None, more=()):
        #: additional variables (name, dimensions), of known content
        self.more = tuple((n, tuple(d)) for n, d in more)
        self.kind, self.immutable = kind, immutable
        self.dim, self.delayed, self.wdims = dim, delayed, wdims
        self.axis = axis
        self.keys = {'seq': ('k', ), 'seq2': ('k', 'l')}.get(kind, ())
        self.chunks, self.block = chunks, block

    def handler(self):
        if self.kind.startswith('date'):
            return partitioning.Date((self.axis, ), self.kind.split('/')[1])
        return partitioning.Sequence(self.keys)

    # -- datasets -----------------------------------------------------------
    def to_dataset(self, h, rows, c=(7, 8), delayed=None, skip=(),
                   block=None):
        delayed = self.delayed if delayed is None else delayed
        block = block or self.block
        x = self.dim
        n = len(rows)

        def vec(vals, dtype):
            return h.array(list(vals), dtype=dtype)
        var = [
            variable(self.axis, vec([r.time for r in rows], 'M8[ns]'), (x, ),
                     delayed),
            variable('id', numpy.array([r.id for r in rows], 'int64'), (x, ),
                     delayed),
            variable('v', vec([r.v for r in rows], 'int64'), (x, ), delayed,
                     fill_value=self.FILL),
        ]
        if self.wdims and 'w' not in skip:
            flat = vec([c for r in rows for c in r.w], 'int64')
            var.append(variable('w', flat.reshape((n, self.wdims)), (x, 'y'),
                                delayed, fill_value=self.FILL))
        for name, dims in self.more:
            shape = tuple(n if d == x else SIZES[d] for d in dims)
            data = numpy.empty(shape, 'int64')
            for ix, r in enumerate(rows):
                sel = tuple(ix if d == x else slice(None) for d in dims)
                data[sel] = self.known(name, dims, r.id).reshape(
                    data[sel].shape)
            item = variable(name, data, dims, delayed)
            if self.more_first:
                var.insert(0, item)
            else:
                var.append(item)
        for i, k in enumerate(self.keys):
            var.append(variable(k, vec([r.key[i] for r in rows], 'int64'),
                                (x, ), delayed))
        if self.immutable:
            var.append(variable('c', vec(list(c), 'int64'), ('y', ), delayed))
        var = [item for item in var if item.name not in skip]
        if delayed and block:
            for item in var:
                item.array = item.array.rechunk(
                    tuple(block if d == x else -1 for d in item.dimensions))
        return dataset.Dataset(var, attrs=[dataset.Attribute('title', 'T')],
                               delayed=delayed, chunks=[
                                   dataset.Dimension(*c) for c in
                                   (self.chunks or {}).items()])

    more_first = False

    def known(self, name, dims, id):
        """Content of an additional variable for the row id."""
        n = 1
        for d in dims:
            n *= 1 if d == self.dim else SIZES[d]
        return numpy.arange(n) + 1000 * id + sum(map(ord, name))

    def metadata_dataset(self):
        """Dataset with this structure (concrete content)."""
        class H:
            @staticmethod
            def array(seq, dtype=None):
                return numpy.array(seq, dtype=dtype)
        row = Row((0, ) * len(self.keys), 0, numpy.datetime64(EPOCH, 'ns'), 0,
                  [0] * self.wdims)
        return self.to_dataset(H, [row])

    def create(self, h, fs='memory', synchronizer=None, path=None, **kw):
        if isinstance(fs, str):
            fs, base = h.filesystem(fs)
        else:
            fs, base = fs
        col = zcollection.create_collection(
            self.axis, self.metadata_dataset(), self.handler(), path or base,
            filesystem=fs, synchronizer=synchronizer, **kw)
        return col

    # -- rows ---------------------------------------------------------------
    def rows(self, h, tag, n, first_id=0, domain=(1, 2, 3), sort=True,
             payload=True, step=DAY):
        """n rows whose keys range over the sorted sequences of domain."""
        out = []
        for i in range(n):
            if self.kind.startswith('date'):
                day = h.among(f'{tag}t{i}', [int(EPOCH + d * step)
                                             for d in domain],
                              dtype='M8[ns]')
                key, time = (day, ), day
            else:
                key = tuple(h.among(f'{tag}{k}{i}', list(domain),
                                    dtype='int64') for k in self.keys)
                time = numpy.datetime64(int(EPOCH + (first_id + i) * DAY),
                                        'ns')
            if payload:
                v = h.int(f'{tag}v{i}', -2**62, 2**62, dtype='int64')
                w = [h.int(f'{tag}w{i}_{j}', -2**62, 2**62, dtype='int64')
                     for j in range(self.wdims)]
            else:
                v = first_id + i
                w = [10 * (first_id + i) + j for j in range(self.wdims)]
            out.append(Row(key, first_id + i, time, v, w))
        if sort:
            from .common import lex_le
            for a, b in zip(out, out[1:]):
                h.assume(lex_le(h, a.key, b.key))
        for r in out:  # one path per sequence of keys
            if self.kind.startswith('date'):
                day = _concrete(h, r.time)
                r.time = numpy.datetime64(day, 'ns')
                r.key = self.date_key(r.time)
            else:
                r.key = tuple(_concrete(h, k) for k in r.key)
        return out

    def date_key(self, time):
        res = self.kind.split('/')[1]
        item = time.astype('M8[s]').item()
        count = ['Y', 'M', 'D', 'h', 'm', 's'].index(res) + 1
        return (item.year, item.month, item.day, item.hour, item.minute,
                item.second)[:count]

    def row(self, h, tag, id, key, time=None, payload=True):
        """One row of a given key."""
        if self.kind.startswith('date'):
            full = list(key) + [1, 1, 0, 0, 0][len(key) - 1:]
            time = numpy.datetime64(datetime.datetime(*full), 'ns')
        elif time is None:
            time = numpy.datetime64(int(EPOCH + id * DAY), 'ns')
        if payload:
            v = h.int(f'{tag}v', -2**62, 2**62, dtype='int64')
            w = [h.int(f'{tag}w_{j}', -2**62, 2**62, dtype='int64')
                 for j in range(self.wdims)]
        else:
            v = id
            w = [10 * id + j for j in range(self.wdims)]
        return Row(tuple(key), id, time, v, w)

    # -- names --------------------------------------------------------------
    def names(self):
        if self.kind.startswith('date'):
            n = ['Y', 'M', 'D', 'h', 'm', 's'].index(
                self.kind.split('/')[1]) + 1
            return ('year', 'month', 'day', 'hour', 'minute', 'second')[:n]
        return self.keys

    def relpath(self, key):
        pad = '02d' if self.kind.startswith('date') else 'd'
        return '/'.join(f'{n}={format(k, pad)}'
                        for n, k in zip(self.names(), key))

    def scheme(self, key):
        return tuple(zip(self.names(), key))


def _concrete(h, value):
    if h.symbolic:
        from symx import values
        from symx.core import current
        term, _ = values.lift(value)
        return current().value(term) if not isinstance(term, int) else term
    return int(numpy.asarray(value).astype('int64'))


def group(rows, model=None):
    """Model after the insertion of rows (overwriting)."""
    new = {}
    for r in rows:
        new.setdefault(r.key, []).append(r)
    out = dict(model or {})
    out.update(new)
    return out


def insert(h, schema, col, rows, c=(7, 8), skip=(), **kw):
    return list(col.insert(schema.to_dataset(h, rows, c=c, skip=skip), **kw))


# -- observation ------------------------------------------------------------
def raw(var):
    arr = var.array
    return arr.compute() if hasattr(arr, 'compute') else arr


def check_rows(h, schema, zds, rows, what, variables=None, extra=()):
    """The dataset holds exactly these rows, in this order."""
    names = variables if variables is not None else ([schema.axis, 'id', 'v'] +
                          (['w'] if schema.wdims else []) +
                          list(schema.keys))
    if 'id' in names:
        ids = [int(i) for i in cells(raw(zds.variables['id']))]
        want = [r.id for r in rows]
        h.check(ids == want, f'{what}: rows {ids} instead of {want}')
    conds = []
    for name in names:
        got = raw(zds.variables[name])
        if name == 'w':
            want = [c for r in rows for c in r.w]
            h.check(tuple(got.shape) == (len(rows), schema.wdims),
                    f'{what}: shape of w')
        elif name == 'v':
            want = [r.v for r in rows]
        elif name == 'id':
            continue
        elif name == schema.axis:
            want = [r.time for r in rows]
        else:
            want = [r.key[schema.keys.index(name)] for r in rows]
        got = cells(got)
        h.check(len(got) == len(want), f'{what}: length of {name}')
        conds += [h.same(a, b) for a, b in zip(got, want)]
    for name, dims in (schema.more if variables is None else ()):
        got = raw(zds.variables[name])
        ax = dims.index(schema.dim)
        ok = got.shape == tuple(len(rows) if d == schema.dim else SIZES[d]
                                for d in dims)
        h.check(ok, f'{what}: shape of {name}')
        got = numpy.moveaxis(numpy.asarray([int(x) for x in cells(
            got)]).reshape(got.shape), ax, 0)
        h.check(all((got[ix].ravel() == schema.known(name, dims, r.id)).all()
                    for ix, r in enumerate(rows)), f'{what}: content of {name}')
    for name in extra:
        got = cells(raw(zds.variables[name]))
        want = [r.extra[name] for r in rows]
        h.check(len(got) == len(want), f'{what}: length of {name}')
        conds += [h.same(a, b) for a, b in zip(got, want)]
    h.check(h.all(conds), f'{what}: content of the rows')


def check_listing(h, schema, col, model, what):
    got = [str(item) for item in col.partitions(relative=True)]
    want = [schema.relpath(k) for k in sorted(model)]
    h.check(got == want, f'{what}: partitions {got} instead of {want}')


def check_collection(h, schema, col, model, what, delayed=False, c=(7, 8),
                     variables=None, extra=()):
    """Listing and content of the whole collection."""
    check_listing(h, schema, col, model, what)
    zds = col.load(delayed=delayed)
    if not model:
        h.check(zds is None, f'{what}: empty collection loads nothing')
        return
    h.check(zds is not None, f'{what}: the collection is not empty')
    rows = [r for k in sorted(model) for r in model[k]]
    check_rows(h, schema, zds, rows, what, variables, extra)
    if schema.immutable:
        h.check(h.all([h.same(a, b) for a, b in zip(
            cells(raw(zds.variables['c'])), c)]),
            f'{what}: variables without the partitioned dimension')


def snapshot(fs, base):
    """{relative path: bytes} of everything below base."""
    out = {}
    base = base.rstrip('/')
    if not fs.exists(base):
        return out
    for path in fs.find(base):
        name = str(path)
        name = name[name.index(base) + len(base):] if base in name else name
        out[name] = fs.cat_file(path)
    return out


# -- user functions ---------------------------------------------------------
#: state shared with the functions called by the workers (same process)
STATE = {}


def start(h, schema):
    STATE.clear()
    STATE.update(h=h, schema=schema, calls=[], values={}, round=0)


def fresh(ctx, id, j=None):
    """Arbitrary result of a user function for the row id in a context."""
    name = f"f{STATE['round'] or ''}_" + '_'.join(map(str, ctx)) + f'__{id}' + (
        '' if j is None else f'_{j}')
    if name not in STATE['values']:
        STATE['values'][name] = STATE['h'].int(name, -2**62, 2**62,
                                               dtype='int64')
    return STATE['values'][name]


def lazy(zds):
    """Kinds of the arrays of a dataset (True: computed on demand)."""
    return {isinstance(v, dataset.DelayedArray) for v in zds.variables.values()}


def seen(zds):
    STATE.setdefault('lazy', set()).update(lazy(zds))
    return [int(i) for i in cells(raw(zds.variables['id']))]


def new_v(zds, *args, **kwargs):
    """Pure update function: any value for each row and each context."""
    ids = seen(zds)
    STATE['calls'].append((ids, None, args, dict(kwargs)))
    return {'v': STATE['h'].array([fresh(ids, i) for i in ids],
                                  dtype='int64')}


def new_v_info(zds, *args, partition_info=None, **kwargs):
    ids = seen(zds)
    STATE['calls'].append((ids, partition_info, args, dict(kwargs)))
    return {'v': STATE['h'].array([fresh(ids, i) for i in ids],
                                  dtype='int64')}


def new_v_trimmed(zds, *args, partition_info=None, **kwargs):
    ids = seen(zds)
    dim, sl = partition_info
    return {'v': STATE['h'].array([fresh(ids, i) for i in ids[sl]],
                                  dtype='int64')}


def new_vw(zds):
    ids = seen(zds)
    n = STATE['schema'].wdims
    w = STATE['h'].array([fresh(ids, i, j) for i in ids for j in range(n)],
                         dtype='int64').reshape((len(ids), n))
    return {'v': STATE['h'].array([fresh(ids, i) for i in ids],
                                  dtype='int64'), 'w': w}


def predicate(h, tag, keys):
    """Arbitrary predicate over these partition keys: set of selected keys."""
    return {k for k in keys if h.bool(f'{tag}_' + '_'.join(map(str, k)))}


def as_filter(schema, selected):
    """Callable filter selecting these keys."""
    names = schema.names()
    selected = frozenset(selected)

    def func(keys):
        return tuple(keys[n] for n in names) in selected
    return func


def window(keys, key, depth):
    """Keys of the neighbourhood of key among the sorted keys."""
    ix = keys.index(key)
    return [keys[i] for i in range(max(0, ix - depth), ix + depth + 1)
            if i < len(keys)]


def fixed(h, schema, sizes, domain=(1, 2, 3, 4, 5), payload=True, tag='p'):
    """Model with len(sizes) partitions holding sizes[i] rows."""
    model, n = {}, 0
    for ix, size in enumerate(sizes):
        if schema.kind.startswith('date'):
            t = numpy.datetime64(EPOCH + domain[ix] * DAY, 'ns')
            key = schema.date_key(t)
        elif schema.kind == 'seq2':
            key = (domain[ix // 2], domain[ix % 2])
        else:
            key = (domain[ix], )
        rows = []
        for _ in range(size):
            rows.append(schema.row(h, f'{tag}{n}', n, key, payload=payload))
            n += 1
        model[key] = rows
    return model


def build(h, schema, model, fs='memory', c=(7, 8), **kw):
    col = schema.create(h, fs, **kw)
    rows = [r for k in sorted(model) for r in model[k]]
    insert(h, schema, col, rows, c=c)
    return col


def _first_key(schema):
    if schema.kind.startswith('date'):
        return schema.date_key(numpy.datetime64(EPOCH + DAY, 'ns'))
    return (1, ) * len(schema.keys)
