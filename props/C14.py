"""C14: an index query designates exactly the indexed rows."""
from zcollection.indexing import Indexer

from .common import *  # noqa: F401,F403
from .common import Harness, numpy, product
from . import coll

DTYPE = [('start', 'int64'), ('stop', 'int64'), ('a', 'int64'),
         ('b', 'int64')]


class Record:
    """Structured array able to hold symbolic cells."""

    def __init__(self, h, rows, dtype):
        self.dtype = numpy.dtype(dtype)
        self.size = len(rows)
        self.shape = (self.size, )
        self.ndim = 1
        self._data = {n: h.array([r[i] for r in rows], dtype=t)
                      if rows else numpy.empty(0, t)
                      for i, (n, t) in enumerate(dtype)}

    def __len__(self):
        return self.size

    def __getitem__(self, name):
        return self._data[name]


def index_of(zds, dtype=None, **kwargs):
    """Function indexing a partition: any list of intervals."""
    h = coll.STATE['h']
    key = coll.STATE['where'][coll.seen(zds)[0]]
    rows = coll.STATE['index'][key]
    coll.STATE['calls'].append(key)
    if h.symbolic:
        return Record(h, rows, dtype)
    return numpy.array([tuple(r) for r in rows], dtype=dtype)


class AnyIndexer(Indexer):

    def dtype(self, /, **kwargs):
        return super().dtype() + DTYPE[2:]

    @classmethod
    def create(cls, path, zds, *, filesystem=None, **kwargs):
        return super()._create(path, zds, meta=kwargs.get('meta'),
                               filesystem=filesystem)

    def update(self, zds, *, partition_size=None, npartitions=None, **kwargs):
        super()._update(zds, index_of, partition_size, npartitions,
                        dtype=self.dtype(), **kwargs)


def _intervals(h, tag, n, size):
    out = []
    for i in range(n):
        start = h.int(f'{tag}s{i}', 0, size, dtype='int64')
        stop = h.int(f'{tag}e{i}', 0, size, dtype='int64')
        h.assume(start < stop)
        out.append((start, stop, h.int(f'{tag}a{i}', -2**62, 2**62,
                                       dtype='int64'),
                    h.int(f'{tag}b{i}', -2**62, 2**62, dtype='int64')))
    return out


def _setup(h, sizes):
    schema = coll.Schema(h.config['kind'], wdims=0)
    model = coll.fixed(h, schema, sizes, payload=False)
    col = coll.build(h, schema, model)
    coll.start(h, schema)
    coll.STATE['where'] = {r.id: k for k, rows in model.items() for r in rows}
    coll.STATE['index'] = {}
    return schema, model, col


def _matches(h, row, query, op):
    conds = []
    for name, vals in query.items():
        cell = row[2] if name == 'a' else row[3]
        vals = vals if isinstance(vals, (list, tuple)) else [vals]
        conds.append(h.any([h.same(cell, v) for v in vals]))
    if not conds:
        return True
    out = conds[0]
    for c in conds[1:]:
        if op == 'and':
            out = h.all([out, c])
        elif op == 'or':
            out = h.any([out, c])
        elif op == 'xor':
            out = h.any([h.all([out, h.not_(c)]), h.all([h.not_(out), c])])
        else:
            out = h.all([out, h.not_(c)])
    return out


def _check(h, schema, model, index, result, query, op, what):
    result = [(tuple((str(n), int(v)) for n, v in k), s) for k, s in result]
    known = {schema.scheme(k) for k in model}
    h.check(all(k in known for k, _ in result), f'{what}: unknown partition')
    order = [k for k, _ in result]
    h.check(order == sorted(order), f'{what}: order of the partitions')
    for key, rows in model.items():
        slices = [s for k, s in result if k == schema.scheme(key)]
        for r in range(len(rows)):
            covering = [h.all([i[0] <= r, r < i[1],
                               _matches(h, i, query, op)])
                        for i in index.get(key, ())]
            inside = [h.all([s.start <= r, r < s.stop]) for s in slices]
            h.check(h.iff(h.any(covering), h.any(inside)),
                    f'{what}: row {r} of {key}')
            h.check(h.all([h.not_(h.all([x, y])) for n, x in enumerate(inside)
                           for y in inside[n + 1:]]),
                    f'{what}: row {r} of {key} designated twice')
        h.check(h.all([s0.stop <= s1.start
                       for s0, s1 in zip(slices, slices[1:])]),
                f'{what}: slices of {key} not in order')


def _query(h, cfg):
    q = {}
    for name in cfg['columns']:
        if h.config.get('lists'):
            q[name] = [h.int(f'q{name}{i}', -2**62, 2**62)
                       for i in range(2)]
        else:
            q[name] = h.int(f'q{name}', -2**62, 2**62)
    return q


def query(h):
    """Any index, any query."""
    cfg = h.config
    schema, model, col = _setup(h, cfg['sizes'])
    index = coll.STATE['index']
    for n, key in enumerate(sorted(model)):
        index[key] = _intervals(h, f'p{n}', cfg['entries'][n],
                                len(model[key]))
    path = col.partition_properties.dir + '-index'
    indexer = AnyIndexer.create(path, col, filesystem=col.fs)
    indexer.update(col, npartitions=h.choice('np', [None, 1]))
    if h.bool('reopen'):
        if not any(index.values()):
            h.done()
            return
        indexer = AnyIndexer.open(path, filesystem=col.fs)
    op = cfg.get('op', 'and')
    q = _query(h, cfg)
    if not any(index.values()):
        h.check(h.raises(Exception, lambda: indexer.table), 'empty index')
        h.done()
        return
    if cfg.get('full'):
        result = indexer.query(q, logical_op=op, only_partition_keys=False)
        result = [(dict(k), s) for k, s in result]
        names = schema.names()
        for key, rows in model.items():
            mine = [(d, s) for d, s in result
                    if tuple(int(d[n]) for n in names) == key]
            entries = [(i, _matches(h, i, q, op)) for i in index[key]]
            for r in range(len(rows)):
                for i, ok in entries:
                    h.check(h.implies(
                        h.all([ok, i[0] <= r, r < i[1]]),
                        h.any([h.all([h.same(d['a'], i[2]),
                                      h.same(d['b'], i[3]),
                                      s.start <= r, r < s.stop])
                               for d, s in mine])), f'full: missing {r}')
                for d, s in mine:
                    h.check(h.implies(
                        h.all([s.start <= r, r < s.stop]),
                        h.any([h.all([ok, h.same(d['a'], i[2]),
                                      h.same(d['b'], i[3]), i[0] <= r,
                                      r < i[1]]) for i, ok in entries])),
                        f'full: {r} is not indexed')
    else:
        result = indexer.query(q, logical_op=op if len(q) > 1 else None)
        _check(h, schema, model, index, result, q, op, 'query')
    h.done()


def update(h):
    """Updating replaces what was known of the partitions processed."""
    cfg = h.config
    schema, model, col = _setup(h, cfg['sizes'])
    index = coll.STATE['index']
    path = col.partition_properties.dir + '-index'
    indexer = AnyIndexer.create(path, col, filesystem=col.fs,
                                meta={'attribute': b'value'})
    keys = sorted(model)
    known = {}
    for step in range(cfg['steps']):
        for n, key in enumerate(keys):
            count = 1 if cfg.get('dense') and not step else h.concrete_int(
                f'n{step}_{n}', 0, 1)
            index[key] = _intervals(h, f's{step}p{n}', count,
                                    len(model[key]))
        chosen = keys
        kwargs = {}
        if step:
            chosen = sorted(coll.predicate(h, f'sel{step}', keys))
            kwargs['filters'] = coll.as_filter(schema, chosen)
            if not chosen:
                continue
        coll.STATE['calls'].clear()
        indexer.update(col, **kwargs)
        h.check(sorted(coll.STATE['calls']) == chosen, 'partitions processed')
        for key in chosen:
            known[key] = index[key]
        if cfg['reopen'] and any(known.values()):
            indexer = AnyIndexer.open(path, filesystem=col.fs)
            h.check(indexer.meta.get('attribute') == b'value',
                    'metadata of the index')
        if col.fs.exists(path):
            _check(h, schema, model, known, indexer.query({}), {}, 'and',
                   f'step {step}: everything')
        else:
            h.check(not any(known.values()), 'the index exists')
    h.done()


class BinaryIndexer(AnyIndexer):

    def dtype(self, /, **kwargs):
        return Indexer.dtype(self) + [('a', 'S2')]


def binary(h):
    """Index of byte strings."""
    schema, model, col = _setup(h, (3, 2))
    index = coll.STATE['index']
    words = (b'aa', b'ab', b'b')
    for n, key in enumerate(sorted(model)):
        index[key] = [(s, e, h.choice(f'w{n}', words), None)
                      for s, e, _, _ in _intervals(h, f'p{n}', 1,
                                                   len(model[key]))]
    path = col.partition_properties.dir + '-index'
    indexer = BinaryIndexer.create(path, col, filesystem=col.fs)
    full, coll.STATE['index'] = index, {k: [r[:3] for r in v]
                                        for k, v in index.items()}
    indexer.update(col)
    if h.config['reopen']:
        indexer = BinaryIndexer.open(path, filesystem=col.fs)
    asked = {'a': h.choice('q', list(words) + [[b'aa', b'b'], [b'zz']])}
    _check(h, schema, model, full, indexer.query(asked), asked, 'and',
           'binary query')
    h.done()


HARNESSES = [
    Harness('binary', binary, quick=product(kind=['seq'],
                                            reopen=[True, False]),
            client=True, bounds='2 entries of 3 byte strings, any bounds'),
    Harness('query', query,
            quick=product(kind=['seq'], sizes=[(4, )], entries=[(3, )],
                          columns=[('a', )], lists=[False]) +
            product(kind=['seq2'], sizes=[(3, 3)], entries=[(1, 2)],
                    columns=[('a', )], lists=[True]) +
            product(kind=['seq'], sizes=[(3, 3)], entries=[(2, 1)],
                    columns=[()]) +
            product(kind=['date/D'], sizes=[(3, 3, 2)],
                    entries=[(1, 1, 1)], columns=[('a', 'b')],
                    op=['and', 'or', 'xor', 'and_not']) +
            product(kind=['seq'], sizes=[(3, )], entries=[(3, )],
                    columns=[('a', )], full=[True]) +
            product(kind=['seq'], sizes=[(3, 2)], entries=[(0, 2), (0, 0)],
                    columns=[('b', )]),
            thorough=product(kind=['seq'], sizes=[(6, )], entries=[(4, )],
                             columns=[('a', ), ('a', 'b')], lists=[False]) +
            product(kind=['date/D'], sizes=[(4, 3, 2)],
                    entries=[(2, 1, 1)], columns=[('a', 'b')],
                    op=['and', 'or', 'xor', 'and_not']),
            client=True, samples=2,
            bounds='up to 3 index entries (4 thorough) with any bounds '
            '(nested, overlapping, touching, disjoint) and values, over 1-3 '
            'partitions of up to 4 rows (6), any value queried'),
    Harness('update', update,
            quick=product(kind=['seq'], sizes=[(2, 2)], steps=[2],
                          reopen=[True, False]) +
            product(kind=['seq2', 'date/D'], sizes=[(1, 1, 2)], steps=[2],
                    reopen=[False], dense=[True]),
            thorough=product(kind=['seq'], sizes=[(2, 2, 2)], steps=[2],
                             reopen=[True, False]) +
            product(kind=['date/M', 'seq2'], sizes=[(2, 2)], steps=[3],
                    reopen=[True]),
            client=True, samples=2,
            bounds='2-3 partitions with 0-1 entry each, 2 updates of any '
            'selection (3 updates or partitions thorough)'),
]
OUTSIDE = ('masks given to query; partitions removed from the '
           'collection since the index was built; more entries')
