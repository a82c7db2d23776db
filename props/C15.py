"""C15: loading through an indexer gives exactly the rows designated."""
import zcollection

from .common import *  # noqa: F401,F403
from .common import Harness, cells, meta, numpy, product
from . import coll

SLICES = [(0, 1), (1, 3), (0, 3), (2, 2), (None, None), (-1, None), (1, 9)]


def _indexer(h, schema, model):
    """Arbitrary indexer, and the rows it designates by partition."""
    items, want = [], {}
    for n, key in enumerate(sorted(model)):
        for i in range(h.config['slices'][n]):
            sl = slice(*h.choice(f'i{n}_{i}', SLICES))
            items.append((schema.scheme(key), sl))
            want.setdefault(key, []).extend(model[key][sl])
    if h.config.get('reverse'):
        items = sorted(items, key=lambda x: x[0], reverse=True)
    if h.config.get('numpy'):
        items = [(tuple((n, numpy.int64(v)) for n, v in k), s)
                 for k, s in items]
    return items, want


def collection(h):
    cfg = h.config
    schema = coll.Schema(cfg['kind'], immutable=cfg.get('immutable', False))
    model = coll.fixed(h, schema, cfg['sizes'])
    col = coll.build(h, schema, model, cfg.get('fs', 'memory'))
    items, want = _indexer(h, schema, model)
    chosen = sorted(model)
    kwargs = {}
    if cfg.get('filters'):
        chosen = coll.predicate(h, 'sel', chosen)
        kwargs['filters'] = coll.as_filter(schema, chosen)
    names = cfg.get('names')
    if names:
        kwargs['selected_variables'] = names
    zds = col.load(indexer=iter(items) if cfg.get('lazy') else items,
                   delayed=cfg['delayed'], **kwargs)
    keys = [k for k in sorted(want) if k in chosen]
    h.check((zds is None) == (not keys), 'nothing designated')
    if keys:
        coll.check_rows(h, schema, zds, [r for k in keys for r in want[k]],
                        'indexed', variables=names)
        h.check(set(zds.variables) == set(names or schema.metadata_dataset(
        ).variables), 'variables')
        if schema.immutable and not names:
            h.check(h.all([h.same(a, b) for a, b in zip(
                cells(coll.raw(zds.variables['c'])), (7, 8))]), 'immutable')
    h.done()


def view(h):
    cfg = h.config
    schema = coll.Schema(cfg['kind'])
    model = coll.fixed(h, schema, cfg['sizes'])
    col = coll.build(h, schema, model)
    inside = sorted(coll.predicate(h, 'in', sorted(model)))
    path = col.partition_properties.dir + '-view'
    out = zcollection.create_view(
        path, zcollection.view.ViewReference(col.partition_properties.dir,
                                             col.fs),
        filesystem=col.fs, filters=coll.as_filter(schema, inside))
    out.add_variable(meta.Variable('n', numpy.dtype('int64'),
                                   dimensions=('x', ), fill_value=-7))
    coll.start(h, schema)
    if inside:
        out.update(_new_n)
    value = {r.id: coll.fresh([s.id for s in model[k]], r.id)
             for k in inside for r in model[k]}
    for v in value.values():
        h.assume(h.not_(h.same(v, numpy.int64(-7))))
    items, want = _indexer(h, schema, model)
    chosen = inside
    kwargs = {}
    if cfg.get('filters'):
        chosen = [k for k in coll.predicate(h, 'sel', sorted(model))
                  if k in inside]
        kwargs['filters'] = coll.as_filter(schema, chosen)
    if cfg.get('names'):
        kwargs['selected_variables'] = cfg['names']
    zds = out.load(indexer=iter(items) if cfg.get('lazy') else items,
                   delayed=cfg['delayed'], **kwargs)
    keys = [k for k in sorted(want) if k in chosen]
    h.check((zds is None) == (not keys), 'nothing designated')
    if keys:
        rows = [r for k in keys for r in want[k]]
        if not cfg.get('names'):
            coll.check_rows(h, schema, zds, rows, 'indexed')
        else:
            h.check(set(zds.variables) == set(cfg['names']), 'variables')
        got = cells(zds.variables['n'].values)
        h.check(len(got) == len(rows), 'indexed: length')
        h.check(h.all([h.same(a, value[r.id]) for a, r in zip(got, rows)]),
                'indexed: variable of the view')
    h.done()


def _new_n(zds):
    ids = coll.seen(zds)
    return {'n': coll.STATE['h'].array([coll.fresh(ids, i) for i in ids],
                                       dtype='int64')}


HARNESSES = [
    Harness('collection', collection,
            quick=product(kind=['seq'], sizes=[(3, 2)], slices=[(2, 1)],
                          delayed=[True], reverse=[True], lazy=[True]) +
            product(kind=['date/D'], sizes=[(3, 3)], slices=[(1, 1)],
                    delayed=[False], numpy=[True], filters=[True]) +
            product(kind=['seq2'], sizes=[(2, 3, 1)], slices=[(1, 0, 1)],
                    delayed=[False, True], immutable=[True]) +
            product(kind=['seq'], sizes=[(2, 3)], slices=[(1, 1), (0, 0)],
                    delayed=[False, True], names=[('id', 'v')], fs=['file']),
            thorough=product(kind=['seq', 'date/M'], sizes=[(3, 2, 3)],
                             slices=[(2, 1, 1)], delayed=[True, False],
                             reverse=[True], immutable=[True]),
            client=True,
            bounds='up to 3 slices of 7 shapes over 2-3 partitions of 1-3 '
            'rows (4 slices thorough), any content, any filter'),
    Harness('view', view,
            quick=product(kind=['seq'], sizes=[(2, 3)], slices=[(1, 1)],
                          delayed=[True, False], filters=[False],
                          lazy=[True]) +
            product(kind=['seq'], sizes=[(2, 1)], slices=[(1, 1)],
                    delayed=[False], filters=[True]) +
            product(kind=['date/D'], sizes=[(3, 1)], slices=[(2, 0)],
                    delayed=[True, False], names=[('n', )]),
            thorough=product(kind=['seq', 'date/D'], sizes=[(2, 3, 2)],
                             slices=[(1, 1, 1)], delayed=[True, False],
                             filters=[True]),
            client=True,
            bounds='2 slices over 2 partitions (3 thorough), any subset of '
            'the partitions in the view'),
]
OUTSIDE = ('slices with a step; indexers naming partitions that do not exist; '
           'more partitions')
