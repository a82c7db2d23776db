"""C08: map and map_overlap present each partition with its neighbours."""
from .common import *  # noqa: F401,F403
from .common import Harness, product
from . import coll
from symx.harness import cells


def see(zds, *args, **kwargs):
    return (coll.seen(zds), cells(coll.raw(zds.variables['v'])),
            sorted(zds.variables), args, dict(kwargs, lazy=coll.lazy(zds)))


def see_info(zds, *args, partition_info=None, **kwargs):
    kwargs['info'] = partition_info
    return see(zds, *args, **kwargs)


def _run(h, overlap):
    schema = coll.Schema(h.config.get('kind', 'seq'))
    model = coll.fixed(h, schema, h.config['sizes'])
    col = coll.build(h, schema, model)
    chosen = sorted(coll.predicate(h, 'sel', sorted(model)))
    if not chosen:
        return
    filters = coll.as_filter(schema, chosen)
    variables = h.config.get('selected')
    kwargs = {}
    depth = 0
    if overlap:
        depth = h.concrete_int('depth', 0, h.config['depth'])
        kwargs['depth'] = depth
    size = h.choice('size', [None, 1, 2])
    func = see_info if h.config.get('info') else see
    method = col.map_overlap if overlap else col.map
    bag = method(func, 3, filters=filters, selected_variables=variables,
                 delayed=h.config.get('delayed', True), partition_size=size,
                 other=4, **kwargs)
    got = bag.compute()
    h.check([g[0] for g in got] == [schema.scheme(k) for k in chosen],
            'one result per selected partition, in order, with its scheme')
    for key, (_, (ids, v, names, args, kw)) in zip(chosen, got):
        near = coll.window(chosen, key, depth)
        rows = [r for k in near for r in model[k]]
        h.check(ids == [r.id for r in rows], 'rows of the neighbourhood')
        h.check(h.all([h.same(a, r.v) for a, r in zip(v, rows)]),
                'content of the neighbourhood')
        h.check(args == (3, ) and kw.pop('other') == 4, 'arguments')
        if func is see_info:
            info = kw.pop('info')
            at = sum(len(model[k]) for k in near if k < key)
            if overlap:
                h.check(info[0] == 'x' and info[1].start == at
                        and info[1].stop == at + len(model[key]),
                        'partition_info locates the partition')
        h.check(kw.pop('lazy') <= {h.config.get('delayed', True)},
                'data computed on demand or not, as asked')
        h.check(not kw, 'no other argument')
        if variables:
            h.check(names == sorted(variables), 'selected variables only')
        else:
            h.check(names == ['id', 'time', 'v', 'w'] + [] or
                    set(names) >= {'id', 'time', 'v', 'w'},
                    'all the variables')
    h.done()


def map(h):
    _run(h, False)


def map_overlap(h):
    _run(h, True)


HARNESSES = [
    Harness('map', map,
            quick=product(sizes=[(1, 2, 1)], delayed=[True, False],
                          kind=['seq', 'date/D']) +
            product(sizes=[(1, 2, 1)], selected=[('id', 'v')]),
            thorough=product(sizes=[(1, 2, 1, 2)], kind=['seq', 'seq2'],
                             delayed=[True, False]),
            client=True, bounds='3 partitions (4 thorough) of 1-2 rows, any '
            'subset selected, any content'),
    Harness('map_overlap', map_overlap,
            quick=product(sizes=[(1, 2, 1)], delayed=[True, False],
                          depth=[2], info=[True]) +
            product(sizes=[(2, 1, 1)], kind=['date/M'], depth=[1]) +
            product(sizes=[(1, 1, 1)], selected=[('id', 'v')], depth=[1],
                    info=[True]),
            thorough=product(sizes=[(1, 2, 1, 2)], kind=['seq', 'seq2'],
                             depth=[3], info=[True, False]),
            client=True, bounds='3 partitions (4 thorough) of 1-2 rows, any '
            'subset selected, depth 0-2 (3 thorough), any content'),
]
OUTSIDE = 'more partitions or rows'
