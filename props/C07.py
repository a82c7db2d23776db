"""C07: update writes exactly the results of the function, where asked."""
from .common import *  # noqa: F401,F403
from .common import Harness, product
from . import coll


def _expected(model, selected, depth, values=('v', )):
    """Model after the update of the selected partitions."""
    out = dict(model)
    order = sorted(selected)
    for key in order:
        ctx = [r.id for k in coll.window(order, key, depth)
               for r in model[k]]
        rows = []
        for r in model[key]:
            new = r.copy()
            if 'v' in values:
                new.v = coll.fresh(ctx, r.id)
            if 'w' in values:
                new.w = [coll.fresh(ctx, r.id, j) for j in range(len(r.w))]
            rows.append(new)
        out[key] = rows
    return out


def update(h):
    schema = coll.Schema(h.config.get('kind', 'seq'))
    model = coll.fixed(h, schema, h.config['sizes'])
    col = coll.build(h, schema, model, h.config.get('fs', 'memory'))
    coll.start(h, schema)
    chosen = coll.predicate(h, 'sel', sorted(model))
    depth = h.config.get('depth', 0)
    kwargs = {}
    if h.config.get('selected'):
        kwargs['selected_variables'] = list(h.config['selected'])
    if h.config.get('named'):
        kwargs['variables'] = tuple(h.config['named'])
    func = getattr(coll, h.config.get('func', 'new_v'))
    npart = h.choice('npart', [None, 1, 2, 5])
    col.update(func, filters=coll.as_filter(schema, chosen), depth=depth,
               delayed=h.config.get('delayed', True), npartitions=npart,
               trim=h.config.get('trim', True), **kwargs)
    if h.config.get('selected'):
        h.check(kwargs['selected_variables'] == list(h.config['selected']),
                'the arguments of the caller are left unchanged')
    h.check(coll.STATE.get('lazy', set()) <= {h.config.get('delayed', True)},
            'data computed on demand or not, as asked')
    want = _expected(model, chosen, depth,
                     ('v', 'w') if func is coll.new_vw else ('v', ))
    coll.check_collection(h, schema, col, want, 'after the update')
    h.done()


def arguments(h):
    """Arguments, neighbourhood and partition_info handed to the function."""
    schema = coll.Schema(h.config.get('kind', 'seq'))
    model = coll.fixed(h, schema, h.config['sizes'], payload=False)
    col = coll.build(h, schema, model)
    coll.start(h, schema)
    chosen = sorted(coll.predicate(h, 'sel', sorted(model)))
    depth = h.concrete_int('depth', 0, h.config['depth'])
    func = coll.new_v_info if h.config['info'] else coll.new_v
    col.update(func, 3, filters=coll.as_filter(schema, chosen), depth=depth,
               variables=('v', ), other=4)
    calls = {}
    for ids, info, args, kwargs in coll.STATE['calls']:
        h.check(args == (3, ) and kwargs == {'other': 4},
                'the arguments are handed to the function')
        calls[tuple(ids), None if info is None else (
            info[0], info[1].start, info[1].stop)] = 1
    want = {}
    for key in chosen:
        near = coll.window(chosen, key, depth)
        ids = tuple(r.id for k in near for r in model[k])
        at = sum(len(model[k]) for k in near if k < key)
        want[ids, ('x', at, at + len(model[key]))
             if h.config['info'] and depth else None] = 1
    h.check(calls == want, f'neighbourhoods {calls} instead of {want}')
    h.done()


HARNESSES = [
    Harness('update', update,
            quick=product(sizes=[(1, 2, 1)], depth=[0, 1],
                          delayed=[True, False]) +
            product(sizes=[(1, 2, 1)], depth=[1],
                    func=['new_v_trimmed'], trim=[False], named=[('v', )]) +
            product(sizes=[(2, 1, 1)], func=['new_vw'], depth=[0, 1],
                    kind=['date/D', 'seq2']) +
            product(sizes=[(1, 1, 2)], depth=[0, 2], fs=['file'],
                    selected=[('id', )]),
            thorough=product(sizes=[(1, 2, 1, 1)], depth=[0, 1, 2, 3],
                             delayed=[True, False]),
            client=True,
            bounds='3 partitions of 1-2 rows (4 thorough), any subset '
            'selected, any content and results, depth 0-2, npartitions '
            'None/1/2/5'),
    Harness('arguments', arguments,
            quick=product(sizes=[(1, 2, 1)], depth=[2], info=[True, False]),
            thorough=product(sizes=[(1, 2, 1, 2)], depth=[3],
                             info=[True, False]),
            client=True,
            bounds='3 partitions (4 thorough), depth 0-2 (3 thorough)'),
]
OUTSIDE = ('more partitions or rows; update functions reading, through an '
           'overlap, a variable that the same call updates (schedule '
           'dependent by design)')
