"""C13: a view extends its reference, follows it, and never alters it."""
import itertools

import zcollection

from .common import *  # noqa: F401,F403
from .common import Harness, cells, meta, numpy, product
from . import coll

FILL = -7
MASKED = numpy.ma.masked


def _view(h, col, fs=None, filters=None):
    fs, base = fs or (col.fs, col.partition_properties.dir)
    return zcollection.create_view(
        base + '-view', zcollection.view.ViewReference(
            col.partition_properties.dir, col.fs),
        filesystem=fs, filters=filters)


def _reopen(view):
    return zcollection.open_view(view.base_dir, filesystem=view.fs)


def _var(name='n', dims=('x', ), fill=FILL):
    return meta.Variable(name, numpy.dtype('int64'), dimensions=dims,
                         fill_value=fill)


def new_n(zds, *args, partition_info=None, **kwargs):
    """Update function: any value for each row and each context."""
    ids = coll.seen(zds)
    coll.STATE['calls'].append((ids, partition_info, args, dict(kwargs)))
    coll.STATE.setdefault('names', set()).add(frozenset(zds.variables))
    out = {'n': coll.STATE['h'].array([coll.fresh(ids, i) for i in ids],
                                      dtype='int64')}
    if coll.STATE.get('two'):
        out['m'] = coll.STATE['h'].array(
            [coll.fresh(ids, i, j) for i in ids for j in range(2)],
            dtype='int64').reshape((len(ids), 2))
    return out


def spy(zds, *args, partition_info=None):
    coll.STATE['calls'].append((coll.seen(zds), partition_info, args, {}))
    coll.STATE.setdefault('names', set()).add(frozenset(zds.variables))
    return coll.seen(zds), cells(zds.variables['n'].values)


def _check_view(h, schema, view, ref, own, what, names=('n', ), delayed=False,
                filters=None, only=None):
    """own: {key: {name: flat list of cells}} of the view."""
    keys = sorted(k for k in ref if k in own)
    got = [str(p)[len(view.base_dir):].strip('/') for p in view.partitions()]
    h.check(got == [schema.relpath(k) for k in keys],
            f'{what}: partitions of the view {got}')
    if only is not None:
        keys = [k for k in keys if k in only]
    zds = view.load(delayed=delayed, filters=filters)
    h.check((zds is None) == (not keys), f'{what}: loaded or not')
    if zds is None:
        return
    h.check(coll.lazy(zds) == {delayed},
            f'{what}: computed on demand or not, as asked')
    coll.check_rows(h, schema, zds, [r for k in keys for r in ref[k]], what)
    for name in names:
        cell = cells(zds.variables[name].values)
        want = [c for k in keys for c in own[k][name]]
        h.check(len(cell) == len(want), f'{what}: shape of {name}')
        h.check(h.all([h.same(a, b) for a, b in zip(cell, want)]),
                f'{what}: content of {name}')
    h.check(set(zds.variables) == set(view.view_ref.metadata.variables) |
            set(names), f'{what}: variables')


def _blank(ref, keys, names):
    return {k: {n: [MASKED] * len(ref[k]) * (2 if n == 'm' else 1)
                for n in names} for k in keys}


def _nofill(h):
    """The values written by the user are not the fill value."""
    for value in coll.STATE['values'].values():
        h.assume(h.not_(h.same(value, numpy.int64(FILL))))


def ops(h):
    """Additions, updates, readings, removals."""
    cfg = h.config
    schema = coll.Schema(cfg['kind'])
    ref = coll.fixed(h, schema, cfg['sizes'])
    col = coll.build(h, schema, ref, cfg.get('fs', 'memory'))
    base = col.partition_properties.dir
    before = coll.snapshot(col.fs, base)
    where = h.filesystem(cfg['target']) if cfg.get('target') else None
    inside = sorted(ref)
    filters = None
    if cfg.get('filters'):
        inside = sorted(coll.predicate(h, 'in', sorted(ref)))
        filters = coll.as_filter(schema, inside)
    view = _view(h, col, where, filters)
    h.check(h.raises(ValueError, view.load), 'a view without variables')
    names = ['n', 'm'] if cfg.get('two') else ['n']
    view.add_variable(_var('n'))
    if cfg.get('two'):
        view.add_variable(_var('m', ('x', 'y')))
    own = _blank(ref, inside, names)
    for bad in (_var('n'), _var('v')):
        h.check(h.raises(ValueError, view.add_variable, bad),
                'existing variables are refused')
    h.check(h.raises(ValueError, view.add_variable, _var('q', ('z', ))),
            'unknown dimensions are refused')
    h.check(set(view.metadata.variables) == set(names),
            'variables of the view')
    if h.bool('reopen'):
        view = _reopen(view)
    h.check(set(view.metadata.variables) == set(names) and all(
        view.metadata.variables[n].fill_value == FILL for n in names),
        'variables of the view')
    _check_view(h, schema, view, ref, own, 'added', names, cfg['delayed'])
    # update
    coll.start(h, schema)
    coll.STATE['two'] = cfg.get('two')
    chosen = sorted(coll.predicate(h, 'sel', inside))
    select = coll.as_filter(schema, chosen)
    depth = cfg['depth']
    kwargs = {}
    if cfg.get('selected'):
        kwargs['selected_variables'] = ['id', 'n']
    view.update(new_n, 3, filters=select, depth=depth,
                delayed=cfg['delayed'], npartitions=h.choice(
                    'np', [None, 1, 2]), other=4, **kwargs)
    want = set()
    for key in chosen:
        near = coll.window(chosen, key, depth)
        ids = [r.id for k in near for r in ref[k]]
        at = sum(len(ref[k]) for k in near if k < key)
        want.add((tuple(ids), ('x', at, at + len(ref[key]))
                  if depth else None))
        own[key] = {'n': [coll.fresh(ids, r.id) for r in ref[key]]}
        if cfg.get('two'):
            own[key]['m'] = [coll.fresh(ids, r.id, j) for r in ref[key]
                             for j in range(2)]
    every = frozenset(kwargs.get('selected_variables') or
                      set(col.metadata.variables) | set(names))
    h.check(coll.STATE.get('lazy', set()) <= {cfg['delayed']},
            'data computed on demand or not, as asked')
    h.check(coll.STATE.get('names', {every}) == {every},
            'update: selected variables')
    for ids, info, args, kw in coll.STATE['calls']:
        h.check(args == (3, ) and kw == {'other': 4}, 'arguments')
    if depth:
        got = {(tuple(c[0]), c[1] and (c[1][0], c[1][1].start, c[1][1].stop))
               for c in coll.STATE['calls']}
        h.check(want <= got, f'neighbourhoods {got} instead of {want}')
    _nofill(h)
    h.check(h.raises((ValueError, RuntimeError), view.update, coll.new_v,
                     filters=select) or not chosen,
            'variables of the reference are not updated')
    _check_view(h, schema, view, ref, own, 'updated', names, cfg['delayed'])
    _check_view(h, schema, view, ref, own, 'filtered', names, cfg['delayed'],
                select, chosen)
    pick = h.choice('pick', [('n', ), ('v', 'n'), ('id', ), ('zz', )])
    if inside:
        zds = view.load(delayed=cfg['delayed'], selected_variables=pick)
        h.check(set(zds.variables) == set(pick) - {'zz'}, 'selection')
        rows = [(k, i) for k in inside for i in range(len(ref[k]))]
        for name in zds.variables:
            want = [own[k]['n'][i] if name == 'n' else getattr(ref[k][i], name)
                    for k, i in rows]
            got = cells(zds.variables[name].values if name == 'n' else
                        coll.raw(zds.variables[name]))
            h.check(len(got) == len(want) and h.all(
                [h.same(a, b) for a, b in zip(got, want)]),
                f'selection: content of {name}')
    # map
    coll.start(h, schema)
    coll.STATE['two'] = cfg.get('two')
    if chosen:
        if depth:
            got = view.map_overlap(spy, 5, depth=depth, filters=select,
                                   delayed=cfg['delayed'],
                                   **kwargs).compute()
        else:
            got = view.map(spy, 5, filters=select, delayed=cfg['delayed'],
                           **kwargs).compute()
        h.check(coll.STATE.get('lazy', set()) <= {cfg['delayed']},
                'map: data computed on demand or not, as asked')
        h.check(coll.STATE.get('names') == {every},
                'map: selected variables')
        h.check([tuple(k) for k, _ in got] == [schema.scheme(k)
                                               for k in chosen], 'map: keys')
        for key, (_, (ids, values)) in zip(chosen, got):
            near = coll.window(chosen, key, depth)
            h.check(ids == [r.id for k in near for r in ref[k]], 'map: rows')
            h.check(h.all([h.same(a, b) for a, b in zip(
                values, [c for k in near for c in own[k]['n']])]),
                'map: content')
    # removal
    h.check(h.raises(ValueError, view.drop_variable, 'v') and h.raises(
        ValueError, view.drop_variable, 'q'), 'refused removals')
    if cfg.get('two'):
        view.drop_variable('m')
        names.remove('m')
        if h.bool('reopen2'):
            view = _reopen(view)
        _check_view(h, schema, view, ref, own, 'dropped', names,
                    cfg['delayed'])
        view.add_variable(_var('m', ('x', 'y')))
        for k in own:
            own[k]['m'] = [MASKED] * (2 * len(ref[k]))
        _check_view(h, schema, view, ref, own, 'again', ('n', 'm'),
                    cfg['delayed'])
    h.check(coll.snapshot(col.fs, base) == before,
            'the reference is not modified')
    h.done()


def _axis_rows(h, schema, key, ts, first):
    return [schema.row(h, f'r{first + i}', first + i, key,
                       time=numpy.datetime64(coll.EPOCH + t * coll.DAY, 'ns'))
            for i, t in enumerate(ts)]


AXES = [(0, 1), (0, 1, 2), (0, ), (1, 2), (0, 2, 3)]
#: any increasing axis of up to 4 dates
ALL = [a for n in range(1, 5) for a in itertools.combinations(range(6), n)]


def sync(h):
    """The reference changes, the view follows."""
    cfg = h.config
    schema = coll.Schema('seq')
    first = 0
    ref = {}
    start = cfg.get('start', (0, 1))
    for k in range(cfg['parts']):
        ref[(k + 1, )] = _axis_rows(h, schema, (k + 1, ), start, first)
        first += 4
    if ref:
        col = coll.build(h, schema, ref, cfg.get('fs', 'memory'))
    else:
        col = schema.create(h, cfg.get('fs', 'memory'))
    base = col.partition_properties.dir
    where = h.filesystem(cfg['target']) if cfg.get('target') else None
    names = ('n', 'm')
    view = _view(h, col, where)
    view.add_variable(_var('n'))
    view.add_variable(_var('m', ('x', 'y')))
    coll.start(h, schema)
    coll.STATE['two'] = True
    own, axes = {}, {k: start for k in ref}
    if ref:
        view.update(new_n)
    for k, rows in ref.items():
        ids = [r.id for r in rows]
        own[k] = {'n': [coll.fresh(ids, i) for i in ids],
                  'm': [coll.fresh(ids, i, j) for i in ids for j in range(2)]}
    _nofill(h)
    h.check(view.is_synced(), 'a new view is synchronized')
    for step in range(cfg['steps']):
        # the reference changes
        op = h.choice(f'op{step}', ['insert', 'drop', 'none'])
        key = (1, )
        if op != 'none':
            key = (h.concrete_int(f'k{step}', 1, cfg['parts'] + 1), )
        if op == 'insert':
            ts = h.choice(f'a{step}', ALL if cfg.get('all') else AXES)
            ref[key] = _axis_rows(h, schema, key, ts, first)
            first += 10
            axes_new = ts
            coll.insert(h, schema, col, ref[key])
        elif op == 'drop':
            list(col.drop_partitions(filters=coll.as_filter(schema, [key])))
            ref.pop(key, None)
        before = coll.snapshot(col.fs, base)
        if cfg['reopen']:
            view = _reopen(view)
        # expected state of the view
        late = set()
        for k in ref:
            ts = axes_new if k == key and op == 'insert' else axes.get(k)
            if k in own and axes[k] == ts:
                continue
            late.add(k)
            if k in own and len(ts) > len(axes[k]) and ts[:len(
                    axes[k])] == axes[k]:
                own[k] = {n: own[k][n] + [MASKED] * (
                    (len(ts) - len(axes[k])) * (2 if n == 'm' else 1))
                    for n in names}
            else:
                own[k] = _blank(ref, [k], names)[k]
            axes[k] = ts
        h.check(view.is_synced() == (not late), 'is_synced')
        done = view.sync(coll.as_filter(schema, list(ref))
                         if cfg['filter'] else None)
        got = {k for k in ref if done(dict(schema.scheme(k)))}
        h.check(got == late, f'synchronized {got} instead of {late}')
        h.check(view.is_synced(), 'is_synced after sync')
        _check_view(h, schema, view, ref, own, 'synchronized', names)
        h.check(coll.snapshot(col.fs, base) == before,
                'the reference is not modified')
    h.done()


def moved(h):
    """The view lives where it is opened, wherever it has been created."""
    schema = coll.Schema('seq')
    ref = coll.fixed(h, schema, h.config['sizes'])
    col = coll.build(h, schema, ref, h.config['fs'])
    fs, base = col.fs, col.partition_properties.dir
    view = _view(h, col)
    old = view.base_dir
    view.add_variable(_var('n'))
    own = _blank(ref, sorted(ref), ['n'])
    new = f'{base}-moved'
    for path in sorted(fs.find(old)):
        data = fs.cat_file(path)
        name = str(path)
        name = new + name[name.index(old) + len(old):]
        fs.makedirs(name.rsplit('/', 1)[0], exist_ok=True)
        fs.pipe_file(name, data)
    if h.bool('removed'):
        fs.rm(old, recursive=True)
    before = coll.snapshot(fs, old)
    source = coll.snapshot(fs, base)
    view = zcollection.open_view(new, filesystem=fs)
    h.check(view.base_dir == new, 'where the view is')
    coll.start(h, schema)
    if h.bool('update'):
        view.update(new_n)
        _nofill(h)
        for k in ref:
            ids = [r.id for r in ref[k]]
            own[k]['n'] = [coll.fresh(ids, i) for i in ids]
    _check_view(h, schema, view, ref, own, 'moved view')
    h.check(coll.snapshot(fs, old) == before, 'the former place')
    h.check(fs.exists(old) == bool(before), 'the former place')
    h.check(coll.snapshot(fs, base) == source, 'the reference')
    h.done()


HARNESSES = [
    Harness('ops', ops,
            quick=product(kind=['seq'], sizes=[(1, 2)], delayed=[True, False],
                          depth=[0, 1], filters=[True], two=[True]) +
            product(kind=['date/D'], sizes=[(1, 1, 1)], delayed=[True],
                    depth=[0, 1], selected=[True]) +
            product(kind=['seq2'], sizes=[(1, 1)], delayed=[False],
                    depth=[2], fs=['file'], target=['memory']),
            thorough=product(kind=['seq', 'date/M'], sizes=[(1, 2, 1)],
                             delayed=[True, False], depth=[0, 1, 2],
                             filters=[True], two=[True],
                             target=['file', 'memory']),
            client=True, samples=1,
            bounds='2-3 partitions of 1-2 rows, any subset in the view, any '
            'subset updated, any content, depth 0-2'),
    Harness('sync', sync,
            quick=product(parts=[1], steps=[2], fs=['memory'],
                          reopen=[False], filter=[True, False]) +
            product(parts=[1], steps=[1], reopen=[False], filter=[False],
                    start=[(0, 2, 4), (1, )], all=[True]) +
            product(parts=[0], steps=[2], fs=['file'], reopen=[True],
                    filter=[True, False]) +
            product(parts=[2], steps=[1], fs=['file'], target=['memory'],
                    reopen=[True, False], filter=[True, False]),
            thorough=product(parts=[2], steps=[2], fs=['memory', 'file'],
                             reopen=[True, False], filter=[True, False]) +
            product(parts=[1], steps=[3], fs=['memory'],
                    reopen=[True, False], filter=[True, False]),
            client=True, samples=2,
            bounds='0-2 partitions; every sequence of 1-2 changes of the '
            'reference (3 thorough): insertion of one partition on one of 5 '
            'axes (same, longer, shorter, shifted, diverging), removal; or of '
            'any of the 56 axes of up to 4 dates among 6; '
            'any content'),
    Harness('moved', moved,
            quick=product(fs=['memory', 'file'], sizes=[(1, 2)]),
            client=True, bounds='2 partitions of 1 and 2 rows, moved or '
            'copied view, updated or not'),
]
OUTSIDE = ('filters of sync leaving out partitions of the reference; immutable '
           'variables of the reference; more partitions')
