"""C06: an interrupted modification damages nothing else and can be repeated."""
import os
import warnings

import numpy
import zcollection
from zcollection import meta

from .common import *  # noqa: F401,F403
from .common import Harness, cells, product
from . import coll
from symx import faults
from symx.faults import Faults


# -- merge functions ----------------------------------------------------------
def merge_by_id(existing_ds, inserted_ds, axis, partitioning_dim, raising=None,
                **kwargs):
    """Rows already there unless inserted again, then the inserted rows."""
    new = coll.seen(inserted_ds)
    if raising is not None and new[0] == raising:
        raise RuntimeError('cannot merge')
    old = [ix for ix, i in enumerate(coll.seen(existing_ds)) if i not in new]
    if not old:
        return inserted_ds
    kept = existing_ds.isel({partitioning_dim: slice(old[0], old[-1] + 1)})
    return kept.concat([inserted_ds], partitioning_dim)


def merged(old, new):
    ids = [r.id for r in new]
    return [r for r in old or [] if r.id not in ids] + new


# -- observation --------------------------------------------------------------
def others(fs, base, schema, keys):
    """Files of everything but the partitions keys and hidden directories."""
    skip = tuple('/' + schema.relpath(k) + '/' for k in keys)
    return {k: v for k, v in coll.snapshot(fs, base).items()
            if not k.startswith(skip) and not (
                k.startswith('/.') and '/' in k[1:]
                and not k.startswith('/.immutable/'))}


def listed(schema, col):
    return [str(p) for p in col.partitions(relative=True)]


def observe(h, schema, col, outcomes, what, c=None, only=None, bad=()):
    """Every partition holds one of its admissible contents.

    outcomes: {key: list of admissible lists of rows, None if absent}."""
    names = [n for n in listed(schema, col) if n not in bad]
    known = {schema.relpath(k): k for k in outcomes}
    h.check(set(names) <= set(known) and len(set(names)) == len(names),
            f'{what}: partitions listed {names}')
    got = {}
    for key, options in outcomes.items():
        if schema.relpath(key) not in names:
            h.check(None in options, f'{what}: partition {key} is lost')
            got[key] = None
            continue
        zds = col.load(delayed=False, filters=coll.as_filter(schema, [key]),
                       selected_variables=only)
        h.check(zds is not None, f'{what}: partition {key} is not readable')
        ids = [int(i) for i in cells(coll.raw(zds.variables['id']))]
        rows = [o for o in options if o is not None
                and [r.id for r in o] == ids]
        h.check(rows, f'{what}: partition {key} holds the rows {ids}')
        coll.check_rows(h, schema, zds, rows[0], f'{what}: partition {key}')
        if c is not None:
            h.check(h.all([h.same(a, b) for a, b in zip(
                cells(coll.raw(zds.variables['c'])), c)]),
                f'{what}: variables without the partitioned dimension')
        got[key] = rows[0]
    return got


def validate(h, col, fix=False):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return sorted(os.path.relpath(p, col.partition_properties.dir)
                      for p in col.validate_partitions(fix=fix))


def reopen(col):
    return zcollection.open_collection(col.partition_properties.dir, mode='w',
                                       filesystem=col.fs)


def attempt(func, *args, **kw):
    """Whether the operation reports a success."""
    try:
        func(*args, **kw)
        return True
    except Exception:  # noqa: BLE001
        return False


# -- insertion ------------------------------------------------------------------
def _setting(h, first=False):
    immutable = h.config.get('immutable', False)
    schema = coll.Schema(h.config['kind'], immutable=immutable,
                         wdims=h.config.get('wdims', 0),
                         delayed=h.config.get('delayed', True))
    schema.chunks = h.config.get('chunks')
    faults.scratch(h)
    model = {} if first else coll.fixed(h, schema, (1, 2))
    c = (7, 8) if immutable else None
    col = coll.build(h, schema, model, 'file') if model else schema.create(
        h, 'file')
    return schema, col, model, c


def insert(h):
    first = h.config.get('first', False)
    schema, col, model, c = _setting(h, first)
    base = col.partition_properties.dir
    fs = col.fs
    if schema.kind == 'seq':
        keys = [(1, ), (2, ), (4, )]
    elif schema.kind == 'seq2':
        keys = [(1, 1), (1, 2), (3, 1)]
    else:
        keys = sorted(model) + [(2020, 3, 4)] if model else [
            (2020, 1, 31), (2020, 2, 1), (2020, 3, 4)]
    # the last existing partition is modified, another one is created
    rows = [schema.row(h, 'n0', 2 if model else 10, keys[1]),
            schema.row(h, 'n1', 11, keys[1]), schema.row(h, 'n2', 12, keys[2])]
    merge = h.config.get('merge')
    kw = {'npartitions': h.choice('np', [None, 1])}
    if merge:
        kw['merge_callable'] = merge_by_id
    new = {keys[1]: merged(model.get(keys[1]) if merge else None, rows[:2]),
           keys[2]: rows[2:]}
    before = others(fs, base, schema, keys[1:])
    mode = h.config['mode']
    zds = schema.to_dataset(h, rows)
    if mode == 'raise':
        raising = h.choice('raising', [rows[0].id, rows[2].id])
        done = attempt(lambda: list(col.insert(zds, raising=raising, **kw)))
        h.check(done == (raising == rows[2].id),
                'the failure of the merge function is reported')
    else:
        # (a truncated .zmetadata of the variables without the partitioned
        # dimension is outside of the bounds)
        f = Faults(h, mode, base, but=[('write', '.immutable/.zmetadata')]
                   if mode == 'crash' else ())
        with f.armed():
            done = None
            done = attempt(lambda: list(col.insert(zds, **kw)))
        if f.crashed:
            done = None
        if f.fired is None:
            h.check(done is True, 'nothing prevented the insertion')
    after = others(fs, base, schema, keys[1:])
    if first:
        # nothing but the variables without the partitioned dimension
        before = {k: v for k, v in before.items() if '.immutable' not in k}
        after = {k: v for k, v in after.items() if '.immutable' not in k}
    h.check(after == before, 'the other partitions and the configuration are '
            'untouched')
    final = {**model, **new}
    again = reopen(col)
    crash = done is None
    outcomes = {k: [final[k]] if done else (
        [model.get(k), final[k]] if k in new else [model[k]]) for k in final}
    bad = []
    if crash:
        bad = validate(h, again)
        h.check(set(bad) <= {schema.relpath(k) for k in new},
                f'partitions reported as invalid {bad}')
        # the incomplete partitions are removed, or replaced by the repetition
        # (one having metadata cannot be merged with)
        if merge and any(fs.exists(f'{base}/{p}/.zmetadata')
                         for p in bad) or h.bool('fix'):
            h.check(validate(h, again, fix=True) == bad,
                    'invalid ones removed')
        for k in new:
            if schema.relpath(k) in listed(schema, again) and \
                    schema.relpath(k) in bad:
                outcomes.pop(k)
            else:
                outcomes[k] = outcomes[k] + [None]
    else:
        observe(h, schema, col, outcomes, 'same collection', c)
        h.check(validate(h, col) == [], 'no partition is invalid')
    state = observe(h, schema, again, outcomes, 'after reopening', c,
                    bad=bad)
    # the insertion can be repeated
    target = again if h.config.get('again', True) else col
    list(target.insert(schema.to_dataset(h, rows), **kw))
    if merge:
        for k in new:
            final[k] = merged(state.get(k), new[k][-2 if k == keys[1] else -1:])
    coll.check_collection(h, schema, target, final, 'once repeated',
                          **({'c': c} if c else {}))
    h.check(validate(h, target) == [], 'no partition is invalid in the end')
    h.done()

# -- other modifications --------------------------------------------------------
def _keys(schema, model, h):
    keys = sorted(model)
    return keys, keys[:2] if h.config.get('sel', 2) == 2 else keys[1:2]


def _run(h, mode, base, func):
    f = Faults(h, mode, base)
    with f.armed():
        done = None
        done = attempt(func)
    if f.crashed:
        done = None
    if f.fired is None:
        h.check(done is True, 'nothing prevented the operation')
    return done


def _but(fs, base, skip):
    """Content of the files except those for which skip(path)."""
    return {k: v for k, v in coll.snapshot(fs, base).items() if not skip(k)}


def update(h):
    """An update only puts at risk the variable it writes."""
    schema = coll.Schema(h.config['kind'], wdims=0,
                         immutable=h.config.get('immutable', False),
                         chunks=h.config.get('chunks'))
    faults.scratch(h)
    model = coll.fixed(h, schema, (1, 2, 1))
    col = coll.build(h, schema, model, 'file')
    base, fs = col.partition_properties.dir, col.fs
    coll.start(h, schema)
    keys, chosen = _keys(schema, model, h)
    marks = tuple(f'/{schema.relpath(k)}/v/' for k in chosen)

    def skip(path):
        return path.startswith(marks)
    before = _but(fs, base, skip)
    depth = h.config.get('depth', 0)

    def act(target):
        target.update(coll.new_v, filters=coll.as_filter(schema, chosen),
                      variables=('v', ), depth=depth,
                      selected_variables=['id'],
                      npartitions=h.config.get('np'))
    done = _run(h, h.config['mode'], base, lambda: act(col))
    h.check(_but(fs, base, skip) == before,
            'nothing but the updated variable is touched')
    again = reopen(col)
    bad = validate(h, again)
    h.check(set(bad) <= {schema.relpath(k) for k in chosen},
            f'partitions reported as invalid {bad}')
    h.check(not (done and bad), 'a successful update is complete')
    new = {}
    for key in chosen:
        ctx = [r.id for k in coll.window(chosen, key, depth)
               for r in model[k]]
        new[key] = [r.copy() for r in model[key]]
        for r in new[key]:
            r.v = coll.fresh(ctx, r.id)
    for key in keys:
        if schema.relpath(key) in bad:
            continue
        zds = again.load(delayed=False,
                         filters=coll.as_filter(schema, [key]))
        ids = [int(i) for i in cells(coll.raw(zds.variables['id']))]
        h.check(ids == [r.id for r in model[key]], f'rows of {key}')
        if done:
            coll.check_rows(h, schema, zds, new.get(key, model[key]),
                            'after the update')
            continue
        got = cells(coll.raw(zds.variables['v']))
        h.check(h.all([h.any([h.same(g, a.v), h.same(g, b.v)])
                       for g, a, b in zip(got, model[key],
                                          new.get(key, model[key]))]),
                f'{key}: former or new values')
    coll.check_listing(h, schema, again, model, 'after the failure')
    act(again)
    coll.check_collection(h, schema, again, {**model, **new},
                          'once repeated')
    h.check(validate(h, again) == [], 'no partition is invalid in the end')
    h.done()


def drop(h):
    """A deletion only puts at risk what it deletes."""
    schema, col, _, c = _setting(h, True)
    model = coll.fixed(h, schema, (1, 2, 1))
    coll.insert(h, schema, col, [r for k in sorted(model) for r in model[k]])
    base, fs = col.partition_properties.dir, col.fs
    keys, chosen = _keys(schema, model, h)
    marks = tuple(f'/{schema.relpath(k)}/' for k in chosen)
    left = {k: v for k, v in model.items() if k not in chosen}

    def skip(path):
        return path.startswith(marks)
    before = _but(fs, base, skip)

    def act(target):
        return list(target.drop_partitions(
            filters=coll.as_filter(schema, chosen)))
    done = _run(h, h.config['mode'], base, lambda: act(col))
    h.check(_but(fs, base, skip) == before,
            'nothing but the selected partitions is touched')
    again = reopen(col)
    names = listed(schema, again)
    h.check(set(names) <= {schema.relpath(k) for k in keys},
            f'partitions listed {names}')
    if done:
        h.check(names == [schema.relpath(k) for k in sorted(left)],
                'a successful deletion is complete')
    zds = again.load(delayed=False, filters=coll.as_filter(schema, left))
    coll.check_rows(h, schema, zds, [r for k in sorted(left)
                                     for r in left[k]], 'partitions left')
    h.check(set(validate(h, again)) <= {schema.relpath(k) for k in chosen},
            'partitions reported as invalid')
    act(again if h.config.get('again', True) else col)
    coll.check_collection(h, schema, again, left, 'once repeated')
    h.check(validate(h, again) == [], 'no partition is invalid in the end')
    h.done()


def variables(h):
    """Adding or dropping a variable only puts at risk this variable."""
    schema = coll.Schema(h.config['kind'], wdims=0,
                         immutable=h.config.get('immutable', False))
    faults.scratch(h)
    model = coll.fixed(h, schema, h.config.get('sizes', (1, 2)))
    col = coll.build(h, schema, model, 'file') if model else schema.create(
        h, 'file')
    base, fs = col.partition_properties.dir, col.fs
    add = h.config['op'] == 'add'
    name = 'n' if add else 'v'
    var = meta.Variable('n', numpy.dtype('int64'), dimensions=('x', ),
                        fill_value=-7)

    def skip(path):
        return f'/{name}/' in path or path.endswith(('.zmetadata',
                                                     '/.zcollection'))
    before = _but(fs, base, skip)
    config = fs.cat_file(base + '/.zcollection')

    def act(target):
        target.add_variable(var) if add else target.drop_variable('v')
    done = _run(h, 'fault', base, lambda: act(col))
    h.check(_but(fs, base, skip) == before,
            'the other variables are untouched')
    names = [schema.axis, 'id'] + list(schema.keys) + (['v'] if add else [])
    again = reopen(col)
    # metadata that could not be rewritten make a partition unreadable
    bad = [] if add or done else validate(h, again)
    h.check(len(bad) <= 1, f'partitions reported as invalid {bad}')
    good = {k: v for k, v in model.items() if schema.relpath(k) not in bad}
    for target in (col, again):
        there = name in target.metadata.variables
        h.check(there == (add == bool(done)),
                f'declaration of the variable {name!r}')
        coll.check_listing(h, schema, target, model, 'after the failure')
        if good:
            zds = target.load(delayed=False, selected_variables=names,
                              filters=coll.as_filter(schema, good))
            h.check(set(zds.variables) == set(names), 'variables loaded')
            coll.check_rows(h, schema, zds, [
                r for k in sorted(good) for r in good[k]],
                'after the failure', variables=names)
    if not done:
        h.check(fs.cat_file(base + '/.zcollection') == config,
                'the configuration is untouched')
        if add:
            h.check(not any('/n/' in k for k in coll.snapshot(fs, base)),
                    'nothing remains of the variable')
            coll.check_collection(h, schema, again, model, 'as before')
        target = again if h.config.get('again', True) else col
        act(target)
        again = reopen(col)
    coll.check_listing(h, schema, again, model, 'in the end')
    h.check((name in again.metadata.variables) == add, 'in the end: declared')
    h.check(validate(h, again) == [], 'no partition is invalid in the end')
    if model:
        zds = again.load(delayed=False)
        want = set(names) | ({'n'} if add else set()) | (
            {'c'} if schema.immutable else set())
        h.check(set(zds.variables) == want, 'in the end: variables')
        coll.check_rows(h, schema, zds, [
            r for k in sorted(model) for r in model[k]], 'in the end',
            variables=names)
        if add:
            h.check(all(v is numpy.ma.masked for v in cells(
                zds.variables['n'].values)), 'the new variable is masked')
    h.done()



HARNESSES = [
    Harness('insert', insert,
            quick=product(kind=['seq', 'date/D'], mode=['fault', 'crash'],
                          merge=[False, True]) +
            product(kind=['seq'], mode=['raise'], merge=[True]) +
            product(kind=['seq'], mode=['fault', 'crash'], first=[True],
                    immutable=[True]) +
            product(kind=['seq2'], mode=['fault'], immutable=[True],
                    wdims=[2], chunks=[{'x': 1}], again=[False]),
            client=True, samples=3,
            bounds='3 partitions of 1-2 rows, one of them overwritten or '
            'merged and one created, any content; failure or process death '
            'at any of the file operations of the insertion, failure of the '
            'merge function'),
    Harness('update', update,
            quick=product(kind=['seq', 'date/D'], mode=['fault', 'crash']) +
            product(kind=['seq'], mode=['fault', 'crash'], depth=[1],
                    immutable=[True], np=[1]) +
            product(kind=['seq2'], mode=['fault', 'crash'],
                    chunks=[{'x': 1}], sel=[1]),
            client=True, samples=3,
            bounds='3 partitions, 1-2 of them updated, any content'),
    Harness('drop', drop,
            quick=product(kind=['seq', 'date/D'], mode=['fault', 'crash']) +
            product(kind=['seq2'], mode=['fault'], sel=[1], again=[False],
                    immutable=[True]),
            client=True, samples=3,
            bounds='3 partitions, 1-2 of them dropped, any content'),
    Harness('variables', variables,
            quick=product(kind=['seq', 'date/D'], op=['add', 'drop']) +
            product(kind=['seq2'], op=['add', 'drop'], immutable=[True],
                    again=[False]) +
            product(kind=['seq'], op=['add'], sizes=[()], immutable=[False,
                                                                   True]),
            client=True, samples=3,
            bounds='0-2 partitions, any content; failure at any file '
            'operation'),
]
OUTSIDE = ('file systems other than the local one; two failures in a row; process '
           'death during add_variable or drop_variable, or while the metadata '
           'of the variables without the partitioned dimension are written '
           '(truncated file); after the death of the process between the two '
           'renamings of a replaced partition, this partition is absent; '
           'views and indexes; more partitions')
