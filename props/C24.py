"""C24: a failed modification of a view harms neither it nor its reference."""
import zcollection

from .common import *  # noqa: F401,F403
from .common import Harness, product
from . import C13, coll
from .C06 import attempt
from .C13 import MASKED, _blank, _check_view, _nofill, _var
from symx import faults
from symx.faults import Faults


def _start(h, sizes, names=('n', )):
    schema = coll.Schema(h.config.get('kind', 'seq'), wdims=0)
    faults.scratch(h)
    ref = coll.fixed(h, schema, sizes)
    col = coll.build(h, schema, ref, 'file')
    view = C13._view(h, col)
    own = _blank(ref, sorted(ref), names)
    for name in names:
        view.add_variable(_var(name))
    coll.start(h, schema)
    return schema, ref, col, view, own


def _reopen(view):
    return zcollection.open_view(view.base_dir, filesystem=view.fs)


def _written(ref, keys):
    """Values given by the update function."""
    return {k: [coll.fresh([r.id for r in ref[k]], r.id) for r in ref[k]]
            for k in keys}


def _fault(h, view, func):
    f = Faults(h, h.config.get('mode', 'fault'), view.base_dir)
    done = None
    with f.armed():
        done = attempt(func)
    if f.crashed:
        done = None
    if f.fired is None:
        h.check(done is True, 'nothing prevented the operation')
    return done


def _files(view, skip):
    return {k: v for k, v in coll.snapshot(view.fs, view.base_dir).items()
            if k != '/.view.tmp' and not skip(k)}


def variables(h):
    """Adding or dropping a variable of a view."""
    add = h.config['op'] == 'add'
    schema, ref, col, view, own = _start(h, h.config['sizes'])
    base = col.partition_properties.dir
    if ref:
        view.update(C13.new_n)
    for k, cells_ in _written(ref, sorted(ref)).items():
        own[k]['n'] = cells_
    _nofill(h)
    if not add:
        view.add_variable(_var('z'))
    source = coll.snapshot(col.fs, base)
    files = _files(view, lambda p: '/z/' in p or p == '/.view')
    whole = _files(view, lambda p: False)

    def act(target):
        if add:
            target.add_variable(_var('z'))
        else:
            target.drop_variable('z')
    done = _fault(h, view, lambda: act(view))
    h.check(coll.snapshot(col.fs, base) == source, 'the reference')
    h.check(_files(view, lambda p: '/z/' in p or p == '/.view') == files,
            'the other variables of the view')
    again = _reopen(view)
    there = 'z' in again.metadata.variables
    crash = done is None and h.config.get('mode') == 'crash'
    if not crash:
        h.check(there == ('z' in view.metadata.variables),
                'the declared variables are those of the configuration')
    if done:
        h.check(there == add, 'declared or not')
    elif add and not crash:
        h.check(not there, 'not declared')
        h.check(_files(view, lambda p: False) == whole,
                'a failed addition leaves the view as it was')
    for target in (again, ) if crash else (view, again):
        full = {k: dict(v, **({'z': [MASKED] * len(ref[k])} if there else {}))
                for k, v in own.items()}
        if ref:
            _check_view(h, schema, target, ref, full, 'after the failure',
                        ['n', 'z'] if there else ['n'])
        h.check(target.is_synced(), 'synchronized')
    target = again if crash or h.bool('again') else view
    if there != add:
        act(target)
        there = add
    elif not add:
        # the name can be used again
        target.add_variable(_var('z'))
        there = True
    full = {k: dict(v, **({'z': [MASKED] * len(ref[k])} if there else {}))
            for k, v in own.items()}
    if ref:
        _check_view(h, schema, _reopen(view), ref, full, 'once repeated',
                    ['n', 'z'] if there else ['n'])
    h.done()


def update(h):
    """Updating a variable of a view."""
    schema, ref, col, view, own = _start(h, h.config['sizes'], ('n', 'z'))
    base = col.partition_properties.dir
    keys = sorted(ref)
    chosen = keys[:h.config['sel']]
    marks = tuple(f'/{schema.relpath(k)}/n/' for k in chosen)
    source = coll.snapshot(col.fs, base)
    files = _files(view, lambda p: p.startswith(marks))

    def act(target):
        target.update(C13.new_n, filters=coll.as_filter(schema, chosen))
    done = _fault(h, view, lambda: act(view))
    h.check(coll.snapshot(col.fs, base) == source, 'the reference')
    h.check(_files(view, lambda p: p.startswith(marks)) == files,
            'the other partitions and variables')
    crash = done is None and h.config.get('mode') == 'crash'
    new = _written(ref, chosen)
    _nofill(h)
    again = _reopen(view)
    h.check(set(again.metadata.variables) == {'n', 'z'}, 'variables')
    rest = [k for k in keys if k not in chosen]
    _check_view(h, schema, again, ref, own, 'the other partitions',
                ['n', 'z'], filters=coll.as_filter(schema, rest), only=rest)
    target = again if crash or h.bool('again') else view
    if not done:
        act(target)
    for k in chosen:
        own[k]['n'] = new[k]
    _check_view(h, schema, target, ref, own, 'once repeated', ['n', 'z'])
    h.done()


def sync(h):
    """Synchronizing a view."""
    schema, ref, col, view, own = _start(h, (2, 2, 1))
    base = col.partition_properties.dir
    keys = sorted(ref)
    view.update(C13.new_n)
    for k, cells_ in _written(ref, keys).items():
        own[k]['n'] = cells_
    _nofill(h)
    # the first partition is extended or replaced, another one is created
    change = h.config['change']
    key = keys[0]
    if change == 'extended':
        ref[key] = ref[key] + [schema.row(h, 'e', 40, key)]
        coll.insert(h, schema, col, ref[key])
    elif change == 'replaced':
        ref[key] = [schema.row(h, 'e', 41, key), schema.row(h, 'f', 42, key)]
        coll.insert(h, schema, col, ref[key])
    else:
        key = (9, )
        ref[key] = [schema.row(h, 'e', 43, key)]
        coll.insert(h, schema, col, ref[key])
    kept = {k: own[k] for k in keys if k != key}
    source = coll.snapshot(col.fs, base)
    mark = f'/{schema.relpath(key)}/'
    files = _files(view, lambda p: p.startswith(mark))
    h.check(not view.is_synced(), 'the reference has changed')
    done = _fault(h, view, view.sync)
    h.check(coll.snapshot(col.fs, base) == source, 'the reference')
    h.check(_files(view, lambda p: p.startswith(mark)) == files,
            'the other partitions of the view')
    again = _reopen(view)
    rest = sorted(kept)
    zds = again.load(delayed=False, filters=coll.as_filter(schema, rest))
    coll.check_rows(h, schema, zds, [r for k in rest for r in ref[k]],
                    'the other partitions')
    crash = done is None and h.config.get('mode') == 'crash'
    if done:
        h.check(again.is_synced(), 'a successful synchronization')
    elif not crash:
        h.check(not again.is_synced(), 'told not to be synchronized')
    target = again if crash or h.bool('again') else view
    target.sync()
    h.check(target.is_synced() and again.is_synced(), 'once repeated')
    n = len(ref[key])
    blank = [MASKED] * n
    final = dict(kept)
    final[key] = {'n': blank}
    if change == 'extended':
        zds = target.load(delayed=False,
                          filters=coll.as_filter(schema, [key]))
        got = [c for c in C13.cells(zds.variables['n'].values)]
        if done or not all(c is MASKED for c in got):
            final[key] = {'n': own[key]['n'] + [MASKED] * (
                n - len(own[key]['n']))}
    _check_view(h, schema, target, ref, final, 'once repeated')
    h.done()


HARNESSES = [
    Harness('variables', variables,
            quick=product(op=['add', 'drop'], sizes=[(1, 2)],
                          mode=['fault', 'crash']) +
            product(op=['add', 'drop'], sizes=[(1, )], kind=['date/D']),
            client=True, samples=3,
            bounds='1-2 partitions, any content; failure at any file '
            'operation'),
    Harness('update', update,
            quick=product(sizes=[(1, 2)], sel=[1, 2],
                          mode=['fault', 'crash']) +
            product(sizes=[(1, 2)], sel=[1], kind=['date/D']),
            client=True, samples=3,
            bounds='2 partitions, 1-2 of them updated'),
    Harness('sync', sync,
            quick=product(change=['extended', 'replaced', 'new']) +
            product(change=['replaced', 'new'], mode=['crash']),
            client=True, samples=3,
            bounds='3 partitions, one of them extended, replaced or created'),
]
OUTSIDE = ('death of the process while a partition of a view is extended; '
           'creation of the view; file systems other than the local one; two '
           'failures in a row')
