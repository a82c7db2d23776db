"""C09: filters select exactly the partitions satisfying them."""
from .common import *  # noqa: F401,F403
from .common import Harness, product
from . import coll

_SEQ = ['k == {a}', 'k != {a}', 'k < {a}', 'k >= {a} and k < {b}',
        'k in range({a}, {b})', 'k in ({a}, {b})', 'not k == {a}',
        'k == {a} or k == {b}', 'k % 2 == {a} % 2', '{a} <= k <= {b}',
        'k', 'k - {a}']
_SEQ2 = ['k == {a}', 'l == {a}', 'k == {a} and l == {b}',
         'k == {a} or l == {b}', 'k + l > {a} + {b}', 'k < l', 'l in range({a})']
_DATE = ['year == 2020', 'month == {a}', 'day > {a}', 'month == 1 or day == {a}',
         'day in range({a}, {b})', 'year == 2020 and month == 2 and day == {a}']
_LAMBDAS = [lambda a, b, x: x['k'] == a, lambda a, b, x: 0,
            lambda a, b, x: a <= x['k'] < b, lambda a, b, x: x['k'] - a]


def _check(h, schema, col, model, want, filters, what):
    got = [str(p) for p in col.partitions(filters=filters, relative=True)]
    names = [schema.relpath(k) for k in want]
    h.check(got == names, f'{what}: {got} instead of {names}')
    h.check([str(p) for p in col.partitions(filters=filters, lock=True)] == [
        f'{col.partition_properties.dir}/{n}' for n in names],
        f'{what}: partitions under lock')
    delayed = h.config.get('delayed', False)
    zds = col.load(filters=filters, delayed=delayed)
    if not want:
        h.check(zds is None, f'{what}: nothing selected, nothing loaded')
    else:
        h.check(zds is not None, f'{what}: something is loaded')
        coll.check_rows(h, schema, zds, [r for k in want for r in model[k]],
                        what)


def predicate(h):
    """Any predicate, given as a callable."""
    schema = coll.Schema(h.config['kind'])
    model = coll.fixed(h, schema, h.config['sizes'])
    col = coll.build(h, schema, model)
    want = sorted(coll.predicate(h, 'sel', sorted(model)))
    _check(h, schema, col, model, want, coll.as_filter(schema, want),
           'callable filter')
    h.done()


def expression(h):
    """Expressions: same selection as their evaluation on the keys."""
    kind = h.config['kind']
    schema = coll.Schema(kind, wdims=0)
    model = coll.fixed(h, schema, h.config['sizes'], payload=False,
                       domain=h.config.get('domain', (1, 2, 3, 4)))
    col = coll.build(h, schema, model)
    text = h.choice('text', {'seq': _SEQ, 'seq2': _SEQ2}.get(kind, _DATE))
    lo, hi = h.config.get('range', (0, 4))
    a = h.concrete_int('a', lo, hi)
    b = h.concrete_int('b', lo, hi) if '{b}' in text else 0
    text = text.format(a=a, b=b)
    want = [k for k in sorted(model)
            if eval(text, dict(zip(schema.names(), k)))]  # noqa: S307
    _check(h, schema, col, model, want, text, f'filter {text!r}')
    h.done()


def truthiness(h):
    """A callable is free to return any truth value."""
    schema = coll.Schema('seq', wdims=0)
    model = coll.fixed(h, schema, (1, 2, 1), payload=False)
    col = coll.build(h, schema, model)
    func = h.choice('func', _LAMBDAS)
    a, b = h.concrete_int('a', 0, 4), h.concrete_int('b', 0, 4)
    want = [k for k in sorted(model) if func(a, b, {'k': k[0]})]
    _check(h, schema, col, model, want, lambda x: func(a, b, x), 'callable')
    h.done()


def unknown(h):
    """A name that is not a key is an error, never a selection."""
    schema = coll.Schema(h.config['kind'], wdims=0)
    model = coll.fixed(h, schema, (1, 1), payload=False)
    col = coll.build(h, schema, model)
    text = h.choice('text', ['z == 1', 'v == 1', 'z', 'len(z) > 1',
                             'open == 1'])
    h.check(h.raises((NameError, ), lambda: list(col.partitions(
        filters=text))), f'{text!r} is refused')
    h.check(h.raises((NameError, ), lambda: col.load(filters=text)),
            f'{text!r} is refused')
    h.done()


def variables(h):
    """selected_variables restricts the variables and nothing else."""
    schema = coll.Schema(h.config['kind'], immutable=h.config['immutable'])
    model = coll.fixed(h, schema, (1, 2))
    col = coll.build(h, schema, model)
    names = list(col.metadata.variables)
    keep = [n for n in names if h.bool(f'keep_{n}')]
    if not keep:
        return
    zds = col.load(selected_variables=keep, delayed=h.config['delayed'])
    h.check(set(zds.variables) == set(keep), 'selected variables')
    rows = [r for k in sorted(model) for r in model[k]]
    coll.check_rows(h, schema, zds, rows, 'selected variables',
                    variables=[n for n in keep if n != 'c'])
    h.done()


HARNESSES = [
    Harness('predicate', predicate,
            quick=product(kind=['seq', 'date/D', 'date/M'], sizes=[(1, 2, 1)]) +
            product(kind=['seq2'], sizes=[(1, 2, 1, 1)], delayed=[True]),
            thorough=product(kind=['seq', 'seq2', 'date/D'],
                             sizes=[(1, 1, 1, 1, 1)], delayed=[True, False]),
            client=True, bounds='every predicate over 3-4 partitions (5 '
            'thorough), any content'),
    Harness('expression', expression,
            quick=product(kind=['seq'], sizes=[(1, 2, 1)]) +
            product(kind=['seq2'], sizes=[(1, 1, 1, 1)], range=[(0, 3)]) +
            product(kind=['date/D'], sizes=[(1, 1, 1)], domain=[(0, 1, 2)],
                    range=[(0, 3)]) +
            product(kind=['date/D'], sizes=[(1, 1, 1)], domain=[(0, 1, 400)],
                    range=[(29, 31)]),
            client=True, samples=1,
            bounds='25 expression shapes with every constant of a small '
            'range, 3-4 partitions'),
    Harness('truthiness', truthiness, quick=[{'delayed': True}], client=True,
            bounds='4 shapes of callables'),
    Harness('unknown', unknown, quick=product(kind=['seq', 'date/D']),
            client=True, bounds='5 expressions'),
    Harness('variables', variables,
            quick=product(kind=['seq', 'seq2'], immutable=[False, True],
                          delayed=[True]) +
            product(kind=['seq'], immutable=[True], delayed=[False]),
            client=True, samples=1, bounds='every subset of the variables'),
]
OUTSIDE = 'other expressions; more partitions'
