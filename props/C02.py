"""C02: the name of a partition and its key determine each other."""
from .common import *  # noqa: F401,F403
from .common import Harness, dataset, numpy, partitioning, product, variable
from . import coll

_EDGE = [-2**63, -2**31, -100, -10, -1, 0, 1, 7, 9, 10, 11, 99, 100, 1000,
         2**31, 2**63 - 1]
_NAMES = ['k', 'kk', 'l']
_UNITS = ('year', 'month', 'day', 'hour', 'minute', 'second')
_PREFIX = ['', '/', '/zc/', '/data/zc/', 'bucket/zc/', '/a=1/zc/', '/k=3/zc/',
           '/k=3/l=4/', '/year=1999/zc/', '/k/', '/xk=2/zc/']


def sequence(h):
    n = h.config['keys']
    names = _NAMES[:n] if not h.config.get('rev') else _NAMES[:n][::-1]
    key = tuple(int(h.choice(f'key{i}', _EDGE)) for i in range(n))
    part = partitioning.Sequence(names)
    scheme = tuple(zip(names, key))
    name = part.join(scheme, '/')
    h.check(name == '/'.join(f'{k}={v}' for k, v in scheme),
            'name of the partition')
    prefix = h.choice('prefix', _PREFIX)
    got = part.parse(prefix + name)
    h.check(got == scheme, f'parse({prefix + name!r}) = {got}')
    h.check(part.encode(scheme) == key, 'encode')
    h.check(part.decode(key) == scheme, 'decode')
    h.check(part.decode(part.encode(got)) == got, 'codec round trip')
    h.done()


def date(h):
    res, unit = h.config['res'], h.config['unit']
    count = ['Y', 'M', 'D', 'h', 'm', 's'].index(res) + 1
    base = numpy.datetime64(h.config['at']).astype(f'M8[{res}]')
    step = h.concrete_int('step', -h.config['span'], h.config['span'])
    when = base + step
    item = when.astype('M8[s]').item()
    fields = (item.year, item.month, item.day, item.hour, item.minute,
              item.second)[:count]
    part = partitioning.Date(('time', ), res)
    scheme = tuple(zip(_UNITS, fields))
    name = part.join(scheme, '/')
    h.check(name == '/'.join(f'{k}={v:02d}' for k, v in scheme),
            'name of the partition')
    prefix = h.choice('prefix', _PREFIX[:5])
    h.check(part.parse(prefix + name) == scheme, 'parse')
    code = part.encode(scheme)
    h.check(len(code) == 1 and code[0] == when, 'encode')
    h.check(part.decode(code) == scheme, 'decode')
    h.check(part.decode((when.astype(f'M8[{unit}]'), )) == scheme,
            'decode of a finer date')
    # the name given by the split is the name given by join
    zds = dataset.Dataset([variable('time', numpy.array(
        [when]).astype(f'M8[{unit}]'), ('x', ))])
    split = list(part.split_dataset(zds, 'x'))
    h.check(len(split) == 1 and '/'.join(split[0][0]) == name,
            'split and join agree')
    h.done()


def reject(h):
    """A path that is not a partition of this scheme is refused."""
    part = partitioning.Sequence(['k', 'l'])
    bad = h.choice('bad', ['', '/', 'k=1', 'l=1', 'l=1/k=2', 'k=1/l=',
                           'k=1/l=a', 'k/l', 'k=/l=2', 'k=1/l=2.5',
                           'year=2000/month=01'])
    prefix = h.choice('prefix', ['', '/zc/', '/data/'])
    try:
        part.parse(prefix + bad)
    except ValueError:
        h.done()
        return
    h.fail(f'{prefix + bad!r} is accepted')


def listing(h):
    """Partitions are listed in the order of their keys, wherever stored."""
    kind = h.config['kind']
    schema = coll.Schema(kind, delayed=False, wdims=0)
    base = h.choice('base', h.config['bases'])
    fs, root = h.filesystem('memory')
    rows = schema.rows(h, 'a', 2, domain=h.config['domain'], payload=False,
                       step=h.config.get('step', coll.DAY))
    col = schema.create(h, (fs, base))
    for r in reversed(rows):
        coll.insert(h, schema, col, [r])
    model = coll.group(rows)
    if len(model) == 1:
        model = coll.group(rows[:1])
    coll.check_collection(h, schema, col, model, 'listing')
    full = [str(p) for p in col.partitions()]
    h.check(full == [f'{base}/{schema.relpath(k)}' for k in sorted(model)],
            'full paths')
    keep = [k for k in sorted(model) if k >= rows[1].key]
    h.check([str(p) for p in col.partitions(filters=coll.as_filter(
        schema, keep))] == [f'{base}/{schema.relpath(k)}' for k in keep],
            'filtered paths')
    # inserting again, through the replacement of the partitions
    coll.insert(h, schema, col, rows)
    coll.check_collection(h, schema, col, coll.group(rows), 'second insertion')
    h.check(set(coll.snapshot(fs, '/')) == {
        base + name for name in coll.snapshot(fs, base)},
        'nothing is written outside of the collection')
    others = [d for d in fs.find('/', withdirs=True)
              if not (d + '/').startswith(base + '/')
              and not (base + '/').startswith(d.rstrip('/') + '/')]
    h.check(not others, f'directories left outside of the collection {others}')
    h.done()


HARNESSES = [
    Harness('sequence', sequence,
            quick=product(keys=[1, 2], rev=[False, True]),
            thorough=product(keys=[3], rev=[False, True]),
            bounds='1-2 keys (3 thorough) among 16 edge values of int64, 11 '
            'base directories'),
    Harness('date', date,
            quick=product(res=['Y'], unit=['ns'], at=['2000'], span=[40]) +
            product(res=['Y'], unit=['s', 'us'], at=['0041', '1000', '9959'],
                    span=[40]) +
            product(res=['M'], unit=['D'], at=['2000-01', '0100-01',
                                               '1000-01'], span=[30]) +
            product(res=['D', 's'], unit=['s'], at=['0999-12-31'],
                    span=[35]) +
            product(res=['D'], unit=['ns'], at=['2000-02-28', '1969-12-31'],
                    span=[35]) +
            product(res=['h', 'm', 's'], unit=['ns', 's'],
                    at=['1999-12-31T23:59:59'], span=[30]),
            bounds='every period within +-30 steps of calendar boundaries'),
    Harness('reject', reject, bounds='11 malformed names, 3 prefixes'),
    Harness('listing', listing,
            quick=product(kind=['seq'], domain=[(-10, -9, 2, 9, 10)],
                          bases=[('/zc', '/k', '/k=5/zc')]) +
            product(kind=['seq2'], domain=[(9, 10)],
                    bases=[('/zc', '/a/k=1/zc')]) +
            product(kind=['date/D', 'date/M'], domain=[(-40, 0, 1, 2, 333)],
                    bases=[('/zc', '/year=2000/zc')]),
            client=True, bounds='2 rows with any keys of the domain, several '
            'base directories'),
]
OUTSIDE = ('keys that are not among the edge values; path separators other '
           'than "/"')
