"""C05: periods behave as sets of instants."""
from .common import *  # noqa: F401,F403
from .common import Harness, numpy, product

from zcollection.merging.period import Period, PeriodRelation


def _period(h, name, unit, within):
    begin = h.int(f'{name}_begin', -10**15, 10**15, dtype=f'M8[{unit}]')
    end = h.int(f'{name}_end', -10**15, 10**15, dtype=f'M8[{unit}]')
    return begin, end, Period(begin, end, within=within)


def _one(unit):
    return numpy.timedelta64(1, unit)


def _is(h, period, begin, last, what):
    h.check(h.all([h.same(period.begin, begin), h.same(period.last, last)]),
            what)


def single(h):
    """One period, possibly empty, and one instant."""
    unit, within = h.config['unit'], h.config['within']
    begin, end, per = _period(h, 'p', unit, within)
    point = h.int('point', -10**15, 10**15, dtype=f'M8[{unit}]')
    one = _one(unit)
    last = end if within else end - one
    empty = last < begin
    inside = h.all([begin <= point, point <= last])
    h.check(h.same(per.begin, begin), 'begin')
    h.check(h.same(per.last, last), 'last')
    h.check(h.same(per.end(), last + one), 'end is one past the last instant')
    h.check(h.iff(per.is_null(), empty), 'null iff there is no instant in it')
    h.check(h.same(per.length(), last + one - begin), 'length')
    h.check(h.iff(per.contains(point), inside),
            'contains an instant iff it is in [begin, last]')
    h.check(h.iff(per.is_after(point),
                  h.all([h.not_(empty), point < begin])),
            'period is after the instant')
    h.check(h.iff(per.is_before(point),
                  h.all([h.not_(empty), last < point])),
            'period is before the instant')
    delta = h.int('delta', -10**9, 10**9, dtype=f'm8[{unit}]')
    per.shift(delta)
    _is(h, per, begin + delta, last + delta, 'shift moves both ends')
    per.expand(delta)
    _is(h, per, begin, last + delta + delta, 'expand grows both ends')
    from_duration = Period.from_duration(begin, delta)
    _is(h, from_duration, begin, begin + delta - one, 'from_duration')
    h.done()


_REL = {
    'AFTER': lambda b1, l1, b2, l2: [l2 < b1],
    'BEFORE': lambda b1, l1, b2, l2: [l1 < b2],
    'EXACT_MATCH': lambda b1, l1, b2, l2: [b1 == b2, l1 == l2],
    'START_TOUCHING': lambda b1, l1, b2, l2: [b1 == l2],
    'END_TOUCHING': lambda b1, l1, b2, l2: [l1 == b2],
    'ENCLOSING': lambda b1, l1, b2, l2: [b1 < b2, l2 < l1],
    'ENCLOSING_START_TOUCHING': lambda b1, l1, b2, l2: [b1 == b2, l2 < l1],
    'ENCLOSING_END_TOUCHING': lambda b1, l1, b2, l2: [b1 < b2, l2 == l1],
    'INSIDE': lambda b1, l1, b2, l2: [b2 < b1, l1 < l2],
    'INSIDE_START_TOUCHING': lambda b1, l1, b2, l2: [b1 == b2, l1 < l2],
    'INSIDE_END_TOUCHING': lambda b1, l1, b2, l2: [b2 < b1, l1 == l2],
    'START_INSIDE': lambda b1, l1, b2, l2: [b2 < b1, b1 < l2, l2 < l1],
    'END_INSIDE': lambda b1, l1, b2, l2: [b1 < b2, b2 < l1, l1 < l2],
}


def pair(h):
    """Two non-empty periods."""
    unit, within = h.config['unit'], h.config['within']
    b1, e1, p1 = _period(h, 'p', unit, within)
    b2, e2, p2 = _period(h, 'q', unit, within)
    one = _one(unit)
    l1 = e1 if within else e1 - one
    l2 = e2 if within else e2 - one
    h.assume(h.all([b1 <= l1, b2 <= l2]))
    meet = h.all([b1 <= l2, b2 <= l1])
    bmin = lambda r: h.any([h.all([b1 <= b2, h.same(r, b1)]),  # noqa: E731
                            h.all([b2 <= b1, h.same(r, b2)])])
    lmax = lambda r: h.any([h.all([l1 >= l2, h.same(r, l1)]),  # noqa: E731
                            h.all([l2 >= l1, h.same(r, l2)])])
    bmax = lambda r: h.any([h.all([b1 >= b2, h.same(r, b1)]),  # noqa: E731
                            h.all([b2 >= b1, h.same(r, b2)])])
    lmin = lambda r: h.any([h.all([l1 <= l2, h.same(r, l1)]),  # noqa: E731
                            h.all([l2 <= l1, h.same(r, l2)])])
    op = h.config['op']
    if op == 'relation':
        rel = p1.get_relation(p2)
        h.check(h.all(_REL[rel.name](b1, l1, b2, l2)),
                'the relation describes the positions of the periods')
        h.check(h.iff(rel.is_before(), l1 < b2), 'is_before')
        h.check(h.iff(rel.is_after(), l2 < b1), 'is_after')
        groups = [rel.is_before(), rel.is_after(), rel.contains(),
                  rel.is_before_overlapping(), rel.is_after_overlapping(),
                  rel.is_inside()]
        h.check(sum(bool(g) for g in groups) == 1,
                'a relation belongs to a single class')
        covers = h.all([b1 <= b2, l2 <= l1])
        if rel.contains():
            h.check(covers, 'contains only when the other is covered')
        if rel.is_inside():
            h.check(h.all([b2 < b1, l1 < l2]), 'inside')
        if rel.is_before_overlapping():
            h.check(h.all([meet, b1 <= b2, l1 <= l2]), 'before overlapping')
        if rel.is_after_overlapping():
            h.check(h.all([meet, b1 >= b2, l1 >= l2]), 'after overlapping')
    elif op == 'sets':
        h.check(h.iff(p1.intersects(p2), meet),
                'intersects iff an instant is in both')
        h.check(h.iff(p1.contains(p2), h.all([b1 <= b2, l2 <= l1])),
                'contains iff all the instants of the other are in it')
        h.check(h.iff(p1.is_adjacent(p2),
                      h.any([l1 + one == b2, l2 + one == b1])), 'adjacent')
        h.check(h.iff(p1 == p2, h.all([b1 == b2, l1 == l2])), 'equality')
        h.check(h.iff(p1 != p2, h.any([b1 != b2, l1 != l2])), 'inequality')
        h.check(h.iff(p1 < p2, l1 < b2), 'order')
    elif op == 'intersection':
        inter = p1.intersection(p2)
        h.check(h.iff(h.not_(inter.is_null()), meet),
                'the intersection is null iff the periods are disjoint')
        if not inter.is_null():
            h.check(h.all([bmax(inter.begin), lmin(inter.last)]),
                    'the intersection holds exactly the common instants')
    else:
        span = p1.span(p2)
        h.check(h.all([bmin(span.begin), lmax(span.last)]),
                'the span goes from the earliest start to the latest end')
        merged = p1.merge(p2)
        h.check(h.iff(h.not_(merged.is_null()), meet),
                'the union of disjoint periods is null')
        if not merged.is_null():
            h.check(h.all([bmin(merged.begin), lmax(merged.last)]),
                    'the union of the periods')
    h.check(h.all([h.same(p1.begin, b1), h.same(p1.last, l1),
                   h.same(p2.begin, b2), h.same(p2.last, l2)]),
            'the operands are unchanged')
    h.done()


HARNESSES = [
    Harness('single', single, quick=product(unit=['ns', 'D'],
                                            within=[True, False]),
            bounds='bounds and instant anywhere in [-10^15, 10^15] units, '
            'empty periods included'),
    Harness('pair', pair, quick=product(
        op=['relation', 'sets', 'intersection', 'union'], unit=['ns', 's'],
        within=[True, False]),
        bounds='two non-empty periods anywhere in [-10^15, 10^15] units'),
]
OUTSIDE = ('periods whose bounds have different time units; binary operations '
           'on empty periods; instants beyond 10^15 units (overflow)')
