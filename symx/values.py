"""Symbolic scalars (SymVal) and arrays (SymArray).

A ``SymVal`` is a z3 Int (or Bool) term with the numpy dtype it stands for
(``None``: a plain Python int/bool).  datetime64/timedelta64 values are the
number of units of their dtype.  float64 values are restricted to integral
ones (stated bound).

A ``SymArray`` is a numpy.ndarray subclass whose storage is an object array of
SymVal and whose ``dtype`` is the logical dtype.  numpy's own dispatch
protocols (``__array_ufunc__``/``__array_function__``) route the operations of
the code under test to the term-building implementations below.
"""
from __future__ import annotations

import datetime
import functools
import operator

import numpy

from . import core
from .z3imp import z3

_I64MIN = -2**63

BOOL = numpy.dtype(bool)
INT64 = numpy.dtype('int64')

# Seconds per linear time unit as (num, den)
_LIN = {
    'W': 604800 * 10**9, 'D': 86400 * 10**9, 'h': 3600 * 10**9,
    'm': 60 * 10**9, 's': 10**9, 'ms': 10**6, 'us': 10**3, 'ns': 1,
}


def unit_of(dtype):
    return numpy.datetime_data(dtype)[0]


# -- calendar -----------------------------------------------------------------
# Months are tabulated over a window (a stated bound of the harnesses); outside
# of it the path is infeasible for the harness and never built.
CAL_FIRST = 2015
CAL_LAST = 2030


@functools.lru_cache(None)
def _months():
    """[(first day number, year, month)]"""
    return [((datetime.date(y, m, 1) - datetime.date(1970, 1, 1)).days, y, m)
            for y in range(CAL_FIRST, CAL_LAST + 1) for m in range(1, 13)]


def cal_window_days():
    months = _months()
    return months[0][0], months[-1][0] + 30


def _month_index(day):
    """z3 term: months since 1970 of a day number."""
    months = _months()
    expr = z3.IntVal((CAL_FIRST - 1970) * 12)
    for first, y, m in months[1:]:
        expr = z3.If(day >= first, z3.IntVal((y - 1970) * 12 + m - 1), expr)
    return expr


def _month_index_bounded(day):
    """Resolve the month of a day by bisection on the path condition: forks
    only over the feasible months."""
    months = _months()
    lo, hi = 0, len(months) - 1
    path = core.current()
    if path.branch(day < months[0][0]) or path.branch(day > months[-1][0] + 30):
        path.notes.append('date outside of the tabulated calendar')
        raise core.PathAborted('date outside of the tabulated calendar')
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if path.branch(day >= months[mid][0]):
            lo = mid
        else:
            hi = mid - 1
    return months[lo]


def convert_time(e, src, dst):
    """Convert a count of ``src`` units (dtype M8/m8) into ``dst`` units."""
    us, ud = unit_of(src), unit_of(dst)
    ns_, nd = numpy.datetime_data(src)[1], numpy.datetime_data(dst)[1]
    if ns_ != 1 or nd != 1:
        raise core.PathAborted('multiples of time units are not modelled')
    if us == ud or 'generic' in (us, ud):
        return e
    if us in _LIN and ud in _LIN:
        a, b = _LIN[us], _LIN[ud]
        if a >= b:
            return e * (a // b)
        # numpy floors datetimes and timedeltas alike when downscaling... only
        # datetimes are floored; timedeltas are truncated toward zero.
        q = b // a
        if dst.kind == 'M':
            return e / z3.IntVal(q)
        return z3.If(e >= 0, e / z3.IntVal(q), -((-e) / z3.IntVal(q)))
    if us in _LIN and ud in ('M', 'Y'):
        day = convert_time(e, src, numpy.dtype('M8[D]'))
        day = z3.simplify(day)
        _, y, m = _month_index_bounded(day)
        return z3.IntVal((y - 1970) * 12 + m - 1 if ud == 'M' else y - 1970)
    if us == 'M' and ud == 'Y':
        return e / z3.IntVal(12)
    if us == 'Y' and ud == 'M':
        return e * 12
    if us in ('Y', 'M'):
        # back to days: realize the month (bounded by the calendar)
        val = core.current().value(e)
        day = numpy.datetime64(val, us).astype('M8[D]').astype(int)
        return convert_time(z3.IntVal(int(day)), numpy.dtype('M8[D]'), dst)
    raise core.PathAborted(f'time conversion {src} -> {dst} not modelled')


class SymDatetime:
    """datetime.datetime of a symbolic instant (microsecond part ignored)."""

    def __init__(self, sec):
        self._sec = sec  # z3: seconds since the epoch
        self._day = z3.simplify(sec / z3.IntVal(86400))
        self._civil = None

    @property
    def __class__(self):
        return datetime.datetime

    def _month(self):
        if self._civil is None:
            self._civil = _month_index_bounded(self._day)
        return self._civil

    @property
    def year(self):
        return self._month()[1]

    @property
    def month(self):
        return self._month()[2]

    @property
    def day(self):
        return mk(self._day - self._month()[0] + 1, None)

    @property
    def hour(self):
        return mk((self._sec - self._day * 86400) / z3.IntVal(3600), None)

    @property
    def minute(self):
        return mk((self._sec / z3.IntVal(60)) % 60, None)

    @property
    def second(self):
        return mk(self._sec % 60, None)

    @property
    def microsecond(self):
        return 0

    tzinfo = None

    def realize(self):
        val = core.current().value(self._sec)
        return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=val)

    def __getattr__(self, name):
        return getattr(self.realize(), name)

    def __format__(self, spec):
        return format(self.realize(), spec)

    def __str__(self):
        return str(self.realize())


def _is_const(e):
    return z3.is_int_value(e) or z3.is_true(e) or z3.is_false(e)


def _const(e):
    if z3.is_int_value(e):
        return e.as_long()
    return z3.is_true(e)


def to_scalar(value, dtype):
    """Concrete scalar of the logical dtype."""
    if dtype is None:
        return value
    if dtype.kind in 'mM':
        u = unit_of(dtype)
        cls = numpy.datetime64 if dtype.kind == 'M' else numpy.timedelta64
        return cls(int(value), u) if u != 'generic' else cls(int(value))
    return dtype.type(value)


def mk(e, dtype):
    """SymVal, or a concrete scalar when the term is constant."""
    e = z3.simplify(e)
    if _is_const(e):
        return to_scalar(_const(e), dtype)
    return SymVal(e, dtype)


def lift(x, dtype=None):
    """z3 term of a concrete or symbolic scalar, with its dtype."""
    if type(x) is SymVal:
        return x.e, x._dtype
    if isinstance(x, (bool, numpy.bool_)):
        return z3.BoolVal(bool(x)), (None if isinstance(x, bool) else BOOL)
    if isinstance(x, int):
        return z3.IntVal(x), None
    if isinstance(x, (numpy.datetime64, numpy.timedelta64)):
        v = int(x.astype('int64'))
        return z3.IntVal(v), x.dtype
    if isinstance(x, numpy.integer):
        return z3.IntVal(int(x)), x.dtype
    if isinstance(x, (float, numpy.floating)):
        if float(x).is_integer():
            return z3.IntVal(int(x)), numpy.dtype(type(x)) if isinstance(
                x, numpy.floating) else numpy.dtype('float64')
        return None, numpy.dtype('float64')
    if isinstance(x, numpy.ndarray) and x.ndim == 0:
        return lift(x[()])
    if isinstance(x, datetime.timedelta):
        return lift(numpy.timedelta64(x))
    if isinstance(x, datetime.datetime) and type(x) is not SymDatetime:
        return lift(numpy.datetime64(x))
    return None, None


def _as_int(e):
    return z3.If(e, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(e) else e


def _as_bool(e):
    return e if z3.is_bool(e) else e != 0


@functools.lru_cache(None)
def _ufunc_dtype(name, dts):
    ufunc = getattr(numpy, name)
    return ufunc(*[numpy.ones(1, d) for d in dts]).dtype


def _dt_for(x, other_dt):
    return x


_CMP = {
    'less': operator.lt, 'less_equal': operator.le, 'greater': operator.gt,
    'greater_equal': operator.ge, 'equal': operator.eq,
    'not_equal': operator.ne,
}


def _common(a, da, b, db):
    """Bring two terms to a common time unit."""
    if da is not None and db is not None and (da.kind in 'mM'
                                              and db.kind in 'mM'):
        if da.kind != db.kind:
            # M8 +/- m8: units promoted
            ua, ub = unit_of(da), unit_of(db)
            fine = ua if _LIN.get(ua, 1 << 70) <= _LIN.get(ub, 1 << 70) else ub
            if ua == 'generic':
                fine = ub
            if ub == 'generic':
                fine = ua
            a = convert_time(a, da, numpy.dtype(f'{da.kind}8[{fine}]'))
            b = convert_time(b, db, numpy.dtype(f'{db.kind}8[{fine}]'))
            return a, b
        dt = numpy.promote_types(da, db)
        return convert_time(a, da, dt), convert_time(b, db, dt)
    return a, b


class _Unsupported(Exception):
    pass


def apply_ufunc(name, args):
    """Apply a ufunc to scalars (SymVal or concrete); returns z3 term, dtype."""
    terms = [lift(a) for a in args]
    dts = []
    for (e, d), a in zip(terms, args):
        if e is None:
            raise _Unsupported(f'{name} on {type(a)}')
        dts.append(d)
    es = [t[0] for t in terms]
    py = all(d is None for d in dts)
    # dtype of the result
    if py:
        rdt = None
    else:
        fill = next(d for d in dts if d is not None)
        rds = []
        for d, a in zip(dts, args):
            if d is None:
                if fill.kind == 'M' or (fill.kind == 'm'
                                        and name in ('multiply', 'divide',
                                                     'floor_divide')):
                    d = INT64
                elif fill.kind in 'm':
                    d = fill if name not in ('true_divide', ) else INT64
                else:
                    d = BOOL if isinstance(a, bool) else (
                        fill if fill.kind in 'iuf' else INT64)
            rds.append(d)
        try:
            rdt = _ufunc_dtype(name, tuple(rds))
        except TypeError as exc:
            # same error numpy reports for these operands
            raise exc
    if name in _CMP:
        a, b = es
        if z3.is_bool(a) != z3.is_bool(b):
            a, b = _as_int(a), _as_int(b)
        elif z3.is_bool(a) and name not in ('equal', 'not_equal'):
            a, b = _as_int(a), _as_int(b)
        a, b = _common(a, dts[0], b, dts[1])
        return _CMP[name](a, b), (None if py else BOOL)
    if name in ('logical_and', 'logical_or', 'logical_xor', 'logical_not') or (
            name in ('bitwise_and', 'bitwise_or', 'bitwise_xor', 'invert')
            and all(z3.is_bool(e) for e in es)):
        bs = [_as_bool(e) for e in es]
        if name.endswith('and'):
            r = z3.And(*bs)
        elif name.endswith('xor'):
            r = z3.Xor(*bs)
        elif name.endswith('or'):
            r = z3.Or(*bs)
        else:
            r = z3.Not(bs[0])
        return r, (None if py else BOOL)
    if name in ('isnan', 'isnat', 'isinf'):
        return z3.BoolVal(False), BOOL
    if name == 'isfinite':
        return z3.BoolVal(True), BOOL
    es = [_as_int(e) for e in es]
    if name in ('add', 'subtract'):
        a, b = _common(es[0], dts[0], es[1], dts[1])
        return (a + b if name == 'add' else a - b), rdt
    if name in ('maximum', 'minimum', 'fmax', 'fmin'):
        a, b = _common(es[0], dts[0], es[1], dts[1])
        c = a >= b if name in ('maximum', 'fmax') else a <= b
        return z3.If(c, a, b), rdt
    if name == 'multiply':
        return es[0] * es[1], rdt
    if name in ('floor_divide', 'remainder', 'mod', 'divmod'):
        a, b = _common(es[0], dts[0], es[1], dts[1])
        b = z3.simplify(b)
        if not z3.is_int_value(b):
            b = z3.IntVal(core.current().value(b))
        n = b.as_long()
        if n == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        # z3 div/mod are Euclidean: equal to floor semantics when n > 0
        if n > 0:
            q, r = a / b, a % b
        else:
            q = (-a) / z3.IntVal(-n)
            r = a - q * n
        return (q if name == 'floor_divide' else r), rdt
    if name == 'negative':
        return -es[0], rdt
    if name == 'positive':
        return es[0], rdt
    if name in ('absolute', 'fabs'):
        return z3.If(es[0] >= 0, es[0], -es[0]), rdt
    if name == 'sign':
        return z3.If(es[0] > 0, 1, z3.If(es[0] < 0, -1, 0)), rdt
    if name == 'square':
        return es[0] * es[0], rdt
    if name in ('floor', 'ceil', 'rint', 'trunc'):
        return es[0], rdt
    if name == 'bitwise_and' and z3.is_int_value(es[1]):
        n = es[1].as_long()
        if n >= 0 and (n & (n + 1)) == 0:
            return es[0] % (n + 1), rdt
    raise _Unsupported(name)


def scalar_op(name, *args):
    try:
        e, dt = apply_ufunc(name, args)
    except _Unsupported:
        path = core.current()
        path.notes.append(f'operation {name} executed on realized values')
        return getattr(numpy, name)(*[realize(a) for a in args])
    return mk(e, dt)


def realize(x):
    """Concrete counterpart of a value (forks over its feasible values)."""
    if type(x) is SymVal:
        return x.realize()
    if type(x) is SymArray:
        return x.realize()
    if type(x) is SymDatetime:
        return x.realize()
    return x


def _binop(name, swap=False):

    def func(self, other):
        if isinstance(other, numpy.ndarray) and other.ndim:
            args = (other, self) if swap else (self, other)
            return array_ufunc(getattr(numpy, name), '__call__', args, {})
        e, _ = lift(other)
        if e is None and not isinstance(other, (float, numpy.floating)):
            return NotImplemented
        if e is None:
            other_r = other
            return getattr(numpy, name)(*((other_r, self.realize()) if swap
                                          else (self.realize(), other_r)))
        return scalar_op(name, *((other, self) if swap else (self, other)))

    return func


class SymVal:
    """Symbolic scalar."""
    __slots__ = ('e', '_dtype')
    __array_priority__ = 2000
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, e, dtype):
        self.e = e
        self._dtype = dtype

    @property
    def __class__(self):
        if self._dtype is None:
            return bool if z3.is_bool(self.e) else int
        return self._dtype.type

    @property
    def dtype(self):
        if self._dtype is None:
            raise AttributeError('dtype')
        return self._dtype

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.dtype.itemsize

    @property
    def real(self):
        return self

    def realize(self):
        path = core.current()
        if z3.is_bool(self.e):
            v = path.branch(self.e)
        else:
            v = path.value(self.e)
        return to_scalar(v, self._dtype)

    def __bool__(self):
        return core.current().branch(_as_bool(self.e))

    def __index__(self):
        if self._dtype is not None and self._dtype.kind not in 'iu':
            if self._dtype.kind == 'b':
                return int(bool(self))
            raise TypeError('only integer scalars can be used as an index')
        return int(self.realize())

    def __int__(self):
        return int(core.current().value(_as_int(self.e)))

    def __float__(self):
        return float(int(self))

    def __hash__(self):
        return hash(self.realize())

    def __repr__(self):
        if not core.active():
            return f'SymVal({self.e})'
        return repr(self.realize())

    def __str__(self):
        if not core.active():
            return f'SymVal({self.e})'
        return str(self.realize())

    def __format__(self, spec):
        return format(self.realize(), spec)

    def __reduce__(self):
        return (_unpickle, (self.realize(), ))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numpy scalar protocol
    def item(self, *args):
        if self._dtype is None:
            return self
        if self._dtype.kind == 'M':
            u = unit_of(self._dtype)
            if u in ('ns', ):
                return mk(self.e, None)
            if u in ('Y', 'M', 'W', 'D'):
                v = self.realize()
                return v.item()
            sec = convert_time(self.e, self._dtype, numpy.dtype('M8[s]'))
            return SymDatetime(z3.simplify(sec))
        if self._dtype.kind == 'm':
            return self.realize().item()
        if self._dtype.kind == 'f':
            return float(self)
        return SymVal(self.e, None)

    def tolist(self):
        return self.item()

    def astype(self, dtype, *args, **kwargs):
        return mk(*cast(self.e, self._dtype or INT64, numpy.dtype(dtype)))

    def view(self, dtype=None, type=None):
        if dtype is None:
            return self
        return SymVal(self.e, numpy.dtype(dtype))

    def copy(self):
        return self

    def __array__(self, dtype=None, **kw):
        return numpy.asarray(self.realize(), dtype=dtype)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)

    def min(self, *a, **k):
        return self

    max = min

    def tobytes(self):
        return encode_scalar(self).tobytes()

    def __round__(self, n=None):
        return self

    def conjugate(self):
        return self

    def __getitem__(self, key):
        if key == () or key is Ellipsis:
            return self
        raise IndexError('invalid index to scalar variable.')

    __lt__ = _binop('less')
    __le__ = _binop('less_equal')
    __gt__ = _binop('greater')
    __ge__ = _binop('greater_equal')
    __add__ = _binop('add')
    __radd__ = _binop('add', True)
    __sub__ = _binop('subtract')
    __rsub__ = _binop('subtract', True)
    __mul__ = _binop('multiply')
    __rmul__ = _binop('multiply', True)
    __floordiv__ = _binop('floor_divide')
    __rfloordiv__ = _binop('floor_divide', True)
    __mod__ = _binop('remainder')
    __rmod__ = _binop('remainder', True)
    __and__ = _binop('bitwise_and')
    __rand__ = _binop('bitwise_and', True)
    __or__ = _binop('bitwise_or')
    __ror__ = _binop('bitwise_or', True)
    __xor__ = _binop('bitwise_xor')
    __rxor__ = _binop('bitwise_xor', True)
    __truediv__ = _binop('true_divide')
    __rtruediv__ = _binop('true_divide', True)
    __lshift__ = _binop('left_shift')
    __rshift__ = _binop('right_shift')
    __pow__ = _binop('power')

    def __divmod__(self, other):
        return self // other, self % other

    def __rdivmod__(self, other):
        return other // self, other % self

    def __eq__(self, other):
        if isinstance(other, numpy.ndarray) and other.ndim:
            return array_ufunc(numpy.equal, '__call__', (self, other), {})
        if lift(other)[0] is None:
            return False
        try:
            return scalar_op('equal', self, other)
        except TypeError:
            return False

    def __ne__(self, other):
        if isinstance(other, numpy.ndarray) and other.ndim:
            return array_ufunc(numpy.not_equal, '__call__', (self, other), {})
        if lift(other)[0] is None:
            return True
        try:
            return scalar_op('not_equal', self, other)
        except TypeError:
            return True

    def __neg__(self):
        return scalar_op('negative', self)

    def __pos__(self):
        return self

    def __abs__(self):
        return scalar_op('absolute', self)

    def __invert__(self):
        return scalar_op('invert' if z3.is_bool(self.e) else 'invert', self)


def _unpickle(x):
    return x


def cast(e, src, dst):
    """astype on a term."""
    if src == dst:
        return e, dst
    if dst.kind == 'b':
        return _as_bool(e), dst
    e = _as_int(e)
    if src.kind in 'mM' and dst.kind == src.kind:
        if unit_of(dst) == 'generic':
            dst = src
        return convert_time(e, src, dst), dst
    if dst.kind in 'iu':
        bits = dst.itemsize * 8
        if src.kind in 'mM' and bits == 64:
            return e, dst
        # machine integers wrap around
        if dst.kind == 'u':
            lo, hi = 0, 2**bits - 1
        else:
            lo, hi = -2**(bits - 1), 2**(bits - 1) - 1
        if src.kind in 'iu':
            smin = 0 if src.kind == 'u' else -2**(src.itemsize * 8 - 1)
            smax = (2**(src.itemsize * 8) - 1) if src.kind == 'u' else (
                2**(src.itemsize * 8 - 1) - 1)
            if lo <= smin and smax <= hi:
                return e, dst
        wrapped = (e - lo) % (2**bits) + lo
        return z3.If(z3.And(e >= lo, e <= hi), e, wrapped), dst
    return e, dst


# -- handles -----------------------------------------------------------------
# Byte-level consumers (zarr chunks) see a 64 bit handle in place of a term.
_HANDLE_BASE = 0x43A5BEEF00000000


def handle_for(val: SymVal) -> int:
    path = core.current()
    e = _as_int(val.e)
    key = e.get_id()
    h = path.handle_of.get(key)
    if h is None:
        h = _HANDLE_BASE + len(path.handles)
        path.handles[h] = (e, )
        path.handle_of[key] = h
    return h


def canonical_handle(val: SymVal) -> int:
    """Handle shared by all the terms equal to val on this path (forks)."""
    path = core.current()
    e = _as_int(val.e)
    for h, (other, *_rest) in path.extra.setdefault('_canon', {}).items():
        if other.eq(e) or path.branch(other == e):
            return h
    h = handle_for(val)
    path.extra['_canon'][h] = (e, )
    return h


def encode_scalar(val):
    return numpy.array([canonical_handle(val)], dtype='int64')


def encode(arr: 'SymArray', canonical=False) -> numpy.ndarray:
    """Real ndarray of the logical dtype; symbolic cells hold handles."""
    dt = arr.dtype
    flat = arr.base_object().ravel()
    out = numpy.empty(flat.shape, dtype=dt)
    if dt.itemsize == 8 and dt.kind in 'iufmM':
        raw = out.view('int64')
        for i, v in enumerate(flat):
            if type(v) is SymVal:
                raw[i] = canonical_handle(v) if canonical else handle_for(v)
            else:
                out[i] = v
    else:
        for i, v in enumerate(flat):
            out[i] = realize(v)
    return out.reshape(arr.shape)


def decode(arr):
    """Inverse of encode: SymArray if some cell holds a handle."""
    if not core.active():
        return arr
    path = core.current()
    if not path.handles or type(arr) is not numpy.ndarray:
        if isinstance(arr, numpy.generic):
            return decode_scalar(arr)
        return arr
    dt = arr.dtype
    if dt.itemsize != 8 or dt.kind not in 'iufmM':
        return arr
    raw = numpy.ascontiguousarray(arr).view('int64').reshape(arr.shape)
    hit = (raw >= _HANDLE_BASE) & (raw < _HANDLE_BASE + len(path.handles))
    if not hit.any():
        return arr
    obj = numpy.empty(arr.shape, dtype=object)
    for ix in numpy.ndindex(*arr.shape):
        if hit[ix]:
            obj[ix] = SymVal(path.handles[int(raw[ix])][0], dt)
        else:
            obj[ix] = arr[ix]
    return wrap(obj, dt)


def decode_scalar(x):
    if core.active() and core.current().handles and x.dtype.itemsize == 8:
        r = decode(numpy.asarray(x).reshape(1))
        if type(r) is SymArray:
            return r.base_object()[0]
    return x


# -- arrays --------------------------------------------------------------------
def wrap(obj, dtype):
    """SymArray from an object ndarray of scalars; concrete ndarray when no
    cell is symbolic."""
    obj = numpy.asarray(obj) if type(obj) is not numpy.ndarray else obj
    if obj.dtype != object:
        return obj
    r = obj.view(SymArray)
    r._ldtype = dtype
    return r


def maybe_concrete(arr):
    """Plain ndarray when no cell is symbolic."""
    if type(arr) is not SymArray:
        return arr
    obj = arr.base_object()
    flat = obj.ravel()
    if any(type(v) is SymVal for v in flat):
        return arr
    out = numpy.empty(obj.shape, dtype=arr.dtype)
    for ix in numpy.ndindex(*obj.shape):
        out[ix] = obj[ix]
    return out


def to_object(arr):
    """Object ndarray of the scalars of any array."""
    if type(arr) is SymArray:
        return arr.base_object()
    arr = numpy.asarray(arr)
    out = numpy.empty(arr.shape, dtype=object)
    for ix in numpy.ndindex(*arr.shape):
        out[ix] = arr[ix]
    return out


class SymArray(numpy.ndarray):
    __array_priority__ = 3000

    def __array_finalize__(self, obj):
        if obj is not None:
            self._ldtype = getattr(obj, '_ldtype', None)

    def base_object(self):
        return self.view_plain()

    def view_plain(self):
        return numpy.ndarray.view(self, numpy.ndarray)

    @property
    def dtype(self):
        dt = self.__dict__.get('_ldtype')
        return numpy.dtype(object) if dt is None else dt

    @dtype.setter
    def dtype(self, value):
        self._ldtype = numpy.dtype(value)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    def realize(self):
        obj = self.base_object()
        out = numpy.empty(obj.shape, dtype=self.dtype)
        for ix in numpy.ndindex(*obj.shape):
            out[ix] = realize(obj[ix])
        return out

    # -- indexing
    def __getitem__(self, key):
        key = norm_key(key)
        r = numpy.ndarray.__getitem__(self.view_plain(), key)
        if type(r) is numpy.ndarray and r.dtype == object:
            if r.ndim == 0 and not self._has_ellipsis(key):
                return r[()]
            if r.size == 0:  # nothing symbolic left
                return numpy.empty(r.shape, self.dtype)
            return wrap(r, self.dtype)
        return r

    @staticmethod
    def _has_ellipsis(key):
        return key is Ellipsis or (isinstance(key, tuple)
                                   and any(k is Ellipsis for k in key))

    def __setitem__(self, key, value):
        key = norm_key(key)
        plain = self.view_plain()
        dt = self.dtype
        if isinstance(value, numpy.ma.MaskedArray):
            value = value.data
        if isinstance(value, numpy.ndarray) and value.ndim:
            src = to_object(value)
            vdt = value.dtype
            out = numpy.empty(src.shape, dtype=object)
            for ix in numpy.ndindex(*src.shape):
                out[ix] = cast_scalar(src[ix], vdt, dt)
            plain[key] = out
        elif isinstance(value, (list, tuple)):
            self[key] = as_sym(value, dt)
        else:
            v = cast_scalar(value[()] if isinstance(value, numpy.ndarray)
                            else value, None, dt)
            target = plain[key]
            if isinstance(target, numpy.ndarray):
                cell = numpy.empty((), dtype=object)
                cell[()] = v
                plain[key] = cell
            else:
                plain[key] = v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        return (self[i] for i in range(len(self)))

    def __contains__(self, value):
        return bool((self == value).any())

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one '
                             'element is ambiguous. Use a.any() or a.all()')
        return bool(self.base_object().ravel()[0])

    def __int__(self):
        return int(self.base_object().ravel()[0])

    __index__ = None

    def __float__(self):
        return float(self.base_object().ravel()[0])

    def __reduce__(self):
        return (_unpickle, (self.realize(), ))

    def __deepcopy__(self, memo):
        return self.copy()

    def __repr__(self):
        return f'SymArray(shape={self.shape}, dtype={self.dtype})'

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # -- conversions
    def astype(self, dtype, order='K', casting='unsafe', subok=True,
               copy=True):
        dt = numpy.dtype(dtype)
        if dt == object:
            return self.base_object().copy()
        if dt.kind == 'M' and unit_of(dt) == 'generic':
            dt = self.dtype
        obj = self.base_object()
        out = numpy.empty(obj.shape, dtype=object)
        for ix in numpy.ndindex(*obj.shape):
            out[ix] = cast_scalar(obj[ix], self.dtype, dt)
        return wrap(out, dt)

    def view(self, dtype=None, type=None):
        if dtype is None and type is None:
            return self[...]
        if isinstance(dtype, builtin_type) and issubclass(
                dtype, numpy.ndarray):
            type, dtype = dtype, None
        if dtype is None:
            if type is numpy.ndarray or type is SymArray:
                return self[...]
            return numpy.ndarray.view(self, type)
        dt = numpy.dtype(dtype)
        if dt == object:
            return numpy.ndarray.view(self, numpy.ndarray)
        if dt.itemsize != self.dtype.itemsize:
            raise core.PathAborted('view with another item size')
        out = numpy.empty(self.shape, dtype=object)
        obj = self.base_object()
        for ix in numpy.ndindex(*self.shape):
            v = obj[ix]
            out[ix] = SymVal(v.e, dt) if builtin_type(v) is SymVal else (
                numpy.asarray(v, dtype=self.dtype).view(dt)[()])
        return wrap(out, dt)

    def item(self, *args):
        v = numpy.ndarray.item(self.view_plain(), *args)
        return v.item() if hasattr(v, 'item') else v

    def tolist(self):
        def conv(x):
            if isinstance(x, list):
                return [conv(i) for i in x]
            return x.item() if hasattr(x, 'item') else x
        return conv(self.view_plain().tolist())

    def tobytes(self, order='C'):
        return encode(self, canonical=True).tobytes(order)

    def copy(self, order='C'):
        return wrap(self.view_plain().copy(), self.dtype)

    def fill(self, value):
        self[...] = value

    def nonzero(self):
        return concrete_mask(self).nonzero()

    # -- methods that bypass __array_function__
    def argsort(self, *a, **k):
        return numpy.argsort(self, *a, **k)

    def sort(self, axis=-1, kind=None, order=None):
        self.view_plain()[...] = to_object(numpy.sort(self, axis=axis))

    def searchsorted(self, v, side='left', sorter=None):
        return numpy.searchsorted(self, v, side=side, sorter=sorter)

    def argmin(self, *a, **k):
        return numpy.argmin(self, *a, **k)

    def argmax(self, *a, **k):
        return numpy.argmax(self, *a, **k)

    def cumsum(self, axis=None, dtype=None, out=None):
        return numpy.cumsum(self, axis=axis)

    def mean(self, *a, **k):
        return self.realize().mean(*a, **k)

    def std(self, *a, **k):
        return self.realize().std(*a, **k)

    def round(self, *a, **k):
        return self.copy()

    def take(self, indices, axis=None, out=None, mode='raise'):
        return numpy.take(self, indices, axis=axis)

    def repeat(self, repeats, axis=None):
        return numpy.repeat(self, repeats, axis=axis)

    def compress(self, condition, axis=None, out=None):
        return numpy.compress(condition, self, axis=axis)

    def clip(self, a_min=None, a_max=None, **k):
        r = self
        if a_min is not None:
            r = numpy.maximum(r, a_min)
        if a_max is not None:
            r = numpy.minimum(r, a_max)
        return r

    def all(self, axis=None, **k):
        return array_ufunc(numpy.logical_and, 'reduce', (self, ),
                           {'axis': axis})

    def any(self, axis=None, **k):
        return array_ufunc(numpy.logical_or, 'reduce', (self, ),
                           {'axis': axis})

    def min(self, axis=None, out=None, **k):
        return array_ufunc(numpy.minimum, 'reduce', (self, ),
                           {'axis': axis, **k})

    def max(self, axis=None, out=None, **k):
        return array_ufunc(numpy.maximum, 'reduce', (self, ),
                           {'axis': axis, **k})

    def sum(self, axis=None, dtype=None, out=None, **k):
        return array_ufunc(numpy.add, 'reduce', (self, ), {'axis': axis, **k})

    def prod(self, axis=None, **k):
        return array_ufunc(numpy.multiply, 'reduce', (self, ),
                           {'axis': axis})

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)


builtin_type = type


def cast_scalar(v, src, dst):
    if type(v) is SymVal:
        return mk(*cast(v.e, v._dtype or src or INT64, dst))
    if isinstance(v, numpy.ma.core.MaskedConstant):
        raise core.PathAborted('masked constant stored in an array')
    return numpy.asarray(v).astype(dst)[()]


def norm_key(key):
    """Index with concrete parts: masks and integer arrays are decided."""
    def one(k):
        if type(k) is SymArray:
            return concrete_mask(k) if k.dtype.kind == 'b' else k.realize()
        if type(k) is SymVal:
            return k.realize()
        if isinstance(k, slice):
            return slice(*(realize(x) for x in (k.start, k.stop, k.step)))
        if isinstance(k, list) and any(type(x) is SymVal for x in k):
            return [realize(x) for x in k]
        return k
    if isinstance(key, tuple):
        return tuple(one(k) for k in key)
    return one(key)


def concrete_mask(arr):
    """Decide each truth value of an array."""
    if type(arr) is not SymArray:
        return numpy.asarray(arr).astype(bool)
    obj = arr.base_object()
    out = numpy.empty(obj.shape, dtype=bool)
    for ix in numpy.ndindex(*obj.shape):
        out[ix] = bool(obj[ix])
    return out


def as_sym(x, dtype=None):
    """SymArray/ndarray from nested sequences holding SymVal."""
    if isinstance(x, SymArray):
        return x.astype(dtype) if dtype is not None and numpy.dtype(
            dtype) != x.dtype else x.copy()

    def shape_of(v):
        if isinstance(v, (list, tuple)):
            return (len(v), ) + (shape_of(v[0]) if v else ())
        if type(v) is SymVal:
            return ()
        return numpy.shape(v)

    shape = shape_of(x)
    out = numpy.empty(shape, dtype=object)
    dts = []
    for ix in numpy.ndindex(*shape):
        v = x
        for n, i in enumerate(ix):
            v = v[i]
        if type(v) is SymVal:
            dts.append(v._dtype or INT64)
        else:
            v = numpy.asarray(v)[()]
            dts.append(v.dtype)
        out[ix] = v
    if dtype is None:
        dtype = functools.reduce(numpy.promote_types, dts)
    dtype = numpy.dtype(dtype)
    for ix in numpy.ndindex(*shape):
        out[ix] = cast_scalar(out[ix], None, dtype)
    return wrap(out, dtype)


def contains_sym(x):
    if type(x) in (SymVal, SymArray):
        return True
    if isinstance(x, (list, tuple)):
        return any(contains_sym(i) for i in x)
    return False


# -- ufunc dispatch ---------------------------------------------------------------
_IDENT = {'logical_or': False, 'logical_and': True, 'add': 0, 'multiply': 1}


def _ldt(x):
    if type(x) is SymVal:
        return x._dtype
    if isinstance(x, numpy.ndarray):
        return x.dtype
    if isinstance(x, numpy.generic):
        return x.dtype
    return None


def _foreign(x):
    """Has its own implementation of the numpy functions."""
    return not isinstance(x, (numpy.ndarray, numpy.generic)) and type(
        x) not in (SymVal, SymMasked) and getattr(
            type(x), '__array_ufunc__', None) is not None


def array_ufunc(ufunc, method, inputs, kwargs):
    if any(_foreign(i) for i in inputs):
        return NotImplemented
    name = ufunc.__name__
    out = kwargs.pop('out', None)
    if method == '__call__':
        if any(isinstance(i, numpy.ma.MaskedArray) for i in inputs):
            datas = [i.data if isinstance(i, numpy.ma.MaskedArray) else i
                     for i in inputs]
            mask = functools.reduce(numpy.ma.mask_or, [
                numpy.ma.getmaskarray(i) for i in inputs
                if isinstance(i, numpy.ma.MaskedArray)])
            r = array_ufunc(ufunc, method, datas, kwargs)
            return make_masked(r, mask)
        where = kwargs.pop('where', True)
        arrs = [to_object(i) if isinstance(i, numpy.ndarray) else i
                for i in inputs]
        shape = numpy.broadcast_shapes(*[
            a.shape if isinstance(a, numpy.ndarray) else () for a in arrs])
        bc = [numpy.broadcast_to(a, shape) if isinstance(a, numpy.ndarray)
              else a for a in arrs]
        res = numpy.empty(shape, dtype=object)
        rdt = None
        for ix in numpy.ndindex(*shape):
            args = [a[ix] if isinstance(a, numpy.ndarray) else a for a in bc]
            args = [_typed(a, _ldt(i)) for a, i in zip(args, inputs)]
            v = scalar_op(name, *args)
            if not isinstance(v, SymVal) and type(v) is not SymVal:
                v = numpy.asarray(v)[()]
            res[ix] = v
        try:
            rdt = _ufunc_dtype(name, tuple(
                _ldt(i) if _ldt(i) is not None else _py_dtype(i, inputs)
                for i in inputs))
        except TypeError:
            if res.size:
                rdt = _ldt(res.ravel()[0]) or INT64
            else:
                raise
        if 'dtype' in kwargs and kwargs['dtype'] is not None:
            rdt = numpy.dtype(kwargs['dtype'])
        result = maybe_concrete(wrap(res, rdt))
        if where is not True and out is None:
            raise core.PathAborted('ufunc where= without out=')
        if out is not None:
            target = out[0]
            if where is not True:
                result = numpy.where(where, result, target)
            target[...] = result
            return target
        if shape == ():
            v = res[()]
            return v
        return result
    if method == 'reduce':
        arr = inputs[0]
        axis = kwargs.get('axis', 0)
        keepdims = kwargs.get('keepdims', False)
        obj = to_object(arr)
        dt = arr.dtype
        if isinstance(axis, tuple) and len(axis) == 1:
            axis = axis[0]
        if axis is None or isinstance(axis, tuple) and len(
                axis) == obj.ndim:
            shape_keep = (1, ) * obj.ndim
            obj = obj.ravel()
            axis = 0
            full = True
        elif isinstance(axis, tuple):
            raise core.PathAborted('reduction over several axes')
        else:
            full = False
            axis = axis % obj.ndim
            shape_keep = obj.shape[:axis] + (1, ) + obj.shape[axis + 1:]
        obj = numpy.moveaxis(obj, axis, 0)
        if obj.shape[0] == 0:
            if name not in _IDENT:
                raise ValueError(
                    f'zero-size array to reduction operation {name} which has '
                    'no identity')
            r = numpy.full(obj.shape[1:], _IDENT[name])
            if full and not keepdims:
                return r[()]
            return r.reshape(shape_keep) if keepdims else r
        res = numpy.empty(obj.shape[1:], dtype=object)
        for ix in numpy.ndindex(*res.shape):
            acc = _typed(obj[(0, ) + ix], dt)
            if name in ('logical_or', 'logical_and') and len(obj) == 1:
                acc = scalar_op(name, acc, acc)
            for i in range(1, obj.shape[0]):
                acc = scalar_op(name, acc, _typed(obj[(i, ) + ix], dt))
            res[ix] = acc
        try:
            rdt = getattr(numpy, name).reduce(numpy.ones(1, dt)).dtype
        except TypeError:
            rdt = dt
        if keepdims:
            return maybe_concrete(wrap(res.reshape(shape_keep), rdt))
        if res.ndim == 0:
            return res[()]
        return maybe_concrete(wrap(res, rdt))
    if method == 'accumulate':
        arr = inputs[0]
        obj = to_object(arr)
        res = obj.copy()
        axis = kwargs.get('axis', 0)
        res = numpy.moveaxis(res, axis, 0)
        for i in range(1, res.shape[0]):
            for ix in numpy.ndindex(*res.shape[1:]):
                res[(i, ) + ix] = scalar_op(name, res[(i - 1, ) + ix],
                                            res[(i, ) + ix])
        return maybe_concrete(wrap(numpy.moveaxis(res, 0, axis), arr.dtype))
    core.current().notes.append(f'{name}.{method} executed on realized values')
    return getattr(ufunc, method)(*[realize(i) for i in inputs], **kwargs)


def _py_dtype(x, others):
    if isinstance(x, (bool, )) and type(x) is not SymVal:
        return BOOL
    if type(x) is SymVal and z3.is_bool(x.e):
        return BOOL
    if isinstance(x, float):
        return numpy.dtype('float64')
    if isinstance(x, datetime.timedelta):
        return numpy.timedelta64(x).dtype
    ref = next((_ldt(o) for o in others if _ldt(o) is not None), INT64)
    return ref if ref.kind in 'iuf' else INT64


def _typed(v, dt):
    """Scalar carrying the dtype of the array it comes from."""
    if dt is None or type(v) is SymVal:
        return v
    if isinstance(v, numpy.generic):
        return v
    return to_scalar(v, dt) if isinstance(v, (int, bool)) else v


# -- masked arrays ---------------------------------------------------------------
def make_masked(data, mask, fill_value=None):
    if not isinstance(data, numpy.ndarray):
        data = as_sym([data])[0:1].reshape(()) if type(
            data) is SymVal else numpy.asarray(data)
    mask = concrete_mask(mask) if mask is not numpy.ma.nomask else mask
    if type(data) is not SymArray:
        return numpy.ma.MaskedArray(data, mask=mask, fill_value=fill_value)
    r = SymMasked(data, mask, fill_value)
    return r


class SymMasked:
    """Masked array over a SymArray (quacks like numpy.ma.MaskedArray)."""
    __array_priority__ = 4000

    def __init__(self, data, mask, fill_value=None):
        self.data = data
        self._mask = numpy.broadcast_to(
            numpy.asarray(mask, dtype=bool), data.shape).copy()
        if type(fill_value) is not SymVal:
            # numpy holds it in the type of the array
            fill_value = numpy.ma.MaskedArray(
                numpy.empty(0, data.dtype), fill_value=fill_value).fill_value
        self.fill_value = fill_value

    @property
    def __class__(self):
        return numpy.ma.MaskedArray

    @property
    def mask(self):
        return self._mask

    _data = property(lambda self: self.data)
    dtype = property(lambda self: self.data.dtype)
    shape = property(lambda self: self.data.shape)
    ndim = property(lambda self: self.data.ndim)
    size = property(lambda self: self.data.size)
    nbytes = property(lambda self: self.data.nbytes)
    T = property(lambda self: SymMasked(self.data.T, self._mask.T,
                                        self.fill_value))

    def __len__(self):
        return len(self.data)

    def filled(self, fill_value=None):
        fv = self.fill_value if fill_value is None else fill_value
        out = self.data.copy()
        for ix in numpy.ndindex(*out.shape):
            if self._mask[ix]:
                out[ix] = fv
        return out

    def __getitem__(self, key):
        key = norm_key(key)
        d, m = self.data[key], self._mask[key]
        if not isinstance(d, numpy.ndarray):
            return numpy.ma.masked if m else d
        return make_masked(d, m, self.fill_value)

    def reshape(self, *shape, **k):
        return make_masked(self.data.reshape(*shape),
                           self._mask.reshape(*shape), self.fill_value)

    def __neg__(self):
        return array_ufunc(numpy.negative, '__call__', (self, ), {})

    def __abs__(self):
        return array_ufunc(numpy.absolute, '__call__', (self, ), {})

    def copy(self, *a):
        return SymMasked(self.data.copy(), self._mask.copy(), self.fill_value)

    def astype(self, dtype, *a, **k):
        return make_masked(self.data.astype(dtype), self._mask,
                           self.fill_value)

    def min(self, *a, **k):
        return self.data[~self._mask].min()

    def max(self, *a, **k):
        return self.data[~self._mask].max()

    def sum(self, *a, **k):
        return self.data[~self._mask].sum()

    def tolist(self):
        return [None if m else v for v, m in zip(self.data, self._mask)]

    def compressed(self):
        return self.data[~self._mask]

    def count(self):
        return int((~self._mask).sum())

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)


def _mbin(name, swap=False):
    def func(self, other):
        args = (other, self) if swap else (self, other)
        return array_ufunc(getattr(numpy, name), '__call__', args, {})
    return func


for _op, _name in (('add', 'add'), ('sub', 'subtract'), ('mul', 'multiply'),
                   ('floordiv', 'floor_divide'), ('mod', 'remainder')):
    setattr(SymMasked, f'__{_op}__', _mbin(_name))
    setattr(SymMasked, f'__r{_op}__', _mbin(_name, True))
for _op, _name in (('lt', 'less'), ('le', 'less_equal'), ('gt', 'greater'),
                   ('ge', 'greater_equal'), ('eq', 'equal'),
                   ('ne', 'not_equal')):
    setattr(SymMasked, f'__{_op}__', _mbin(_name))
SymMasked.__hash__ = None


# -- numpy function dispatch -------------------------------------------------------
_HANDLERS = {}


def implements(*names):
    def deco(func):
        for n in names:
            _HANDLERS[n] = func
        return func
    return deco


def _collect(x, acc):
    if isinstance(x, numpy.ndarray) or type(x) in (SymVal, SymMasked):
        acc.append(x)
    elif isinstance(x, (list, tuple)):
        for i in x:
            _collect(i, acc)
    elif isinstance(x, dict):
        for i in x.values():
            _collect(i, acc)


def _map(x, func):
    if type(x) in (SymArray, SymVal, SymMasked) or isinstance(
            x, numpy.ndarray):
        return func(x)
    if isinstance(x, list):
        return [_map(i, func) for i in x]
    if isinstance(x, tuple):
        return tuple(_map(i, func) for i in x)
    if isinstance(x, dict):
        return {k: _map(v, func) for k, v in x.items()}
    return x


#: Functions that only move cells: executed by numpy on the object cells.
STRUCTURAL = {
    'concatenate', 'vstack', 'hstack', 'stack', 'dstack', 'column_stack',
    'transpose', 'reshape', 'ravel', 'roll', 'take', 'delete', 'repeat',
    'tile', 'broadcast_to', 'squeeze', 'expand_dims', 'moveaxis', 'swapaxes',
    'flip', 'fliplr', 'flipud', 'split', 'array_split', 'insert', 'append',
    'atleast_1d', 'atleast_2d', 'atleast_3d', 'compress', 'rot90',
    'broadcast_arrays', 'take_along_axis', 'extract', 'diagonal', 'rollaxis',
    'hsplit', 'vsplit', 'resize', 'choose', 'select', 'block', 'row_stack',
    'copy',
}


def array_function(func, types, args, kwargs):
    name = func.__name__
    handler = _HANDLERS.get(name)
    if handler is not None:
        return handler(*args, **kwargs)
    if name in STRUCTURAL:
        return structural(func, args, kwargs)
    core.current().notes.append(f'numpy.{name} executed on realized values')
    return func(*_map(args, realize), **_map(kwargs, realize))


def structural(func, args, kwargs):
    acc = []
    name = func.__name__
    if name in ('concatenate', 'vstack', 'hstack', 'stack', 'dstack',
                'column_stack', 'block', 'row_stack'):
        _collect(args[0], acc)
    elif name in ('append', ):
        _collect(args[:2], acc)
    else:
        _collect(args[0] if args else list(kwargs.values())[0], acc)
    if any(type(a) is SymMasked or isinstance(a, numpy.ma.MaskedArray)
           for a in acc):
        raise core.PathAborted(f'numpy.{name} on masked arrays')
    dts = [a.dtype if isinstance(a, numpy.ndarray) else (a._dtype or INT64)
           for a in acc]
    dt = functools.reduce(numpy.promote_types, dts)

    def conv(x):
        if type(x) is SymVal:
            out = numpy.empty((), dtype=object)
            out[()] = x
            return out
        if any(x is a for a in acc):
            if x.dtype != dt:
                if type(x) is SymArray:
                    x = x.astype(dt)
                else:
                    x = x.astype(dt)
            return to_object(x)
        if type(x) is SymArray:
            return norm_key(x)
        return x

    kw = {k: v for k, v in kwargs.items() if k not in ('dtype', 'casting')}
    r = func(*_map(args, conv), **_map(kw, conv))
    want = kwargs.get('dtype')

    def back(x):
        if isinstance(x, numpy.ndarray) and x.dtype == object:
            y = wrap(x, dt)
            return y.astype(want) if want is not None else y
        return x
    if isinstance(r, (list, tuple)):
        return type(r)(back(x) for x in r)
    return back(r)


# -- order based functions -----------------------------------------------------
def ranks(*arrays):
    """Concrete integer arrays, order isomorphic to the given ones (jointly).

    The total order of the cells is decided on the path condition (forks)."""
    cells = []
    for a in arrays:
        dt = _ldt(a)
        for v in to_object(a).ravel():
            cells.append(_typed(v, dt))
    classes = []  # sorted list of representatives
    pos = []
    for v in cells:
        lo, hi = 0, len(classes)
        found = None
        # linear merge from the end: cheap for (almost) sorted data
        i = hi - 1
        while i >= 0:
            if bool(v == classes[i][0]):
                found = classes[i]
                break
            if bool(v > classes[i][0]):
                break
            i -= 1
        if found is None:
            found = [v]
            classes.insert(i + 1, found)
        pos.append(found)
    index = {id(c): n for n, c in enumerate(classes)}
    flat = [index[id(c)] for c in pos]
    out, k = [], 0
    for a in arrays:
        a = numpy.asarray(a) if not isinstance(a, numpy.ndarray) else a
        out.append(numpy.array(flat[k:k + a.size],
                               dtype='int64').reshape(a.shape))
        k += a.size
    reps = numpy.empty(len(classes), dtype=object)
    for n, c in enumerate(classes):
        reps[n] = c[0]
    return out, reps


def _from_ranks(r, reps, dt):
    out = numpy.empty(r.shape, dtype=object)
    for ix in numpy.ndindex(*r.shape):
        out[ix] = reps[r[ix]]
    return maybe_concrete(wrap(out, dt))


@implements('unique')
def _unique(ar, return_index=False, return_inverse=False, return_counts=False,
            axis=None, **kw):
    if axis == 0 and ar.ndim == 2:
        # only the order inside each column matters
        cols = [ranks(ar[:, i]) for i in range(ar.shape[1])]
        r = numpy.stack([c[0][0] for c in cols], axis=1) if cols else (
            numpy.zeros(ar.shape, 'int64'))
        res = numpy.unique(r, return_index=return_index,
                           return_inverse=return_inverse,
                           return_counts=return_counts, axis=0)
        first = res[0] if isinstance(res, tuple) else res
        out = numpy.empty(first.shape, dtype=object)
        for ix in numpy.ndindex(*first.shape):
            out[ix] = cols[ix[1]][1][first[ix]]
        out = maybe_concrete(wrap(out, ar.dtype))
        return (out, ) + res[1:] if isinstance(res, tuple) else out
    (r, ), reps = ranks(ar)
    res = numpy.unique(r, return_index=return_index,
                       return_inverse=return_inverse,
                       return_counts=return_counts, axis=axis)
    if isinstance(res, tuple):
        return (_from_ranks(res[0], reps, ar.dtype), ) + res[1:]
    return _from_ranks(res, reps, ar.dtype)


@implements('sort')
def _sort(a, axis=-1, **kw):
    (r, ), reps = ranks(a)
    return _from_ranks(numpy.sort(r, axis=axis), reps, a.dtype)


@implements('argsort')
def _argsort(a, axis=-1, kind=None, **kw):
    (r, ), _ = ranks(a)
    return numpy.argsort(r, axis=axis, kind=kind or 'stable')


@implements('argmin')
def _argmin(a, axis=None, **kw):
    (r, ), _ = ranks(a)
    return numpy.argmin(r, axis=axis)


@implements('argmax')
def _argmax(a, axis=None, **kw):
    (r, ), _ = ranks(a)
    return numpy.argmax(r, axis=axis)


@implements('lexsort')
def _lexsort(keys, axis=-1):
    rs = [ranks(k)[0][0] for k in keys]
    return numpy.lexsort(rs, axis=axis)


@implements('searchsorted')
def _searchsorted(a, v, side='left', sorter=None):
    scalar = not isinstance(v, (numpy.ndarray, list, tuple))
    vv = as_sym([v]) if scalar else v
    (ra, rv), _ = ranks(a, vv)
    r = numpy.searchsorted(ra, rv, side=side, sorter=sorter)
    return r[0] if scalar else r


@implements('isin', 'in1d')
def _isin(element, test_elements, assume_unique=False, invert=False, **kw):
    (ra, rb), _ = ranks(element, numpy.asarray(test_elements) if not isinstance(
        test_elements, numpy.ndarray) else test_elements)
    return numpy.isin(ra, rb, invert=invert)


@implements('intersect1d')
def _intersect1d(a, b, *args, **kw):
    (ra, rb), reps = ranks(a, b)
    return _from_ranks(numpy.intersect1d(ra, rb), reps, a.dtype)


@implements('union1d')
def _union1d(a, b):
    (ra, rb), reps = ranks(a, b)
    return _from_ranks(numpy.union1d(ra, rb), reps,
                       numpy.promote_types(a.dtype, b.dtype))


@implements('setdiff1d')
def _setdiff1d(a, b, assume_unique=False):
    (ra, rb), reps = ranks(a, b)
    return _from_ranks(numpy.setdiff1d(ra, rb), reps, a.dtype)


@implements('where')
def _where(condition, *args):
    if not args:
        return concrete_mask(condition).nonzero()
    x, y = args
    cond = to_object(condition) if isinstance(condition,
                                              numpy.ndarray) else condition
    shape = numpy.broadcast_shapes(numpy.shape(cond), numpy.shape(x) if type(
        x) is not SymVal else (), numpy.shape(y) if type(y) is not SymVal
        else ())
    dts = [_ldt(v) or numpy.asarray(v).dtype for v in (x, y)]
    dt = numpy.promote_types(*dts)

    def cell(v, ix):
        if isinstance(v, numpy.ndarray):
            return numpy.broadcast_to(to_object(v), shape)[ix]
        return v
    out = numpy.empty(shape, dtype=object)
    for ix in numpy.ndindex(*shape):
        c = cell(cond, ix)
        a, b = cell(x, ix), cell(y, ix)
        if type(c) is SymVal:
            ea, eb = lift(a)[0], lift(b)[0]
            out[ix] = mk(z3.If(_as_bool(c.e), ea, eb), dt)
        else:
            out[ix] = cast_scalar(a if c else b, None, dt)
    return maybe_concrete(wrap(out, dt))


@implements('nonzero')
def _nonzero(a):
    return concrete_mask(a).nonzero()


@implements('flatnonzero')
def _flatnonzero(a):
    return numpy.flatnonzero(concrete_mask(a))


@implements('argwhere')
def _argwhere(a):
    return numpy.argwhere(concrete_mask(a))


@implements('count_nonzero')
def _count_nonzero(a, axis=None, **kw):
    return numpy.count_nonzero(concrete_mask(a), axis=axis)


def _reducer(ufunc):
    def func(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return array_ufunc(ufunc, 'reduce', (a, ),
                           {'axis': axis, 'keepdims': keepdims is True})
    return func


for _names, _uf in (
    (('all', 'alltrue'), numpy.logical_and),
    (('any', 'sometrue'), numpy.logical_or),
    (('sum', 'nansum'), numpy.add), (('prod', 'product'), numpy.multiply),
    (('min', 'amin', 'nanmin'), numpy.minimum),
    (('max', 'amax', 'nanmax'), numpy.maximum)):
    for _n in _names:
        _HANDLERS[_n] = _reducer(_uf)


@implements('cumsum')
def _cumsum(a, axis=None, **kw):
    if axis is None:
        a, axis = a.reshape(-1), 0
    return array_ufunc(numpy.add, 'accumulate', (a, ), {'axis': axis})


@implements('diff', 'ediff1d')
def _diff(a, n=1, axis=-1, **kw):
    for _ in range(n):
        upper = [slice(None)] * a.ndim
        lower = [slice(None)] * a.ndim
        upper[axis] = slice(1, None)
        lower[axis] = slice(None, -1)
        op = numpy.not_equal if a.dtype.kind == 'b' else numpy.subtract
        a = op(a[tuple(upper)], a[tuple(lower)])
    return a


@implements('array_equal', 'array_equiv')
def _array_equal(a1, a2, equal_nan=False):
    if numpy.shape(a1) != numpy.shape(a2):
        return False
    return bool(numpy.all(numpy.equal(a1, a2)))


@implements('allclose')
def _allclose(a, b, **kw):
    return bool(numpy.all(numpy.equal(a, b)))


@implements('isclose')
def _isclose(a, b, **kw):
    return numpy.equal(a, b)


@implements('shape')
def _shape(a):
    return a.shape


@implements('ndim')
def _ndim(a):
    return a.ndim


@implements('size')
def _size(a, axis=None):
    return a.size if axis is None else a.shape[axis]


@implements('result_type')
def _result_type(*args):
    return numpy.result_type(*[_ldt(a) if _ldt(a) is not None else a
                               for a in args])


@implements('can_cast')
def _can_cast(a, to, casting='safe'):
    return numpy.can_cast(_ldt(a) or INT64, to, casting)


@implements('full_like')
def _full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None):
    out = numpy.full(a.shape if shape is None else shape, 0,
                     dtype=dtype or a.dtype)
    if contains_sym(fill_value):
        out = wrap(to_object(out), out.dtype)
    out[...] = fill_value
    return out


def _like(value):
    def func(a, dtype=None, order='K', subok=True, shape=None, **kw):
        r = numpy.full(a.shape if shape is None else shape, value,
                       dtype=dtype or a.dtype)
        return wrap(to_object(r), r.dtype)
    return func


_HANDLERS['zeros_like'] = _like(0)
_HANDLERS['empty_like'] = _like(0)
_HANDLERS['ones_like'] = _like(1)


@implements('copyto')
def _copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        mask = concrete_mask(where)
        src = numpy.broadcast_to(src, dst.shape) if isinstance(
            src, numpy.ndarray) else src
        dst[mask] = src[mask] if isinstance(src, numpy.ndarray) else src


@implements('around', 'round', 'round_', 'real', 'fix')
def _same(a, *args, **kw):
    return a.copy()


@implements('iscomplexobj')
def _iscomplexobj(a):
    return False


@implements('clip')
def _clip(a, a_min=None, a_max=None, **kw):
    if a_min is not None:
        a = numpy.maximum(a, a_min)
    if a_max is not None:
        a = numpy.minimum(a, a_max)
    return a


@implements('may_share_memory', 'shares_memory')
def _share(*a, **k):
    return False


@implements('filled')
def _filled(a, fill_value=None):
    return a.filled(fill_value) if type(a) is SymMasked else a


@implements('array_repr', 'array_str', 'array2string')
def _array_repr(a, *args, **kw):
    return repr(a)
