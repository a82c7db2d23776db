"""Stand-in for pyarrow tables whose cells may be symbolic.

Filters and sorts fork on the outcome of the comparisons they make.  Tables
are written to the (real) file system as handles.
"""
from __future__ import annotations

import functools
import types

import numpy
import pyarrow

from . import core, values
from .values import SymArray, SymVal


class Type:
    def __init__(self, name, size=None):
        self.name, self.size = name, size

    def __eq__(self, other):
        return isinstance(other, Type) and (self.name, self.size) == (
            other.name, other.size)

    def __hash__(self):
        return hash((self.name, self.size))

    def __repr__(self):
        return f'{self.name}'

    def to_pandas_dtype(self):
        return self.np.type

    @property
    def np(self):
        if self.name in ('binary', 'string'):
            return numpy.dtype('O')
        return numpy.dtype('bool' if self.name == 'bool' else self.name)

    def cast(self, v):
        if v is None:
            return None
        if self.name == 'binary':
            if not isinstance(v, bytes):
                raise TypeError(f'expected bytes, got {v!r}')
            return v
        if type(v) is SymVal:
            return SymVal(v.e, self.np)
        if self.name == 'bool':
            return bool(v)
        if self.np.kind in 'iu' and not isinstance(
                v, (int, numpy.integer, SymVal)):
            raise TypeError(f'expected an integer, got {v!r}')
        return v.item() if isinstance(v, numpy.generic) else v


def _cells(x):
    if isinstance(x, Column):
        return list(x.cells)
    if type(x) is SymArray:
        return list(x.base_object().ravel())
    if isinstance(x, numpy.ndarray):
        return list(x.ravel())
    return list(x)


def _truth(v):
    if type(v) is SymVal or values.z3.is_expr(v):
        e = v.e if type(v) is SymVal else v
        return core.current().branch(values._as_bool(e))
    return bool(v)


def _bool(v):
    """z3 Bool or bool of a cell of a mask."""
    if type(v) is SymVal:
        return values._as_bool(v.e)
    return v


class Column:
    def __init__(self, cells, type=None):
        self.cells = list(cells)
        if type is None:
            first = next((c for c in self.cells if c is not None), 0)
            type = Type('bool' if isinstance(first, bool) or
                        values.z3.is_expr(first) else
                        'binary' if isinstance(first, bytes) else 'int64')
        self.type = type

    def __len__(self):
        return len(self.cells)

    length = __len__

    def __iter__(self):
        return iter(self.cells)

    def __getitem__(self, ix):
        if isinstance(ix, slice):
            return Column(self.cells[ix], self.type)
        return Scalar(self.cells[int(ix)])

    def fill_null(self, value):
        value = self.type.cast(value)
        return Column([value if c is None else c for c in self.cells],
                      self.type)

    def to_pylist(self):
        return list(self.cells)

    tolist = to_pylist

    def to_numpy(self, *a, **k):
        np = self.type.np
        if np.kind == 'O':
            out = numpy.empty(len(self.cells), 'O')
            for i, c in enumerate(self.cells):
                out[i] = c
            return out
        if any(type(c) is SymVal or values.z3.is_expr(c)
               for c in self.cells):
            return values.as_sym(
                [c if type(c) is SymVal or not values.z3.is_expr(c) else
                 SymVal(c, numpy.dtype(bool)) for c in self.cells], np)
        return numpy.array(self.cells, np)

    def __array__(self, dtype=None, **k):
        return self.to_numpy()

    def combine_chunks(self):
        return self

    def filter(self, mask):
        return Column([c for c, m in zip(self.cells, _cells(mask))
                       if _truth(m)], self.type)

    def take(self, indices):
        return Column([self.cells[int(i)] for i in _cells(indices)],
                      self.type)

    def cast(self, type):
        return Column([type.cast(c) for c in self.cells], type)

    def unique(self):
        out = []
        for c in self.cells:
            if not any(_truth(_eq(c, o)) for o in out):
                out.append(c)
        return Column(out, self.type)


class Scalar:
    def __init__(self, value):
        self.value = value

    def as_py(self):
        return self.value


def _eq(a, b):
    if isinstance(a, Scalar):
        a = a.value
    if isinstance(b, Scalar):
        b = b.value
    if isinstance(a, bytes) or isinstance(b, bytes) or a is None or b is None:
        return a == b
    ea, eb = values.lift(a)[0], values.lift(b)[0]
    out = ea == eb
    return out


def _lt(a, b):
    if isinstance(a, bytes) or isinstance(b, bytes):
        return a < b
    return values.lift(a)[0] < values.lift(b)[0]


def array(x, type=None, **kw):
    cells = _cells(x)
    if type is not None:
        cells = [type.cast(c) for c in cells]
    return Column(cells, type)


def nulls(n, type=None):
    return Column([None] * int(n), type)


def repeat(value, n):
    return Column([value] * int(n))


class Field:
    def __init__(self, name, type):
        self.name, self.type = name, type


class Schema:
    def __init__(self, columns, metadata):
        self._columns, self.metadata = columns, metadata
        self.names = list(columns)
        self.types = [c.type for c in columns.values()]

    def field(self, name):
        if isinstance(name, int):
            name = self.names[name]
        return Field(name, self._columns[name].type)

    def __iter__(self):
        return iter([self.field(n) for n in self.names])

    def __len__(self):
        return len(self.names)

    def equals(self, other):
        return self.names == other.names and self.types == other.types


class Table:
    def __init__(self, columns, metadata=None):
        self.columns_ = dict(columns)
        self.metadata = metadata

    @staticmethod
    def from_pydict(data, schema=None, metadata=None):
        return Table({k: v if isinstance(v, Column) else array(v)
                      for k, v in data.items()}, metadata)

    @staticmethod
    def from_arrays(arrays, names=None, **kw):
        return Table(dict(zip(names, arrays)))

    @property
    def column_names(self):
        return list(self.columns_)

    @property
    def columns(self):
        return list(self.columns_.values())

    @property
    def schema(self):
        return Schema(self.columns_, self.metadata)

    @property
    def num_rows(self):
        return len(next(iter(self.columns_.values()), ()))

    @property
    def num_columns(self):
        return len(self.columns_)

    @property
    def shape(self):
        return self.num_rows, self.num_columns

    def __len__(self):
        return self.num_rows

    def column(self, name):
        if isinstance(name, (int, numpy.integer)):
            return self.columns[name]
        return self.columns_[name]

    __getitem__ = column

    def _each(self, func):
        return Table({k: func(c) for k, c in self.columns_.items()},
                     self.metadata)

    def filter(self, mask, *a, **k):
        keep = [_truth(m) for m in _cells(mask)]
        if len(keep) != len(self):
            raise ValueError('length of the mask')
        return self._each(lambda c: c.filter(keep))

    def take(self, indices):
        return self._each(lambda c: c.take(indices))

    def slice(self, offset=0, length=None):
        stop = None if length is None else offset + length
        return self._each(lambda c: c[offset:stop])

    def select(self, names):
        return Table({n: self.columns_[n] for n in names}, self.metadata)

    def drop(self, names):
        return Table({n: c for n, c in self.columns_.items()
                      if n not in names}, self.metadata)

    drop_columns = drop

    def sort_by(self, keys):
        if isinstance(keys, str):
            keys = [(keys, 'ascending')]
        return self.take(sort_indices(self, sort_keys=keys))

    def replace_schema_metadata(self, metadata=None):
        return Table(self.columns_, {
            (k if isinstance(k, bytes) else k.encode()):
            (v if isinstance(v, bytes) else v.encode())
            for k, v in metadata.items()} if metadata else None)

    def to_pydict(self):
        return {k: c.to_pylist() for k, c in self.columns_.items()}

    def combine_chunks(self):
        return self


def concat_tables(tables, **kw):
    tables = list(tables)
    first = tables[0]
    for t in tables:
        if not t.schema.equals(first.schema):
            raise ValueError('schemas differ')
    return Table({n: Column([c for t in tables for c in t[n].cells],
                            first[n].type) for n in first.column_names},
                 first.metadata)


# -- compute ---------------------------------------------------------------------
def _map2(func):
    def run(a, b):
        if not isinstance(a, Column):
            a, b = b, a
        other = b.cells if isinstance(b, Column) else [b] * len(a)
        return Column([func(x, y) for x, y in zip(a.cells, other)],
                      Type('bool'))
    return run


def _logic(op):
    z3 = values.z3

    def func(a, b):
        a, b = _bool(a), _bool(b)
        if isinstance(a, (bool, numpy.bool_)) and isinstance(
                b, (bool, numpy.bool_)):
            a, b = bool(a), bool(b)
            return {'and': a and b, 'or': a or b, 'xor': a != b,
                    'and_not': a and not b}[op]
        return {'and': lambda: z3.And(a, b), 'or': lambda: z3.Or(a, b),
                'xor': lambda: z3.Xor(a, b) if z3.is_expr(a) and
                z3.is_expr(b) else _b(a) != _b(b),
                'and_not': lambda: z3.And(a, z3.Not(_b(b)))}[op]()

    def _b(x):
        return z3.BoolVal(bool(x)) if not z3.is_expr(x) else x
    return _map2(func)


def is_in(col, value_set=None, **kw):
    z3 = values.z3
    cells = _cells(value_set)

    def one(c):
        conds = [_eq(c, v) for v in cells]
        if all(isinstance(x, (bool, numpy.bool_)) for x in conds):
            return any(conds)
        return z3.Or(*[z3.BoolVal(bool(x)) if not z3.is_expr(x) else x
                       for x in conds])
    return Column([one(c) for c in col.cells], Type('bool'))


def invert(col):
    z3 = values.z3
    return Column([z3.Not(_bool(c)) if z3.is_expr(_bool(c)) else not c
                   for c in col.cells], Type('bool'))


def _not(x):
    return values.z3.Not(x) if values.z3.is_expr(x) else not x


def sort_indices(table, sort_keys=(), **kw):
    if isinstance(table, Column):
        cols = [(table.cells, 'ascending')]
    else:
        cols = [(table[k].cells, order) for k, order in sort_keys]

    def compare(i, j):
        for cells, order in cols:
            a, b = (cells[i], cells[j]) if order == 'ascending' else (
                cells[j], cells[i])
            if _truth(_lt(a, b)):
                return -1
            if _truth(_lt(b, a)):
                return 1
        return i - j
    return Column(sorted(range(len(table)), key=functools.cmp_to_key(compare)),
                  Type('int64'))


compute = types.SimpleNamespace(
    is_in=is_in, invert=invert, sort_indices=sort_indices,
    and_=_logic('and'), or_=_logic('or'), xor=_logic('xor'),
    and_not=_logic('and_not'), and_kleene=_logic('and'),
    or_kleene=_logic('or'), and_not_kleene=_logic('and_not'),
    equal=_map2(_eq), not_equal=_map2(lambda a, b: _not(_eq(a, b))),
    less=_map2(_lt), greater=_map2(lambda a, b: _lt(b, a)),
    less_equal=_map2(lambda a, b: _not(_lt(b, a))),
    greater_equal=_map2(lambda a, b: _not(_lt(a, b))),
    take=lambda t, i: t.take(i), filter=lambda t, m: t.filter(m),
    unique=lambda c: c.unique(), cast=lambda c, t: c.cast(t),
    fill_null=lambda c, v: c.fill_null(v))

# -- parquet ---------------------------------------------------------------------
_TABLES = []


def write_table(table, where, filesystem=None, **kw):
    _TABLES.append(Table({k: Column(c.cells, c.type)
                          for k, c in table.columns_.items()},
                         table.metadata))
    data = f'symx-table-{len(_TABLES) - 1}'.encode()
    if hasattr(where, 'write'):
        where.write(data)
        return
    with filesystem.open(where, 'wb') as stream:
        stream.write(data)


def read_table(source, filesystem=None, columns=None, **kw):
    if hasattr(source, 'read'):
        data = source.read()
    else:
        with filesystem.open(source, 'rb') as stream:
            data = stream.read()
    t = _TABLES[int(data.split(b'-')[-1])]
    return t if columns is None else t.select(columns)


def read_schema(source, filesystem=None, **kw):
    return read_table(source, filesystem).schema


parquet = types.SimpleNamespace(write_table=write_table,
                                read_table=read_table,
                                read_schema=read_schema)


class Proxy(types.ModuleType):
    def __init__(self):
        super().__init__('pyarrow')
        self.__dict__.update(
            compute=compute, parquet=parquet, Table=Table, array=array,
            nulls=nulls, repeat=repeat, concat_tables=concat_tables,
            chunked_array=lambda x, **k: concat_arrays(x),
            binary=lambda n=-1: Type('binary', n),
            bool_=lambda: Type('bool'), ChunkedArray=Column, Array=Column,
            DataType=Type)
        for n in ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16',
                  'uint32', 'uint64', 'float32', 'float64'):
            self.__dict__[n] = functools.partial(Type, n)

    def __getattr__(self, name):
        return getattr(pyarrow, name)


def concat_arrays(arrays, *a):
    arrays = [x if isinstance(x, Column) else array(x) for x in arrays]
    return Column([c for x in arrays for c in x.cells], arrays[0].type)


PROXY = Proxy()
