"""Helpers shared by the property harnesses (mode agnostic)."""
import numpy

import zcollection
from zcollection import dataset, meta, partitioning
from zcollection.variable import Array, DelayedArray

from symx.harness import cells, same_array  # noqa: F401
from symx.run import Harness  # noqa: F401

I64 = (-2**62, 2**62)


def variable(name, data, dims, delayed=False, **kw):
    return (DelayedArray if delayed else Array)(name, data, dims, **kw)


def values_of(var):
    """Raw cells of a variable (fill values not masked)."""
    arr = var.array
    if hasattr(arr, 'compute'):
        arr = arr.compute()
    return arr


def lex_le(h, a, b):
    """Condition: tuple a <= tuple b."""
    if not a:
        return True
    rest = lex_le(h, a[1:], b[1:])
    return h.any([a[0] < b[0], h.all([a[0] == b[0], rest])])


def product(**axes):
    """Cartesian product of structural parameters."""
    out = [{}]
    for k, vals in axes.items():
        out = [dict(o, **{k: v}) for o in out for v in vals]
    return out
