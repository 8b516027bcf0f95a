"""C20: what is discovered describes the value it was discovered from."""
import collections
import datetime

from hypothesis import strategies as st

from .. import model as M
from .. import small
from .. import values as V
from ..core import Sub, Violation, Unspec, check, eq, srepr
from .c19 import columns, describe

ID = 'C20'
RULE = ('random nested values are discovered and an independent checker walks '
        'value and datashape together: every fixed dimension is the length it '
        'claims, every field is there or optional, every tuple has its '
        'items, every scalar can be read as its type, nothing is null that is '
        'not optional. Non-trivial: a container with an element.')


def is_missing(v):
    return v is None or isinstance(v, str) and v == ''


def reads_as(v, m):
    """A scalar can be read as a value of this measure."""
    if isinstance(v, str):
        if m == V.STRING:
            return True
        t = V.text_measure(v)
        return m in V.wider(t) if t in V.WIDER else m == t
    import numpy as np
    if isinstance(v, np.generic) and not isinstance(v, (float, complex)):
        return m == ('p', {1: 'bool'}.get(0, '')) or \
            m in [('p', n) for n in (v.dtype.name,)] or \
            m in V.wider(('p', v.dtype.name)) or \
            v.dtype.kind == 'c' and m == ('p', 'complex[float%d]' % (
                v.dtype.itemsize * 4))
    if isinstance(v, bool):
        t = V.BOOL
    elif isinstance(v, int):
        t = V.I64
    elif isinstance(v, float):
        t = V.F64
    elif isinstance(v, complex):
        return m == ('p', 'complex[float64]')
    elif isinstance(v, bytes):
        return m == ('str', None, 'A')
    elif isinstance(v, datetime.datetime):
        t = V.DATETIME
    elif isinstance(v, datetime.date):
        t = V.DATE
    elif isinstance(v, datetime.time):
        return m == V.TIME
    elif isinstance(v, datetime.timedelta):
        t = V.TDUS
    else:
        return False
    return m in V.wider(t)


def conforms(v, d, where):
    dims, m = d[1], d[2]
    if dims:
        if not isinstance(v, (list, tuple, set, frozenset)):
            raise Violation('%s: %s where a sequence is claimed' % (
                where, srepr(v)))
        if dims[0][0] == 'fixed':
            eq(len(v), dims[0][1], '%s: length of %s' % (where, srepr(v)))
        elif dims[0][0] != 'var':
            raise Violation('%s: discovered dimension %r' % (where, dims[0]))
        for i, x in enumerate(v):
            conforms(x, ('D', dims[1:], m), '%s[%d]' % (where, i))
        return
    k = m[0]
    if k == 'opt':
        check(not m[1][1] and m[1][2][0] not in ('opt', 'null'),
              '%s: discovered %r', where, m)
        if not is_missing(v):
            conforms(v, m[1], where)
    elif k == 'null':
        check(is_missing(v), '%s: %s claimed to be null', where, srepr(v))
    elif k == 'rec':
        check(isinstance(v, collections.abc.Mapping),
              '%s: %s claimed to be a record', where, srepr(v))
        names = [n for n, _ in m[1]]
        check(set(v) <= set(names), '%s: fields %r of %s', where, names,
              srepr(v))
        for n, f in m[1]:
            if n in v:
                conforms(v[n], f, '%s.%s' % (where, n))
            else:
                check(not f[1] and f[2][0] in ('opt', 'null'),
                      '%s: no field %r in %s, claimed to be %r', where, n,
                      srepr(v), f)
    elif k == 'tup':
        check(isinstance(v, (list, tuple, set, frozenset)) and
              len(v) == len(m[1]), '%s: %s claimed to be %d items', where,
              srepr(v), len(m[1]))
        for i, (x, f) in enumerate(zip(v, m[1])):
            conforms(x, f, '%s.%d' % (where, i))
    else:
        check(not is_missing(v), '%s: missing, but claimed to be %r', where, m)
        check(reads_as(v, m), '%s: %s claimed to be %r', where, srepr(v), m)


def describes(case):
    import datashape as ds
    v = V.value(case)
    d = M.abs_d(ds.discover(v))
    conforms(v, d, '_')
    if V.size(case) < 2:
        return None
    return describe(d)


def deep(case):
    """Rectangular nests of lists give one dimension per level."""
    import datashape as ds
    sizes, cell, jag = case

    def build(ns):
        if not ns:
            return cell
        return ('L', tuple(build(ns[1:]) for _ in range(ns[0])))
    desc = build(sizes)
    d = M.abs_d(ds.discover(V.value(desc)))
    eq(d, ('D', tuple(('fixed', n) for n in sizes), V.shape_of(cell)[2]),
       'sizes %r of %r' % (sizes, cell))
    return ['rect:%d' % len(sizes)]


SUBS = [
    Sub('small', None, describes, exhaustive=small.values),
    Sub('strays', None, lambda case: describes(V.stray(case)[0]),
        exhaustive=V.strays),
    Sub('wide', None, describes, exhaustive=V.wide_dicts),
    Sub('columns', columns, describes, quick=8000),
    Sub('trees', V.values, describes, quick=8000),
    Sub('records', V.record_cells, describes, quick=1500),
    Sub('long', V.long_table, describes, quick=1500),
    Sub('rectangles', lambda: st.tuples(
        st.lists(st.integers(1, 4), min_size=1, max_size=4).map(tuple),
        V.scalars(V.ALL), st.none()), deep, quick=1500),
]
