"""C17: predicates on the measure of a datashape."""
import itertools

from hypothesis import strategies as st

from .. import model as M
from .. import small as S
from ..core import Sub, Violation, Unspec, check, eq, srepr

ID = 'C17'
RULE = ('every kind of measure, optional or not, under random dimensions, as '
        'object, bare measure and text: numeric, real, boolean and date-like '
        'must say what the measure is, whatever the dimensions. Non-trivial: '
        'every case.')
ASSUMPTIONS = ('whether durations, physical units and char are numeric is not spoken about; nor are '
               'options of options or of something with dimensions',)

INTS = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32',
        'uint64')
FLOATS = ('float16', 'float32', 'float64')
COMPLEX = ('complex[float32]', 'complex[float64]')


def numeric(m):
    """True, False or None: not spoken about."""
    if m[0] == 'p':
        return None if m[1] == 'char' else m[1] in INTS + FLOATS + COMPLEX
    if m[0] == 'dec':
        return True
    if m[0] in ('td', 'units'):
        return None
    return False


def predicates(case):
    from datashape import predicates as P
    d, form = case
    m = d[2]
    if m[0] == 'opt':
        if m[1][1] or m[1][2][0] == 'opt':
            raise Unspec()
        m = m[1][2]
    if form == 0:
        x = M.build(d)
    elif form == 1:
        x = M.plain_text(d)
    else:
        x = M.build(d).measure
    want = {'isnumeric': numeric(m), 'isreal': m[0] == 'p' and m[1] in FLOATS,
            'isboolean': m == ('p', 'bool'),
            'isdatelike': m[0] in ('date', 'datetime')}
    labels = ['measure:' + m[0], 'dims' if d[1] else 'no dims']
    for name, w in sorted(want.items()):
        if w is None:
            continue
        got = getattr(P, name)(x)
        check(bool(got) == w, '%s(%s) is %s', name, srepr(x), srepr(got))
        if w:
            labels.append(name)
    return labels


LEAVES = [('p', p) for p in M.PLAIN] + [
    ('str', None, 'U8'), ('str', 10, 'A'), ('str', None, 'A'), ('date',),
    ('datetime', None), ('datetime', 'UTC'), ('time', None), ('time', 'UTC'),
    ('td', 'us'), ('td', 'D'), ('dec', 2, 0), ('dec', 18, 0), ('dec', 19, 0),
    ('dec', 19, 3), ('dec', 10, -1), ('bytes',), ('json',), ('null',),
    ('tv', 'A'), ('units', 'm', M.F64), ('rec', ()), ('tup', ()),
    ('rec', (('a', M.F64),)), ('rec', (('a', ('D', (), ('date',))),)),
    ('tup', (M.F64,)), ('fun', (), M.F64),
    ('map', M.F64, M.F64), ('map', ('D', (), ('date',)), M.F64),
    ('map', ('D', (), ('p', 'bool')), ('D', (), ('p', 'bool'))),
    ('cat', ('a',), ('str', None, 'U8'), False),
    ('cat', (2, 3), ('p', 'int64'), True)]
DIMS = ((), (('fixed', 3),), (('var',),), (('tv', 'N'),), (('ell', None),),
        (('ell', 'A'), ('fixed', 0)))


def table(tier):
    for m, opt, dims, form in itertools.product(LEAVES, (0, 1), DIMS,
                                                (0, 1, 2)):
        if opt:
            m = ('opt', ('D', (), m))
        yield (('D', dims, m), form)


# Types of the user's own, named nearly as ours are
NAMES = ('bit8', 'boolean8', 'bool1', 'b', 'bool_', 'boolish', 'float33',
         'floats', 'f8x', 'real2', 'double3', 'int3', 'integer', 'uint65',
         'unsigned', 'complex3', 'complex_', 'decimal3', 'date9', 'datetime8',
         'datetimes', 'time3', 'Float64', 'INT32', 'Bool', 'Date', 'xint32',
         'quad', 'half2', '_float64', 'fixed32', 'number', 'numeric')
SIZES = (1, 2, 4, 8, 16)
_made = {}


def own(name, size):
    from datashape.coretypes import CType
    key = '%s.%d' % (name, size)
    if key not in _made:
        _made[key] = CType(key, size, size)
    return _made[key]


def registered(case):
    import datashape as ds
    from datashape import predicates as P
    name, size, dims, opt, form = case
    x = own(NAMES[name], SIZES[size])
    m = ds.Option(x) if opt else x
    if form == 0 or dims:
        m = ds.DataShape(*([M.build_dim(d) for d in DIMS[dims]] + [m]))
    for p in ('isnumeric', 'isreal', 'isboolean', 'isdatelike'):
        got = getattr(P, p)(m)
        check(not got, '%s(%s) of a type of its own is %s', p, srepr(m),
              srepr(got))
    return ['registered']


def every_registered(tier):
    for n in range(len(NAMES)):
        for s in range(len(SIZES)):
            for d in range(len(DIMS)):
                for opt in (False, True):
                    for form in (0, 1):
                        if not (d and form):
                            yield n, s, d, opt, form


SUBS = [
    Sub('registered', None, registered, exhaustive=every_registered),
    Sub('small', None, predicates, exhaustive=lambda tier: [
        (d, i % (2 if d[1] else 3)) for i, d in enumerate(S.datashapes(tier))]),
    Sub('table', None, predicates, exhaustive=table),
    Sub('random', lambda: st.tuples(M.weighted(
        (2, M.datashapes(depth=2)),
        (1, st.tuples(st.just('D'), M.dims_st(M.Cfg()), st.tuples(
            st.just('opt'), st.tuples(st.just('D'), st.just(()),
                                      M.m_st(M.Cfg(), 1)))))),
        st.integers(0, 2)), predicates, quick=6000),
]
