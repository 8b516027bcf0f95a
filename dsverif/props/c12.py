"""C12: NumPy shapes and dtypes become datashapes and come back."""
from hypothesis import strategies as st

from .. import model as M
from .. import npmodel as N
from ..core import Sub, Violation, check, eq, srepr

ID = 'C12'
RULE = ('random NumPy dtypes (booleans, integers, floats, complex, strings, '
        'dates, durations, objects, byte orders, nested records with '
        'sub-arrays, offsets and padding) and shapes are converted to '
        'datashapes and back; both directions are compared with an '
        'independent table, and conversions that lose nothing must give back '
        'exactly what went in. Non-trivial: every case.')


def upcast(case):
    import numpy as np
    import datashape as ds
    shape, spec, how = case
    dt = N.dtype(spec)
    want = N.measure(spec)
    given = list(shape) if how & 1 else tuple(shape)
    if how & 2:
        given = tuple(np.int64(n) for n in shape)
    if want is None:
        try:
            got = ds.from_numpy(given, dt)
        except (NotImplementedError, ValueError, TypeError):
            return ['refused']
        raise Violation('%s becomes %s' % (dt, srepr(got)))
    got = ds.from_numpy(given, dt)
    full = ('D', tuple(('fixed', n) for n in shape), want)
    eq(M.abs_d(got), full, 'from_numpy(%s, %s)' % (shape, dt))
    # the measure of the result is the same whatever the shape
    eq(M.abs_d(ds.from_numpy((), dt)), ('D', (), want), 'without a shape')
    if spec[0] != 'r' and spec[:2] != ('S', 0) and not shape:
        # (the dtype S0 is called bytes by NumPy)
        one = ds.CType.from_numpy_dtype(dt)
        eq(M.abs_d(one), ('D', (), want), 'from_numpy_dtype(%s)' % dt)
    labels = ['up:' + spec[0]]
    back_shape, back = ds.to_numpy(got)
    eq(back_shape, tuple(shape), 'shape after a round trip')
    check(all(type(n) is int for n in back_shape), 'shape %r' % (back_shape,))
    eq(back, N.dtype(N.settled(spec)), 'dtype %s after a round trip' % dt)
    eq(M.abs_d(ds.from_numpy(back_shape, back)),
       ('D', full[1], N.measure(N.settled(spec))), 'second trip')
    return labels


def downcast(case):
    import datashape as ds
    dims, m = case
    d = ('D', dims, m)
    x = M.build(d)
    shape, dt = ds.to_numpy(x)
    eq(M.abs_d(ds.from_numpy(shape, dt)), d, 'there and back')
    text = ds.dshape(str(x))
    eq(ds.to_numpy(text), (shape, dt), 'the same from text')
    return ['down:' + m[0]]


_shape = st.lists(st.one_of(st.integers(0, 5), st.sampled_from((10, 1000))),
                  max_size=3).map(tuple)


def exact():
    """Measures that NumPy can hold exactly."""
    leaf = M.weighted(
        (6, st.tuples(st.just('p'), st.sampled_from(
            [p for p in M.PLAIN if p not in ('char', 'void')]))),
        (2, st.tuples(st.just('str'), st.integers(0, 300),
                      st.sampled_from(('A', 'U32')))),
        (1, st.just(('date',))), (1, st.just(('datetime', None))),
        (2, st.tuples(st.just('td'), st.sampled_from(M.UNITS))))
    name = M.names().filter(bool)
    sub = M.weighted((3, st.just(())), (1, st.lists(st.tuples(
        st.just('fixed'), st.integers(0, 5)), min_size=1,
        max_size=2).map(tuple)))

    def field(dims, m):
        # NumPy has no sub-arrays of strings of length 0
        return ('D', () if m[0] == 'str' and not m[1] else dims, m)

    def rec(inner):
        return st.tuples(st.just('rec'), st.lists(
            st.tuples(name, st.builds(field, sub, inner)),
            min_size=1, max_size=4, unique_by=lambda f: f[0]).map(tuple))
    return M.weighted((1, leaf), (1, rec(leaf)),
                      (1, rec(M.weighted((2, leaf), (1, rec(leaf))))))


def every_spec(tier):
    leaves = [('n',) + k + (o,) for k in N.NUMKEYS for o in '=<>']
    leaves += [(k, n, o) for k in 'SU' for n in (0, 1, 2, 10, 40)
               for o in '=<>']
    leaves += [(k, u, o) for k in 'Mm' for u in N.MUNITS + (None,)
               for o in '=>']
    leaves += [('O',), ('V', 3), ('g', 'longdouble'), ('g', 'clongdouble')]
    layouts = (False, True, 'padded', 'reversed', 'title')
    i4 = ('n', 'i', 4, '=')
    specs = list(leaves)
    for x in leaves:
        for i, lay in enumerate(layouts):
            for sub in ((), (2,), (3, 1)):
                if sub and x[0] in 'SU' and not x[1]:
                    continue
                specs.append(('r', (('a', x, sub),), lay))
                specs.append(('r', (('b', i4, ()), ('a', x, sub)), lay))
                if i < 1 or tier != 'quick':
                    inner = ('r', (('x', i4, ()), ('y', x, sub)), lay)
                    specs.append(('r', (('a', inner, sub), ('b', i4, ())),
                                  False))
    for i, x in enumerate(specs):
        for shape in ((), (0,), (3,), (2, 5)):
            if len(shape) < 2 or i % 4 == 0:
                yield shape, x, i % 4


SUBS = [
    Sub('small', None, upcast, exhaustive=every_spec),
    Sub('upcast', lambda: st.tuples(_shape, N.specs(), st.integers(0, 3)),
        upcast, quick=8000),
    Sub('downcast', lambda: st.tuples(
        st.lists(st.tuples(st.just('fixed'), M.sizes()),
                 max_size=3).map(tuple), exact()), downcast, quick=5000),
]
