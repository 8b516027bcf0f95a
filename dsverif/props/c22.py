"""C22: the datashape of NumPy arrays."""
import itertools

from hypothesis import strategies as st

from .. import model as M
from .. import npmodel as N
from .. import values as V
from ..core import Sub, Violation, Unspec, check, eq, srepr
from .c12 import every_spec

ID = 'C22'
RULE = ('random NumPy arrays (any supported dtype, shape, order, stride, '
        'broadcast or reversed view, records, object arrays of text, of other '
        'things and of both), alone or inside lists and dictionaries; shape '
        'and measure are compared with an independent table. Non-trivial: '
        'every case.')
ASSUMPTIONS = ('object arrays and fields whose first five elements are all '
               'text while later ones are not, and those without elements, '
               'are not spoken about',)


def view(a, how):
    """The same shape in another memory layout."""
    import numpy as np
    if how == 1:
        return np.asfortranarray(a) if a.ndim else a
    if how == 2:
        return a[::-1] if a.ndim else a
    if how == 3 and a.ndim:
        b = np.empty((2 * a.shape[0],) + a.shape[1:], a.dtype)
        b[::2] = a
        return b[::2]
    if how == 4:
        a = a.copy()
        a.flags.writeable = False
        return a
    return a


def array(case):
    import numpy as np
    import datashape as ds
    shape, spec, how = case
    a = view(np.zeros(shape, N.dtype(spec)), how)
    want = N.measure(spec)
    if has_object(spec) or a.dtype != N.dtype(spec):
        raise Unspec()      # (NumPy makes 'S1' out of 'S0')
    if want is None:
        try:
            got = ds.discover(a)
        except (NotImplementedError, ValueError, TypeError):
            return ['refused']
        raise Violation('%s becomes %s' % (a.dtype, srepr(got)))
    got = ds.discover(a)
    full = ('D', tuple(('fixed', n) for n in a.shape), want)
    eq(M.abs_d(got), full, 'discover(array %s %s)' % (a.shape, a.dtype))
    eq(M.abs_d(ds.discover([a, a])), ('D', (('fixed', 2),) + full[1], want),
       'two arrays')
    eq(M.abs_d(ds.discover({'k': a})), ('D', (), ('rec', (('k', full),))),
       'an array in a dictionary')
    return ['array:' + spec[0], 'view:%d' % how]


def has_object(spec):
    return spec[0] == 'O' or spec[0] == 'r' and any(
        has_object(f) for _, f, _ in spec[1])


OBJECT = ('p', 'object')


def judge(flat):
    """What an object array with these elements, in order, is."""
    if not flat:
        return None
    text = [x[0] == 's' for x in flat]
    if all(text):
        return V.STRING
    if all(text[:5]):
        raise Unspec()
    return OBJECT


def filled(shape, items, fill):
    import numpy as np
    n = 1
    for k in shape:
        n *= k
    items = list(items)[:n]
    items += [fill] * (n - len(items))
    a = np.empty(n, 'O')
    for i, x in enumerate(items):
        a[i] = V.value(x)
    return a.reshape(shape), items


def objects(case):
    import datashape as ds
    shape, items, fill, how = case
    a, flat = filled(shape, items, fill)
    want = judge(flat)
    if how == 5 and a.ndim == 2:
        b = a.T.copy().T        # other memory order, same elements
    else:
        b = view(a, how if how != 2 else 0)
    got = ds.discover(b)
    if want is None:
        # nothing tells what it is of, but the shape is its own
        d = M.abs_d(got)
        check(d[1] == tuple(('fixed', n) for n in shape) and
              d[2] in (V.STRING, OBJECT), 'an empty array of objects of shape '
              '%s is %s', shape, srepr(d))
        return ['objects:none']
    eq(M.abs_d(got), ('D', tuple(('fixed', n) for n in shape), want),
       'object array of %s' % srepr(flat))
    return ['objects:' + want[0]]


def records(case):
    import numpy as np
    import datashape as ds
    shape, fields = case
    n = 1
    for k in shape:
        n *= k
    dt = np.dtype([(name, N.dtype(spec)) for name, spec, _, _ in fields])
    a = np.zeros(shape, dt)
    want = []
    for name, spec, items, fill in fields:
        if spec == ('O',):
            col, flat = filled(shape, items, fill)
            a[name] = col
            if not flat:
                raise Unspec()
            want.append((name, ('D', (), judge(flat))))
        else:
            want.append((name, ('D', (), N.measure(spec))))
    got = ds.discover(a)
    eq(M.abs_d(got), ('D', tuple(('fixed', k) for k in shape),
                      ('rec', tuple(want))), 'records %s' % srepr(fields))
    return ['records'] + ['field:' + m[2][0] for _, m in want]


def scalar(case):
    """An element of an array is what the array is an array of."""
    import warnings
    import numpy as np
    import datashape as ds
    spec, form = case
    if has_object(spec) or spec[0] in 'SU':
        raise Unspec()      # elements are Python objects or text
    want = N.measure(spec)
    a = np.zeros((1,), N.dtype(spec))
    x = a[0]
    if want is None:
        raise Unspec()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = ds.discover((x, [x, x], {'k': x})[form])
    d = ('D', (), want)
    eq(M.abs_d(got), (d, ('D', (('fixed', 2),), want),
                      ('D', (), ('rec', (('k', d),))))[form],
       'discover of the element of %s (form %d)' % (a.dtype, form))
    return ['scalar:' + spec[0]]


def arraylike(case):
    """Other things with a shape and a dtype."""
    import warnings
    import datashape as ds
    shape, spec = case
    want = N.measure(spec)
    if want is None:
        raise Unspec()
    dt = N.dtype(spec)

    class Thing(object):
        pass
    t = Thing()
    t.shape, t.dtype = shape, dt
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = ds.discover(t)
    eq(M.abs_d(got), ('D', tuple(('fixed', n) for n in shape), want),
       'array-like %s %s' % (shape, dt))
    for attr in ('shape', 'dtype'):
        u = Thing()
        setattr(u, attr, getattr(t, attr))
        for x in (u, Thing(), object()):
            try:
                got = ds.discover(x)
            except NotImplementedError:
                continue
            raise Violation('discovers %s' % srepr(got))
    return ['array-like']


_shape = st.lists(st.integers(0, 4), max_size=3).map(tuple)
_text = st.sampled_from(('', 'a', 'Hello', '1', '2014-01-01', 'x y')).map(
    lambda s: ('s', s))
_other = st.sampled_from((('n',), ('i', 1), ('f', '1.5'), ('by', b'a'),
                          ('L', ()), ('d', 2014, 1, 1)))
_items = M.weighted(
    (3, st.lists(_text, max_size=8)), (2, st.lists(_other, max_size=8)),
    (4, st.builds(lambda a, i, x: a[:i] + [x] + a[i:],
                  st.lists(_text, min_size=1, max_size=8),
                  st.integers(0, 8), _other))).map(tuple)
_fill = M.weighted((3, _text), (1, _other))
_leaf = N.specs().filter(lambda s: s[0] not in 'rVg' and
                         N.measure(s) is not None)


def record_cases():
    field = st.tuples(M.names().filter(bool), M.weighted(
        (2, st.just(('O',))), (1, _leaf)), _items, _fill)
    return st.tuples(st.lists(st.integers(1, 4), max_size=2).map(tuple),
                     st.lists(field, min_size=1, max_size=4,
                              unique_by=lambda f: f[0]).map(tuple))


def every_array(tier):
    for shape, spec, i in every_spec(tier):
        if tier == 'thorough':
            for how in range(5):
                yield shape, spec, how
        else:
            yield shape, spec, (i + len(shape)) % 5
        if shape == (3,) and spec[0] != 'r':
            for how in range(5):
                yield (2, 3), spec, how


def every_scalar(tier):
    for shape, spec, _ in every_spec(tier):
        if not shape:
            for form in range(3):
                yield spec, form


def every_thing(tier):
    for shape, spec, _ in every_spec(tier):
        yield shape, spec


PARTS = (('s', 'a'), ('s', ''), ('s', '1'), ('n',), ('i', 1), ('by', b'a'),
         ('L', ()))


def every_object(tier):
    """Every arrangement of a few elements in arrays of a few shapes."""
    for shape in ((), (1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (1, 3),
                  (3, 1), (1, 1, 2)):
        n = 1
        for k in shape:
            n *= k
        for items in itertools.product(PARTS, repeat=n):
            for how in ((0, 1, 3, 4, 5) if tier == 'thorough' else
                        (0, 5 if len(shape) == 2 else 3)):
                yield shape, items, PARTS[0], how
    # where the first thing that is not text stands
    for shape in ((4,), (5,), (6,), (12,), (2, 2), (2, 3), (3, 2), (2, 6),
                  (2, 2, 3), (6, 2)):
        n = 1
        for k in shape:
            n *= k
        for i in range(n + 1):
            for x in PARTS[3:]:
                items = (('s', 'a'),) * i + (x,)
                for how in (0, 1, 3, 4, 5):
                    yield shape, items, PARTS[0], how
                    if i + 1 < n:
                        yield shape, items, x, how


def every_record(tier):
    i4 = ('n', 'i', 4, '=')
    for items in itertools.product(PARTS, repeat=3):
        yield (3,), (('a', ('O',), items, PARTS[0]),)
        yield (3,), (('a', i4, (), PARTS[0]),
                     ('b', ('O',), items, PARTS[0]))
        yield (3,), (('b', ('O',), items, PARTS[0]), ('a', i4, (), PARTS[0]),
                     ('c', ('O',), items[::-1], PARTS[0]))
    for x in PARTS:
        for y in PARTS:
            for shape in ((), (1,), (2, 2), (7,)):
                yield shape, (('a', ('O',), (), x), ('b', ('O',), (), y))
    for _, spec, _ in every_spec('quick'):
        if spec[0] not in 'rVg' and N.measure(spec) is not None and \
                not has_object(spec):
            yield (2,), (('a', spec, (), PARTS[0]),
                         ('b', ('O',), (), PARTS[0]))
            yield (2,), (('a', ('O',), (), PARTS[3]),
                         ('b', spec, (), PARTS[0]))


SUBS = [
    Sub('small', None, array, exhaustive=every_array),
    Sub('small_objects', None, objects, exhaustive=every_object),
    Sub('small_records', None, records, exhaustive=every_record),
    Sub('small_scalars', None, scalar, exhaustive=every_scalar),
    Sub('small_arraylike', None, arraylike, exhaustive=every_thing),
    Sub('array', lambda: st.tuples(_shape, N.specs(), st.integers(0, 4)),
        array, quick=5000),
    Sub('objects', lambda: st.tuples(
        st.lists(st.integers(0, 4), max_size=3).map(tuple), _items, _fill,
        st.integers(0, 5)), objects, quick=3000),
    Sub('records', record_cases, records, quick=4000),
    Sub('scalars', lambda: st.tuples(N.specs(), st.integers(0, 2)), scalar,
        quick=2500),
    Sub('arraylike', lambda: st.tuples(_shape, N.specs()), arraylike,
        quick=800),
]
