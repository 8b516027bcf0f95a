"""C23: validating values against a datashape."""
import datetime

from hypothesis import strategies as st

from .. import model as M
from .. import npmodel as N
from .. import values as V
from ..core import Sub, Violation, Unspec, check, eq, srepr

ID = 'C23'
RULE = ('random datashapes of fixed and var dimensions, records and scalars, '
        'with values generated to fit and then spoilt in zero to two places '
        '(wrong length, wrong type, missing field, extra item); the verdict '
        'is compared with an independent one. Arrays must have exactly the '
        'dimensions and measure claimed; of several datashapes one must fit; '
        'a datashape is a sub-schema of its equals only. Non-trivial: every '
        'case.')
ASSUMPTIONS = ('options, tuples, maps, type variables and ellipses, bytes, '
               'complex numbers, durations and object are not spoken about',)

INTS = [p for p in M.PLAIN if p.startswith(('int', 'uint'))]
FLOATS = ['float16', 'float32', 'float64']
KINDS = ('p', 'str', 'date', 'time', 'datetime')


def valid(d, v):
    """v is a description from dsverif.values."""
    dims, m = d[1], d[2]
    if dims:
        if v[0] not in 'LT':
            return False
        if dims[0][0] == 'fixed' and dims[0][1] != len(v[1]):
            return False
        return all(valid(('D', dims[1:], m), x) for x in v[1])
    k = v[0]
    if m[0] == 'rec':
        if k in ('D', 'OD'):
            have = dict(v[1])
            return all(valid(f, have.get(n, ('n',))) for n, f in m[1])
        if k in 'LT':
            return len(v[1]) == len(m[1]) and all(
                valid(f, x) for (_, f), x in zip(m[1], v[1]))
        return False
    if m[0] == 'str':
        return k == 's'
    if m[0] == 'date':
        return k in ('d', 'dt')
    if m[0] == 'time':
        return k == 't'
    if m[0] == 'datetime':
        return k == 'dt'
    return {'i': 'int64', 'b': 'bool', 'f': 'float64',
            'np': V.NPCODES.get(v[1]) if k == 'np' else None}.get(k) == m[1]


def verdict(case):
    import datashape as ds
    d, v, form = case
    x = V.value(v)
    before = repr(x)
    schema = (M.build(d), M.plain_text(d),
              M.build(d).measure if not d[1] else M.build(d))[form]
    want = valid(d, v)
    got = ds.validate(schema, x)
    check(bool(got) == want, 'validate(%s, %s) is %s', srepr(schema),
          srepr(x), srepr(got))
    eq(repr(x), before, 'the value')
    # several schemas: one of them must fit
    other = ('D', (('fixed', 7),), ('p', 'uint8'))
    both = (M.plain_text(other), schema)
    got = ds.validate(both, x)
    check(bool(got) == (want or valid(other, v)), 'any of %s for %s is %s',
          srepr(both), srepr(x), srepr(got))
    check(not ds.validate((), x), 'no schema at all fits')
    # and whichever of them it is
    n = len(srepr(v))
    many = [M.plain_text(other)] * (n % 9)
    many.insert(n // 9 % (len(many) + 1), schema)
    got = ds.validate(tuple(many), x)
    check(bool(got) == (want or len(many) > 1 and valid(other, v)),
          'any of %s for %s is %s', srepr(many), srepr(x), srepr(got))
    return ['fits' if want else 'does not fit', 'depth:%d' % M.depth_of(d),
            'dims:%d' % len(d[1])]


def types(case):
    import datashape as ds
    t, v = case
    x = V.value(v)
    py = {'int': int, 'str': str, 'float': float, 'list': list, 'dict': dict,
          'date': datetime.date, 'object': object, 'bool': bool}
    want = isinstance(x, py[t])
    got = ds.validate(py[t], x)
    check(bool(got) == want, 'validate(%s, %s) is %s', t, srepr(x),
          srepr(got))
    got = ds.validate((py[t], 'int64'), x)
    want = want or v[0] == 'i' or v[:2] == ('np', 'i8')
    check(bool(got) == want, 'validate((%s, int64), %s) is %s', t, srepr(x),
          srepr(got))
    return ['type:' + t, 'fits' if want else 'does not fit']


def arrays(case):
    import numpy as np
    import datashape as ds
    shape, spec, other, change = case
    a = np.zeros(shape, N.dtype(spec))
    if N.measure(spec) is None or a.dtype != N.dtype(spec):
        raise Unspec()
    d = ('D', tuple(('fixed', n) for n in shape), N.measure(spec))
    w = d
    if change:
        w = M.tweak(d, M.Noise(other), _arraycfg)
    want = w == d
    schema = M.build(w)
    for s in (schema, M.plain_text(w)):
        got = ds.validate(s, a)
        check(bool(got) == want, 'validate(%s, array %s %s) is %s', srepr(s),
              a.shape, a.dtype, srepr(got))
    return ['array fits' if want else 'array does not fit']


def schemas(case):
    import datashape as ds
    a, b = case
    x, y = M.build(a), M.build(b)
    want = a == b
    pairs = [(x, y), (M.plain_text(a), y), (x, M.plain_text(b)), (y, x),
             (list(x.parameters), tuple(y.parameters))]
    if not a[1]:
        # types by themselves
        pairs += [(x.measure, y), (y, x.measure)]
        if not b[1]:
            pairs.append((x.measure, y.measure))
    for p, q in pairs:
        got = ds.issubschema(p, q)
        check(bool(got) == want, 'issubschema(%s, %s) is %s', srepr(p),
              srepr(q), srepr(got))
    return ['same' if want else 'different']


def many_categories(case):
    """Datashapes whose texts are cut short, or names."""
    import datashape as ds
    n, i, other, dims, ordered, named = case
    cats = ['c%d' % k for k in range(n)]
    other = cats[:i % n] + [other] + cats[i % n + 1:]

    def make(cs, **kw):
        return ds.DataShape(*(list(dims) + [
            ds.Categorical(cs, ds.string, ordered)]), **kw)
    x, y = make(cats), make(other)
    check(bool(ds.issubschema(x, y)) == (cats == other) ==
          bool(ds.issubschema(y, x)), 'issubschema(%s, %s) is %s',
          srepr(x), srepr(y), srepr(ds.issubschema(x, y)))
    check(ds.issubschema(x, make(cats)), '%s is not its own', srepr(x))
    # of the same name
    try:
        x, y = make(cats, name='dsv name'), make(other, name='dsv name')
    except TypeError:
        # (that a name is not given twice is not asked for)
        return ['categories:%d' % (n // 5)]
    check(bool(ds.issubschema(x, y)) == (cats == other), 'issubschema '
          'goes by names: %s, %s', srepr(cats), srepr(other))
    if named:
        check(ds.issubschema(x, make(cats)), 'the name matters')
    return ['categories:%d' % (n // 5)]


_scalar = M.weighted(
    (2, st.sampled_from([('p', p) for p in INTS])),
    (3, st.just(('p', 'int64'))), (2, st.just(('p', 'float64'))),
    (1, st.sampled_from([('p', p) for p in FLOATS + [
        'bool', 'complex[float32]', 'complex[float64]']])),
    (3, st.sampled_from((('str', None, 'U8'), ('str', 5, 'U8'),
                         ('str', None, 'A')))),
    (1, st.just(('date',))), (1, st.sampled_from((('time', None),
                                                  ('time', 'UTC')))),
    (1, st.sampled_from((('datetime', None), ('datetime', 'UTC')))))
CODES = dict((v, k) for k, v in V.NPCODES.items())


def dims(n):
    return st.lists(M.weighted(
        (3, st.tuples(st.just('fixed'), st.integers(0, 3))),
        (2, st.just(('var',)))), max_size=n).map(tuple)


@st.composite
def schema_st(draw, depth):
    ds = draw(dims(2))
    if depth and draw(st.integers(0, 2)):
        names = draw(st.lists(st.sampled_from('abcxyz'), max_size=3,
                              unique=True))
        return ('D', ds, ('rec', tuple(
            (n, draw(schema_st(depth - 1))) for n in names)))
    return ('D', ds, draw(_scalar))


@st.composite
def fitting(draw, d):
    dims, m = d[1], d[2]
    if dims:
        n = dims[0][1] if dims[0][0] == 'fixed' else draw(st.integers(0, 3))
        inner = fitting(('D', dims[1:], m))
        if n > 4:
            some = [draw(inner) for _ in range(2)]
            return (draw(st.sampled_from('LT')),
                    tuple(some[i % 2] for i in range(n)))
        return (draw(st.sampled_from('LT')),
                tuple(draw(inner) for _ in range(n)))
    if m[0] == 'rec':
        form = draw(st.sampled_from(('D', 'OD', 'T', 'L')))
        cells = tuple((n, draw(fitting(f))) for n, f in m[1])
        if form in 'LT':
            return (form, tuple(x for _, x in cells))
        if draw(st.integers(0, 3)) == 0:
            cells = cells[::-1]
        return (form, cells)
    if m[0] == 'str':
        return ('s', draw(st.sampled_from(('', 'a', 'hello world'))))
    if m[0] == 'date':
        return draw(st.sampled_from((('d', 2014, 1, 1),
                                     ('dt', 2014, 1, 1, 1, 1, 1, 1))))
    if m[0] == 'time':
        return draw(st.sampled_from((('t', 1, 2, 3, 4), ('t', 0, 0, 0, 0),
                                     ('t', 1, 2, 3, 4, 120))))
    if m[0] == 'datetime':
        return draw(st.sampled_from((('dt', 2014, 1, 1, 0, 0, 0, 0),
                                     ('dt', 2014, 1, 1, 9, 0, 0, 0, 0),
                                     ('dt', 2014, 1, 1, 9, 0, 0, 0, -60))))
    if m[1] == 'bool':
        return ('b', True)
    if m[1] == 'int64' and draw(st.booleans()):
        return ('i', 5)
    if m[1] == 'float64' and draw(st.booleans()):
        return ('f', '2.5')
    return ('np', CODES[m[1]], 3)


WRONG = (('n',), ('i', 5), ('f', '1.5'), ('s', 'x'), ('b', True),
         ('np', 'i4', 1), ('np', 'f4', 1), ('np', 'u1', 1), ('L', ()),
         ('T', ()), ('D', ()), ('d', 2014, 1, 1), ('t', 1, 1, 1, 1),
         ('dt', 2014, 1, 1, 0, 0, 0, 0), ('L', (('i', 1),)),
         ('D', (('a', ('i', 1)),)))


def spots(v, pre=()):
    yield pre
    if v[0] in 'LT':
        for i, x in enumerate(v[1]):
            for p in spots(x, pre + (i,)):
                yield p
    elif v[0] in ('D', 'OD'):
        for i, (_, x) in enumerate(v[1]):
            for p in spots(x, pre + (i,)):
                yield p


def get(v, p):
    for i in p:
        v = v[1][i] if v[0] in 'LT' else v[1][i][1]
    return v


def put(v, p, new):
    if not p:
        return new
    i = p[0]
    if v[0] in 'LT':
        return (v[0], v[1][:i] + (put(v[1][i], p[1:], new),) + v[1][i + 1:])
    n, x = v[1][i]
    return (v[0], v[1][:i] + ((n, put(x, p[1:], new)),) + v[1][i + 1:])


def spoil(v, n):
    p = n.of(list(spots(v)))
    x = get(v, p)
    op = n.pick(5)
    if x[0] in ('L', 'T', 'D', 'OD') and op:
        if op == 1 and x[1]:
            i = n.pick(len(x[1]))
            return put(v, p, (x[0], x[1][:i] + x[1][i + 1:]))
        if op == 2 and x[0] in 'LT':
            more = n.of(x[1]) if x[1] else n.of(WRONG)
            return put(v, p, (x[0], x[1] + (more,)))
        if op == 2 and 'zz' not in dict(x[1]):
            return put(v, p, (x[0], x[1] + (('zz', n.of(WRONG)),)))
        if op == 3 and x[0] in 'LT' and len(x[1]) > 1:
            return put(v, p, (x[0], x[1][::-1]))
        if op == 3 and x[0] in ('D', 'OD') and x[1]:
            k, y = x[1][0]
            return put(v, p, (x[0], x[1][1:] + ((k.upper(), y),)))
    return put(v, p, n.of(WRONG))


@st.composite
def verdicts(draw):
    d = draw(schema_st(draw(st.integers(0, 2))))
    v = draw(fitting(d))
    n = M.Noise(draw(st.lists(st.integers(0, 719), min_size=8, max_size=8)))
    for _ in range(draw(st.sampled_from((0, 1, 1, 1, 2)))):
        v = spoil(v, n)
    return d, v, draw(st.integers(0, 2))


@st.composite
def longs(draw):
    """Long sequences and wide records with one wrong item."""
    n = draw(st.one_of(st.integers(5, 30), st.sampled_from(
        (64, 100, 101, 128, 150, 256))))
    var = draw(st.booleans())
    inner = draw(schema_st(1))
    if draw(st.integers(0, 2)):
        d = ('D', ((('var',) if var else ('fixed', n)),) + inner[1][:1],
             inner[2])
        items = draw(fitting(('D', (('fixed', n),) + inner[1][:1], inner[2])))
        cells = list(items[1])
        make = lambda: (items[0], tuple(cells))
    else:
        # a record of many fields
        n = min(n, 40)
        d = ('D', (), ('rec', tuple(('f%d' % i, inner if i % 3 else (
            'D', (), ('p', 'int64'))) for i in range(n))))
        v = draw(fitting(d))
        keys = [x[0] for x in v[1]] if v[0] in ('D', 'OD') else None
        cells = [x[1] for x in v[1]] if keys else list(v[1])
        make = lambda: (v[0], tuple(zip(keys, cells)) if keys
                        else tuple(cells))
    for _ in range(draw(st.sampled_from((0, 1, 1, 1, 2)))):
        at = draw(st.integers(0, n - 1))
        nums = M.Noise(draw(st.lists(st.integers(0, 719), min_size=4,
                                     max_size=4)))
        cells[at] = spoil(cells[at], nums)
    return d, make(), draw(st.integers(0, 2))


_arraycfg = M.Cfg(kinds=('p', 'str', 'date', 'datetime', 'td', 'rec'),
                  dims=('fixed', 'var'))

def every_verdict(tier):
    """Every small schema with every small value."""
    scalars = [('p', p) for p in ('int64', 'int32', 'float64', 'bool',
                                  'uint8', 'float32')] + [
        ('str', None, 'U8'), ('str', 3, 'A'), ('date',), ('time', None),
        ('datetime', None), ('datetime', 'UTC')]
    dims = [(), (('fixed', 0),), (('fixed', 1),), (('fixed', 2),), (('var',),),
            (('var',), ('fixed', 2)), (('fixed', 2), ('var',)),
            (('fixed', 1), ('fixed', 2))]
    i64, text = ('D', (), ('p', 'int64')), ('D', (), ('str', None, 'U8'))
    schemas = [('D', ds, m) for ds in dims for m in scalars]
    recs = [('rec', ()), ('rec', (('a', i64),)),
            ('rec', (('a', i64), ('b', text))),
            ('rec', (('b', text), ('a', i64))),
            ('rec', (('a', ('D', (('fixed', 2),), ('p', 'int64'))),
                     ('b', ('D', (('var',),), ('str', None, 'U8'))))),
            ('rec', (('a', ('D', (), ('rec', (('b', i64),)))),))]
    schemas += [('D', ds, m) for ds in dims[:6] for m in recs]
    one = [('i', 5), ('s', 'x'), ('f', '1.5'), ('b', True), ('n',),
           ('d', 2014, 1, 1), ('dt', 2014, 1, 1, 0, 0, 0, 0),
           ('dt', 2014, 1, 1, 5, 0, 0, 0, 60), ('t', 1, 1, 1, 1, 60),
           ('t', 1, 1, 1, 1), ('np', 'i4', 1), ('np', 'u1', 1),
           ('np', 'i8', 1), ('np', 'f4', 1), ('s', '')]
    few = one[:3]
    vals = list(one) + [('L', ()), ('T', ()), ('D', ()), ('OD', ())]
    for x in one:
        vals += [('L', (x,)), ('T', (x, x)), ('L', (x, ('i', 5))),
                 ('L', (('i', 5), x)), ('L', (('L', (x,)),)),
                 ('L', (('T', (x, x)), ('L', (x, x)))),
                 ('L', (('L', (('i', 5), ('i', 5))), ('L', (('i', 5), x)))),
                 ('D', (('a', x),)), ('D', (('a', ('i', 5)), ('b', x))),
                 ('D', (('b', x), ('a', ('i', 5)))), ('L', (x, x, x)),
                 ('L', (('D', (('a', x),)),)),
                 ('L', (('D', (('a', ('i', 5)),)), ('D', (('a', x),)))),
                 ('L', (('T', (('i', 5), x)), ('L', (('i', 5), ('s', 'x'))))),
                 ('D', (('a', ('L', (('i', 5), x))), ('b', ('L', (x,))))),
                 ('D', (('a', ('L', (('i', 5),) * 2)), ('b', ('T', (x,))))),
                 ('T', (('L', (('i', 5), ('i', 5))), ('L', (('s', ''), x)))),
                 ('D', (('a', ('D', (('b', x),))),)),
                 ('T', (('T', (x,)),)), ('T', (('i', 5), x))]
    n = 0
    for d in schemas:
        for v in vals:
            n += 1
            yield d, v, n % 3


SUBS = [
    Sub('many', lambda: st.tuples(
        st.integers(1, 30), st.integers(0, 99),
        st.sampled_from(('c0', 'x', 'c12', '')),
        st.lists(st.integers(0, 5), max_size=2), st.booleans(),
        st.booleans()), many_categories, quick=1500),
    Sub('schemas', lambda: M.pairs(depth=2), schemas, quick=3000),
    Sub('small', None, verdict, exhaustive=every_verdict),
    Sub('verdict', verdicts, verdict, quick=12000),
    Sub('long', longs, verdict, quick=1500),
    Sub('types', lambda: st.tuples(
        st.sampled_from(('int', 'str', 'float', 'list', 'dict', 'date',
                         'object', 'bool')),
        st.one_of(st.sampled_from(WRONG), V.scalars('nbifswdDt'))), types,
        quick=800),
    Sub('arrays', lambda: st.tuples(
        st.lists(st.integers(0, 3), max_size=3).map(tuple), N.specs(),
        st.lists(st.integers(0, 719), min_size=8, max_size=8),
        st.booleans()), arrays, quick=3000),
]
