"""C26: whatever is done with datashapes, those made before stay the same."""
import copy
import pickle
import warnings

from hypothesis import strategies as st

from .. import model as M
from .. import small
from .. import texts as T
from .. import values as V
from ..core import Sub, Violation, check, eq, srepr

ID = 'C26'
RULE = ('random histories of up to a dozen operations on a growing pool of '
        'datashapes: building, parsing good and bad text, combining, '
        'indexing, promoting, discovering, printing, comparing, converting, '
        'pickling, changing lists that were passed in or given out, failing '
        'calls, symbol tables and type sets of one\'s own; after each '
        'operation every datashape of the pool and the meaning of the '
        'predefined names are what they were. Non-trivial: a history with at '
        'least two operations after the first datashape.')
ASSUMPTIONS = ('type sets registered under a name last for the whole process',)

PROBES = (
    ('int', ('D', (), ('p', 'int32'))),
    ('real', ('D', (), ('p', 'float64'))),
    ('string', ('D', (), ('str', None, 'U8'))),
    ('time', ('D', (), ('time', None))),
    ('datetime', ('D', (), ('datetime', None))),
    ('timedelta', ('D', (), ('td', 'us'))),
    ('3 * var * ... * {a: ?int8, b: (A, date)}',
     ('D', (('fixed', 3), ('var',), ('ell', None)),
      ('rec', (('a', ('D', (), ('opt', ('D', (), ('p', 'int8'))))),
               ('b', ('D', (), ('tup', (('D', (), ('tv', 'A')),
                                        ('D', (), ('date',)))))))))),
    ('complex[float32]', ('D', (), ('p', 'complex[float32]'))),
    ('units["m"]', ('D', (), ('units', 'm', ('D', (), ('p', 'float64'))))),
    ('decimal[5]', ('D', (), ('dec', 5, 0))),
    ('null', ('D', (), ('null',))), ('bytes', ('D', (), ('bytes',))),
    ('json', ('D', (), ('json',))), ('void', ('D', (), ('p', 'void'))),
)
CONSTANTS = (
    ('int_', ('p', 'int32')), ('real', None), ('bool_', ('p', 'bool')),
    ('string', ('str', None, 'U8')), ('time_', ('time', None)),
    ('datetime_', ('datetime', None)), ('timedelta_', ('td', 'us')),
    ('date_', ('date',)), ('null', ('null',)), ('bytes_', ('bytes',)),
    ('json', ('json',)), ('object_', ('p', 'object')),
    ('complex64', ('p', 'complex[float32]')), ('intptr', ('p', 'int64')),
    ('float16', ('p', 'float16')), ('uint64', ('p', 'uint64')),
    ('NullRecord', ('rec', ())),
)
NAMED = {'signed': 4, 'unsigned': 4, 'integral': 8, 'floating': 3,
         'complexes': 2, 'boolean': 1, 'numeric': 13, 'scalar': 14}
BAD = ('', '3 *', '{a: int32, a: int32}', 'int33', 'string[3, "zz"]',
       '* int32', '(int32', '3 * 3', '{a: 3}', 'datetime[tz=3]',
       'timedelta[unit="x"]', 'decimal["a"]', '1 * ... * ... * int32',
       'units[3]', 'option[3]', '?', 'typevar["a"]', 'map[int32]', 'foo[1]',
       'categorical[[1, 2], ordered=3]', 'fixed[-2] * int32')

EXPECTED = (SyntaxError, TypeError, ValueError, IndexError, KeyError,
            NotImplementedError, AssertionError)


class World(object):
    def __init__(self):
        self.pool = []

    def add(self, x, d, how):
        eq(M.abs_d(x), d, how)
        self.pool.append((x, d, str(x), repr(x), hash(x), naming(x)))
        del self.pool[:-6]

    def pick(self, n):
        return n.of(self.pool)

    def verify(self, op):
        import datashape as ds
        for x, d, s, r, h, name in self.pool:
            got = M.abs_d(x)
            intact(x, op)
            if got != d:
                raise Violation('%s changed %s into %s' % (op, srepr(d),
                                                           srepr(got)))
            if (str(x), repr(x), hash(x)) != (s, r, h):
                raise Violation('%s changed the text or hash of %s' % (
                    op, srepr(d)))
            eq(naming(x), name, 'the name after %s' % op)
            y = M.build(d)
            if not (x == y and y == x and hash(y) == h):
                raise Violation('after %s %s differs from one made again' % (
                    op, srepr(d)))

    def globals(self, op):
        import datashape as ds
        for text, d in PROBES:
            got = M.abs_d(ds.dshape(text))
            if got != d:
                raise Violation('after %s %r means %s' % (op, text,
                                                          srepr(got)))
        for name, m in CONSTANTS:
            if m is not None:
                eq(M.abs_d(getattr(ds, name)), ('D', (), m),
                   'datashape.%s after %s' % (name, op))
        for name, k in NAMED.items():
            ts = getattr(ds, name)
            eq(len(list(ts)), k, 'members of %s after %s' % (name, op))
            check(ds.typesets.registry[name] is ts, 'after %s the registry '
                  'has another %s', op, name)
        check(ds.int8 in ds.signed and ds.int8 not in ds.unsigned,
              'int8 moved after %s', op)
        eq(M.abs_d(ds.coretypes.Type.lookup_type('int32')),
           ('D', (), ('p', 'int32')), 'type int32 after %s' % op)


def naming(x):
    """The names which a datashape and those within it go by."""
    return [getattr(t, 'name', None) for t in collect_all(x)]


def intact(x, op):
    """What the parts of a datashape give out agrees with itself."""
    todo = [x]
    while todo:
        m = todo.pop()
        k = type(m).__name__
        if k == 'DataShape':
            eq(tuple(m.shape) + (m.measure,), tuple(m.parameters),
               'shape and measure after %s' % op)
            todo.append(m.measure)
        elif k == 'Record':
            names = [n for n, t in m.fields]
            types = [t for n, t in m.fields]
            eq(list(m.names), names, 'names after %s' % op)
            eq(list(m.types), types, 'types after %s' % op)
            eq(m.dict, dict(m.fields), 'dict after %s' % op)
            for n, t in m.fields:
                eq(m[n], t, 'field %s after %s' % (n, op))
            todo += types
        elif k == 'Tuple':
            todo += list(m.dshapes)
        elif k == 'Function':
            eq(tuple(m.argtypes) + (m.restype,), tuple(m.parameters),
               'arguments and result after %s' % op)
            todo += list(m.parameters)
        elif k == 'Option':
            todo.append(m.ty)
        elif k == 'Map':
            todo += [m.key, m.value]
        elif k == 'Units':
            todo.append(m.tp)


def attempt(f, *args, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return f(*args, **kw)
        except EXPECTED:
            return None


# Each operation: f(world, payload, noise)

def op_build(w, d, n):
    w.add(M.build(d), d, 'building')


def op_parse(w, d, n):
    import datashape as ds
    w.add(ds.dshape(M.plain_text(d)), d, 'parsing')


def op_text(w, toks, n):
    import datashape as ds
    x = attempt(ds.dshape, ' '.join(toks))
    if x is not None:
        w.add(x, M.abs_d(x), 'parsing')


def op_bad(w, _, n):
    import datashape as ds
    text = n.of(BAD)
    try:
        ds.dshape(text)
    except EXPECTED:
        return
    raise Violation('%r is accepted' % text)


def op_combine(w, _, n):
    import datashape as ds
    x, d = w.pick(n)[:2]
    y, e = w.pick(n)[:2]
    k = n.pick(7)
    if k == 0:
        w.add(3 * x, ('D', (('fixed', 3),) + d[1], d[2]), '3 * x')
    elif k == 1:
        w.add(ds.DataShape(ds.Record([('a', x), ('b', y)])),
              ('D', (), ('rec', (('a', d), ('b', e)))), 'a record')
    elif k == 2:
        w.add(ds.DataShape(ds.Tuple([x, y, x])),
              ('D', (), ('tup', (d, e, d))), 'a tuple')
    elif k == 3:
        w.add(ds.DataShape(ds.Option(x)), ('D', (), ('opt', d)), 'an option')
    elif k == 4:
        w.add(ds.DataShape(ds.Map(x, y)), ('D', (), ('map', d, e)), 'a map')
    elif k == 5:
        w.add(ds.DataShape(ds.Function(x, y)), ('D', (), ('fun', (d,), e)),
              'a function')
    else:
        w.add(ds.var * x, ('D', (('var',),) + d[1], d[2]), 'var * x')


def op_use(w, _, n):
    """Anything that only looks."""
    import datashape as ds
    from datashape import predicates as P
    from datashape.util.testing import assert_dshape_equal
    x, d = w.pick(n)[:2]
    y, e = w.pick(n)[:2]
    uses = [
        lambda: ds.pprint(x, n.pick(100)), lambda: ds.to_numpy(x),
        lambda: ds.to_numpy_dtype(x), lambda: ds.promote(x, y),
        lambda: ds.promote(x.measure, y.measure, False),
        lambda: ds.maxtype(x), lambda: ds.typesets.supertype(x.measure),
        lambda: ds.cat_dshapes([x, y]), lambda: ds.cat_dshapes([x, x]),
        lambda: assert_dshape_equal(x, y), lambda: assert_dshape_equal(
            x, y, check_dim=False, check_tz=False, check_record_order=False),
        lambda: ds.issubschema(x, y), lambda: ds.validate(x, [1, 2]),
        lambda: ds.validate((x, y), {'a': 1}),
        lambda: (x == y, x != y, hash(x), {x: 1}, {x, y}),
        lambda: (P.isscalar(x), P.isrecord(x), P.isfixed(x)),
        lambda: (P.ishomogeneous(x), P.isnumeric(x), P.isdimension(x)),
        lambda: (ds.has_var_dim(x), ds.has_ellipsis(x)),
        lambda: pickle.loads(pickle.dumps(x, n.pick(6))),
        lambda: copy.deepcopy(x), lambda: copy.copy(x),
        lambda: x.subarray(n.pick(4)), lambda: x.subshape[0],
        lambda: x.subshape[::2], lambda: x.subshape['a'],
        lambda: x.subshape[[0, 1]], lambda: x.subshape[None, 0],
        lambda: x.subshape[0, 'a'], lambda: x.measure['a'],
        lambda: ds.dshape(x), lambda: ds.dshape(str(x)),
        lambda: ds.validation.validate(x), lambda: list(x),
        lambda: x[::-1], lambda: x.info(), lambda: x.measure.info(),
        lambda: ds.TypeSet(x, y) | ds.integral,
        lambda: x in ds.integral, lambda: ds.matches_typeset([x], [y]),
        lambda: ds.dshape('{a: %s, b: %s}' % (x, y)),
        lambda: ds.discover([str(x), str(y)]),
        lambda: ds.from_numpy(*ds.to_numpy(x)),
        lambda: collect_all(x),
        lambda: ds.Categorical(['a'], type=x),
        lambda: ds.Categorical(['a', 'b'], x.measure, True),
        lambda: ds.Units('m', x), lambda: ds.Units('m', x.measure),
        lambda: ds.DataShape(x, name='zz'),
        lambda: ds.DataShape(*x.parameters, name='zz'),
    ]
    try:
        attempt(uses[n.pick(len(uses))])
    except Exception:
        pass        # what does not apply to x is no concern here


def collect_all(x):
    from datashape.predicates import collect
    return list(collect(lambda t: True, x))


def op_given(w, d, n):
    """Change what a datashape gives out."""
    x = w.pick(n)[0]
    todo = [x, x.measure]
    while todo:
        m = todo.pop()
        for name in ('names', 'types', 'dict', 'fields', 'parameters',
                     'shape', 'dshapes', 'argtypes', 'categories'):
            v = getattr(m, name, None)
            if isinstance(v, list):
                todo += [t for t in v if hasattr(t, 'parameters')]
                v.reverse()
                v.append('zz')
                del v[:1]
            elif isinstance(v, dict):
                todo += list(v.values())
                v.clear()
            elif isinstance(v, tuple):
                todo += [t for t in v if hasattr(t, 'parameters')]
            elif v is not None and name in ('dict', 'names', 'types') and \
                    type(m).__name__ == 'Record':
                raise Violation('%s is %s' % (name, srepr(v)))
        if type(m).__name__ == 'Option':
            todo.append(m.ty)
        if len(todo) > 200:
            break


def op_taken(w, d, n):
    """Change what a datashape was made from."""
    import datashape as ds
    from collections import OrderedDict
    x, d = w.pick(n)[:2]
    k = n.pick(7)
    if k == 0:
        fields = [['a', x], ['b', ds.int8]]
        y = ds.Record(fields)
        fields[0][0] = 'z'
        fields[1][1] = ds.int16
        fields.append(['c', x])
        want = ('rec', (('a', d), ('b', ('D', (), ('p', 'int8')))))
    elif k == 1:
        fields = OrderedDict([('b', x), ('a', x)])
        y = ds.Record(fields)
        fields['c'] = x
        fields['b'] = ds.int8
        want = ('rec', (('b', d), ('a', d)))
    elif k == 2:
        items = [x, ds.int8]
        y = ds.Tuple(items)
        items[0] = ds.int16
        items.append(x)
        want = ('tup', (d, ('D', (), ('p', 'int8'))))
    elif k == 3:
        cats = ['a', 'b']
        y = ds.Categorical(cats, ordered=True)
        cats.reverse()
        cats.append('c')
        want = ('cat', ('a', 'b'), ('str', None, 'U8'), True)
    elif k == 4:
        names, types = ['a', 'b'], [x, x]
        y = ds.Record(list(zip(names, types)))
        names[0] = 'q'
        types[1] = ds.int8
        want = ('rec', (('a', d), ('b', d)))
    elif k == 5:
        parts = [ds.Fixed(2), ds.var, ds.int8]
        z = ds.dshape(parts)
        parts[0] = ds.Fixed(3)
        parts.pop()
        w.add(z, ('D', (('fixed', 2), ('var',)), ('p', 'int8')), 'a list')
        return
    else:
        args = [x, ds.int8]
        y = ds.Function(*args)
        args[0] = ds.int16
        want = ('fun', (d,), ('D', (), ('p', 'int8')))
    w.add(ds.DataShape(y), ('D', (), want), 'made from a list')


def op_failing(w, _, n):
    """Calls that must fail, and leave nothing behind."""
    import datashape as ds
    x = w.pick(n)[0]
    calls = [
        lambda: ds.Record([('a', x), ('a', x)]), lambda: ds.Record([(1,)]),
        lambda: ds.Record([('a', 3)]), lambda: ds.Tuple([3]),
        lambda: ds.DataShape(x.measure, 3), lambda: ds.DataShape(),
        lambda: ds.Fixed(-1), lambda: ds.Fixed('a'),
        lambda: ds.TimeDelta('foo'), lambda: ds.String(1, 2, 3),
        lambda: ds.String('foo'), lambda: ds.Decimal('a'),
        lambda: ds.Units(3), lambda: ds.Units('m', 3),
        lambda: ds.TypeVar('a'), lambda: ds.DateTime(3), lambda: ds.Time(3),
        lambda: ds.coretypes.CType('int32', 8, 8),
        lambda: ds.coretypes.CType('string', 8, 8),
        lambda: ds.coretypes.Type.register('int64', x),
        lambda: ds.TypeSet(ds.int8, name='integral'),
        lambda: ds.TypeSet(*(list(ds.scalar) + [ds.string]), name=n.of(
            sorted(NAMED))),
        lambda: ds.TypeSet(name=n.of(sorted(NAMED))),
        lambda: ds.typesets.register_typeset('numeric', ds.TypeSet(ds.int8)),
        lambda: ds.dshape(3), lambda: ds.dshape(None), lambda: ds.dshape({}),
        lambda: x.subshape[1.5], lambda: ds.Option(ds.Fixed(3)),
        lambda: ds.from_numpy((3,), 'no such type'),
        lambda: ds.Categorical(['a'], ordered=3),
    ]
    k = n.pick(len(calls))
    try:
        calls[k]()
    except EXPECTED:
        return
    raise Violation('failing call %d of %s has not failed' % (k, srepr(x)))


def op_table(w, _, n):
    """Symbol tables of one's own."""
    import datashape as ds
    x, d = w.pick(n)[:2]
    sym = ds.TypeSymbolTable()
    name = n.of(('int', 'string', 'foo', 'time', 'real', 'date'))
    sym.dtype[name] = x
    sym.dtype_constr['complex'] = lambda *a: x
    sym.dtype_constr['decimal'] = lambda *a: x
    sym.dim['var'] = ds.Fixed(7)
    sym.dim_constr['fixed'] = lambda i: ds.Fixed(i + 1)
    if n.pick(2):
        del sym.dtype_constr['option']
        del sym.dtype['int8']
        sym.dtype.pop('null')
    if not d[1]:
        # nested, as it is
        y = attempt(ds.parser.parse, '{a: %s}' % name, sym)
        if y is not None:
            eq(M.abs_d(y), ('D', (), ('rec', (('a', d),))),
               'a name of one\'s own')
    other = ds.TypeSymbolTable(bare=True)
    check(not (other.dtype or other.dim or other.dtype_constr or
               other.dim_constr), 'a bare table is not empty')
    try:
        ds.parser.parse('int32', other)
    except ds.DataShapeSyntaxError:
        pass
    else:
        raise Violation('a bare table knows int32')
    fresh = ds.TypeSymbolTable()
    eq(M.abs_d(ds.parser.parse('var * 3 * {a: real, b: ?string}', fresh)),
       ('D', (('var',), ('fixed', 3)), ('rec', (
           ('a', ('D', (), ('p', 'float64'))),
           ('b', ('D', (), ('opt', ('D', (), ('str', None, 'U8')))))))),
       'a fresh table')


_count = [0]


def op_typeset(w, _, n):
    import datashape as ds
    import os
    _count[0] += 1
    name = 'set%d_%d' % (os.getpid(), _count[0])
    members = [ds.int8, ds.float32, w.pick(n)[0].measure]
    ts = ds.TypeSet(*members, name=name)
    check(ds.typesets.registry[name] is ts and
          ds.typesets.lookup(name) is ts, 'a registered set is not found')
    again = [ds.int16, ds.uint8, ds.bool_, ds.int64][:n.pick(5)]
    if n.pick(2):
        again = members + again
    try:
        ds.TypeSet(*again, name=name)
    except TypeError:
        pass
    else:
        raise Violation('a name was registered twice')
    check(ds.typesets.registry[name] is ts, 'the second set of a name wins')
    u = ts | ds.integral
    check(ds.uint64 in u and ds.float32 in u and len(ts.types) == 3 and
          ds.float32 not in ds.integral and len(ds.integral.types) == 8,
          'a union')


def op_discover(w, v, n):
    import datashape as ds
    value = V.value(v)
    before = repr(value)
    x = attempt(ds.discover, value)
    eq(repr(value), before, 'the value after discovering it')
    if x is not None:
        d = M.abs_d(x)
        if isinstance(x, ds.DataShape):
            w.add(x, d, 'discovering')
        y = ds.discover(value)
        eq(M.abs_d(y), d, 'discovering again')


OPS = {
    'build': op_build, 'parse': op_parse, 'text': op_text, 'bad': op_bad,
    'combine': op_combine, 'use': op_use, 'given': op_given,
    'taken': op_taken, 'failing': op_failing, 'table': op_table,
    'typeset': op_typeset, 'discover': op_discover,
}


def history(case):
    w = World()
    labels = set()
    n0 = 0
    for name, payload, nums in case:
        if not w.pool and name not in ('build', 'parse', 'text', 'bad',
                                       'discover'):
            continue
        n = M.Noise(nums)
        op = '%s %s' % (name, srepr(payload, 80))
        OPS[name](w, payload, n)
        w.verify(op)
        labels.add(name)
        n0 += 1
    w.globals('this history')
    return sorted(labels) if n0 > 2 else None


def histories():
    d = M.datashapes(M.Cfg(max_fields=3), depth=2)
    none = st.just(None)

    def op(name, payload):
        return st.tuples(st.just(name), payload, M.noises(4))
    ops = M.weighted(
        (3, op('build', d)), (3, op('parse', d)),
        (2, op('text', T.mutated_tokens())), (1, op('bad', none)),
        (4, op('combine', none)), (10, op('use', none)),
        (3, op('given', none)), (3, op('taken', none)),
        (3, op('failing', none)), (2, op('table', none)),
        (1, op('typeset', none)), (2, op('discover', V.values())))
    first = st.one_of(op('build', d), op('parse', d))
    return st.builds(lambda a, rest: (a,) + tuple(rest), first,
                     st.lists(ops, min_size=3, max_size=14))


def few_histories(tier):
    """Every single operation on every kind of datashape, and every two of
    them one after the other on a rich one."""
    steps = [('use', None, (0, 1, k, 20)) for k in range(56)] + \
        [('combine', None, (0, 1, k)) for k in range(7)] + \
        [('taken', None, (0, k)) for k in range(7)] + \
        [('failing', None, (0, k)) for k in range(31)] + \
        [('table', None, (0, k, i)) for k in range(6) for i in range(2)] + \
        [('given', None, (0,))] + \
        [('bad', None, (k,)) for k in range(len(BAD))] + \
        [('typeset', None, (0, k, i)) for k in range(5) for i in range(2)]
    leaves = small.leaves()
    ds = [('D', (), m) for m in leaves] + \
        [f(('D', dims, m)) for f in small.contexts()
         for dims in ((), (('fixed', 2), ('var',)))
         for m in (('p', 'int32'), ('cat', ('a', 'b'), small.STR, True),
                   ('rec', (('a', small.INT), ('b', small.INT))))]
    if tier != 'thorough':
        ds = ds[::4]
    other = ('build', ('D', (('var',),), ('p', 'int8')), ())
    for d in ds:
        if d is not None:
            for s in steps:
                yield (('build', d, ()), other, s)
    rich = ('D', (('fixed', 3), ('var',)), ('rec', (
        ('a', ('D', (), ('opt', ('D', (), ('p', 'int8'))))),
        ('b', ('D', (('fixed', 2),), ('tup', (
            ('D', (), ('fun', (small.INT,), small.INT)),
            ('D', (), ('map', small.INT, small.INT)))))))))
    first = ('build', rich, ())
    steps = [s for s in steps if s[0] not in ('bad', 'typeset')]
    for i, s in enumerate(steps):
        for j, t in enumerate(steps):
            if tier == 'thorough' or (i + j) % 4 == 0:
                yield (first, other, s, t, first)


SUBS = [
    Sub('small', None, history, exhaustive=few_histories),
    Sub('histories', histories, history, quick=5000),
]
