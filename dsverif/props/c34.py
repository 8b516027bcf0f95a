"""C34: types which a user derives behave as the built-in ones do."""
import copy
import pickle

from hypothesis import strategies as st

from .. import model as M
from .. import small
from ..core import Sub, Violation, check, eq, srepr

ID = 'C34'
RULE = ('types derived from the base classes - with and without slots, made '
        'of numbers, texts and other types, as measures and as dimensions - '
        'put at a random place of a random datashape: equality, hash, info, '
        'rebuilding from parameters, copies, pickles, the printed text, '
        'subarrays, search, the comparing assertion, the refusal by NumPy, and parsing '
        'through a symbol table that knows their constructors; and a class '
        'derived from each built-in one, which adds nothing, in its place '
        'everywhere: predicates, searches and validation say the same. '
        'Non-trivial: every case.')
ASSUMPTIONS = ('promotion and discovery of derived types, and how NumPy takes '
               'options of them, are not spoken about', 'a derived type prints itself')

HOLE = 'QQQQQ'


def make(u):
    """The object of a user type: (class name, arguments)."""
    from .. import usertypes as U
    name, args = u
    if name == 'Sparse':
        return U.Sparse(M.build(args[0]), args[1])
    if name == 'other.Mark':
        return U.other.Mark()
    if name == 'Label':
        return U.Label(*args) if args[0] is not None else U.Label(args[1])
    return getattr(U, name)(*args)


def text(u, style=0):
    name, args = u
    if not args:
        return name.lower().replace('.', '_')
    if name == 'Label':
        if args[0] is None:
            return 'label[%s]' % M.quote(args[1])
        return 'label[%d, %s]' % (args[0], M.quote(args[1]))
    if name in ('Money', 'Cash', 'Coin'):
        if style == 1:
            return '%s[%s, digits=%d]' % ((name.lower(), M.quote(args[0])) +
                                          args[1:])
        if style == 2 and args[1] == 2:
            return '%s[%s]' % (name.lower(), M.quote(args[0]))
        return '%s[%s, %d]' % ((name.lower(), M.quote(args[0])) + args[1:])
    if name == 'Sparse':
        t = M.plain_text(args[0])
        if style == 1:
            return 'sparse[%s, fill=%d]' % (t, args[1])
        if style == 2 and args[1] == 0:
            return 'sparse[%s]' % t
        return 'sparse[%s, %d]' % (t, args[1])
    if name == 'Loose':
        return 'loose[%s]' % ', '.join(
            M.quote(a) if isinstance(a, str) else str(a) for a in args)
    raise AssertionError(u)


def build(d, hole):
    """The object of a model, with HOLE replaced."""
    import datashape as ds
    from datashape import coretypes as ct
    m = d[2]
    k = m[0]

    def go(x):
        return build(x, hole)
    if m == ('tv', HOLE):
        o = hole
    elif k == 'rec':
        o = ds.Record([(n, go(x)) for n, x in m[1]])
    elif k == 'tup':
        o = ds.Tuple([go(x) for x in m[1]])
    elif k == 'fun':
        o = ct.Function(*[go(x) for x in m[1] + (m[2],)])
    elif k == 'map':
        o = ds.Map(go(m[1]), go(m[2]))
    elif k == 'opt':
        o = ds.Option(go(m[1]))
    else:
        o = M.build_m(m)
    return ds.DataShape(*[M.build_dim(x) for x in d[1]] + [o])


def table():
    import datashape as ds
    from .. import usertypes as U
    sym = ds.TypeSymbolTable()
    sym.dtype_constr.update(money=U.Money, cash=U.Cash, sparse=U.Sparse,
                            loose=U.Loose, coin=U.Coin, label=U.Label)
    sym.dtype.update(uuid=U.Uuid(), guid=U.Guid(), guid4=U.Guid4(),
                     uuid5=U.Uuid5(), mark=U.Mark(),
                     other_mark=U.other.Mark())
    return sym


def alike(x, y, what):
    check(x == y and y == x and not x != y and not y != x,
          '%s: %s is not %s', what, srepr(x), srepr(y))
    eq(hash(x), hash(y), what + ': hash')
    check(x in {y: 1}, '%s: not found in a dict', what)
    eq(str(x), str(y), what + ': text')
    eq(repr(x), repr(y), what + ': repr')


def copies(x):
    yield 'copy', copy.copy(x)
    yield 'deepcopy', copy.deepcopy(x)
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        yield 'pickle %d' % p, pickle.loads(pickle.dumps(x, p))
    yield 'rebuilt', type(x)(*x.parameters)


def measure(case):
    import datashape as ds
    from datashape import coretypes as ct
    from datashape.parser import parse
    from datashape.util import collect, has
    from datashape.util.testing import assert_dshape_equal
    from .. import usertypes as U
    d, u, v, style, first = case
    x, y, z = make(u), make(u), make(v)
    cls = type(x)
    same = u == v
    alike(x, y, 'the type alone')
    check((x == z) == same and (x != z) == (not same) and
          (z == x) == same, '%s and %s', srepr(u), srepr(v))
    check(x.measure is x and x.shape == () and x.subarray(0) is x, 'measure')
    eq(x.info(), (cls, x.parameters), 'info')
    if u[0] not in ('Sparse', 'Label'):
        eq(x.parameters, u[1], 'parameters')
    if not u[0].endswith('Mark'):
        check(ct.Type.lookup_type(u[0]) is cls, 'registered class')
    if first:
        hash(x)
    for what, c in copies(x):
        check(type(c) is cls, '%s is a %s', what, type(c).__name__)
        alike(c, y, what)
    if not u[1] and not u[0].startswith('other'):
        eq(str(x), u[0].lower(), 'text')
    if not isinstance(x, ds.String):        # (a kind of String may convert)
        try:
            r = ds.to_numpy(ds.DataShape(x))
        except TypeError:
            pass
        else:
            raise Violation('to_numpy gives %s' % srepr(r))
    # within a datashape
    X, Y, Z = build(d, x), build(d, y), build(d, z)
    frame = M.build(d)
    if first:
        hash(X)
    alike(X, Y, 'in a datashape')
    check((X == Z) == same and (X != Z) == (not same) and (Z == X) == same,
          'in a datashape: %s and %s', srepr(u), srepr(v))
    check(X != frame and frame != X, 'is a type variable')
    for what, c in copies(X):
        alike(c, Y, what)
    for f in (str, ds.pprint, lambda t: ds.pprint(t, 10)):
        # (where the lines break is C25)
        eq(''.join(f(X).split()),
           ''.join(f(frame).replace(HOLE, str(x)).split()), 'text')
    eq(tuple(map(repr, X.shape)), tuple(map(repr, frame.shape)), 'shape')
    got = list(collect(lambda t: isinstance(t, cls), X))
    n = sum(1 for q in M.walk(d) if q[2] == ('tv', HOLE))
    check(len(got) == n and all(g is x for g in got), 'collected %s',
          srepr(got))
    check(has(cls, X) and not has(cls, frame), 'has()')
    assert_dshape_equal(X, Y)
    if not same:
        try:
            assert_dshape_equal(X, Z)
        except AssertionError:
            pass
        else:
            raise Violation('assert_dshape_equal(%s, %s)' % (
                srepr(X), srepr(Z)))
    check(ds.dshape(X) is X, 'dshape()')
    if isinstance(x, ct.Unit):
        D = ds.dshape(x)
        check(type(D) is ds.DataShape and D.measure is x and
              D.shape == (), 'dshape(measure)')
    if d[1]:
        alike(M.build_dim(d[1][0]) * X.subarray(1), X, 'multiplied')
        check(ds.iscollection(X) if d[1][0][0] != 'tv' else True,
              'no collection')
    # as text
    t = M.plain_text(d).replace(HOLE, text(u, style))
    P = parse(t, table())
    alike(P, X, 'parsed %s' % srepr(t))
    eq(M.abs_d(frame), d, 'the frame')
    return [u[0], 'same' if same else 'different %s' % (u[0] == v[0])]


def dimension(case):
    import datashape as ds
    from .. import usertypes as U
    d, a, b, at = case
    dims = [M.build_dim(x) for x in d[1]]
    i = at % (len(dims) + 1)
    m = M.build_m(d[2])

    def new(rate):
        return ds.DataShape(*dims[:i] + [U.Stream(rate)] + dims[i:] + [m])
    x, y, z = new(a), new(a), new(b)
    alike(x, y, 'made twice')
    check((x == z) == (a == b), 'stream[%d] and stream[%d]', a, b)
    for what, c in copies(x):
        alike(c, y, what)
    eq(len(x.shape), len(dims) + 1, 'dimensions')
    alike(x.subarray(i + 1), ds.DataShape(*dims[i:] + [m]), 'subarray')
    w = m
    for dim in reversed(dims[:i] + [U.Stream(a)] + dims[i:]):
        w = dim * w
    alike(w, x, 'multiplied')
    base = [str(q) for q in dims] + [str(m)]
    base.insert(i, 'stream[%d]' % a)
    eq(str(x), ' * '.join(base), 'text')
    for bad in (lambda: ds.DataShape(*dims + [U.Stream(a)]),
                lambda: ds.Record([('a', U.Stream(a))]),
                lambda: ds.Option(U.Stream(a)),
                lambda: ds.DataShape(U.Uuid(), m),
                lambda: ds.Tuple([m, U.Stream(a)])):
        try:
            got = bad()
        except TypeError:
            continue
        raise Violation('ill-formed, but gives %s' % srepr(got))
    return ['at %d' % i, 'same' if a == b else 'different']


KINDS = (('Table', 'Record', ((('a', 'int32'), ('b', 'int32')),)),
         ('Table', 'Record', ((('a', 'int32'), ('b', 'var * ?string')),)),
         ('Table', 'Record', ((),)),
         ('Table', 'Record', ((('a', '{b: 3 * var * bool}'),),)),
         ('Pair', 'Tuple', (('int32', '3 * int32'),)), ('Pair', 'Tuple', ((),)),
         ('Pair', 'Tuple', (('bool', '(var * date)'),)),
         ('Maybe', 'Option', ('float32',)), ('Maybe', 'Option', ('bool',)),
         ('Maybe', 'Option', ('datetime',)), ('Maybe', 'Option', ('string',)),
         ('Maybe', 'Option', ('{a: int32, b: var * bool}',)),
         ('Maybe', 'Option', ('decimal[20]',)),
         ('Day', 'Date', ()), ('Stamp', 'DateTime', ()),
         ('Stamp', 'DateTime', ('UTC',)), ('Clock', 'Time', ()),
         ('Number', 'Decimal', (19, 0)), ('Number', 'Decimal', (5, 2)),
         ('Span', 'TimeDelta', ('ms',)), ('Label', 'String', (5, 'A')),
         ('Label', 'String', ()), ('Proto', 'Function', ('int32', 'bool')),
         ('Mapping', 'Map', ('int32', 'bool')),
         ('Choice', 'Categorical', (('a', 'b'),)))
DIMKINDS = (('Size', 'Fixed', (3,)), ('Many', 'Var', ()),
            ('Wild', 'Ellipsis', ()))


def derived(case):
    """A kind of a built-in type is one of them to whoever asks."""
    import datashape as ds
    from datashape import coretypes as ct, predicates as P
    from datashape.util import collect, has
    from .. import usertypes as U
    d, k, dim = case
    kinds = (DIMKINDS if dim else KINDS)[k]
    cls = getattr(U, kinds[0]), getattr(ct, kinds[1])
    objs = []
    for c in cls:
        args = kinds[2]
        if kinds[0] == 'Pair':
            args = list(map(ds.dshape, args[0])),
        elif kinds[0] == 'Proto':
            args = map(ds.dshape, args)
        o = c(*args)
        if dim:
            o = ds.DataShape(o, ct.int32 if dim == 1 else ct.Record(
                [('a', ct.int32)]))
        objs.append(build(d, o))
    values = (1, 'abc', None, [1], (1, 2), [[1, 2], [1, 2]], {'a': 1},
              {'a': 1, 'b': []}, (1, [1, 2, 3]), 2.5, [{'a': 1}], ())
    questions = [
        (name, getattr(P, name)) for name in (
            'isscalar', 'isrecord', 'isdimension', 'ishomogeneous', 'isfixed',
            'istabular', 'iscollection', 'isnumeric', 'isreal', 'isboolean',
            'isdatelike')]
    questions += [
        ('has_var_dim', ds.has_var_dim), ('has_ellipsis', ds.has_ellipsis),
        ('has', lambda x: [has(t, x) for t in ALLKINDS()]),
        ('collect', lambda x: [len(list(collect(
            lambda y: isinstance(y, t), x))) for t in ALLKINDS()]),
        ('dimensions of a part', lambda x: [len(x.subshape[i].shape) for i in (
            0, slice(0, 2), [0], (0, 0))]),
        ('dshape', lambda x: (ds.dshape(x) == x, len(ds.dshape(x)))),
        ('validate', lambda x: [bool(ds.validate(x, v)) for v in values])]
    if kinds[0] != 'Maybe' and not any(q[2][0] == 'opt' for q in M.walk(d)):
        # (options look for the very class)
        questions += [('to_numpy', ds.to_numpy),
                      ('maxtype', lambda x: len(ds.maxtype(x)))]
    for what, f in questions:
        for how in ((lambda x: x), (lambda x: x.measure)):
            res = []
            for x in objs:
                try:
                    res.append(f(how(x)))
                except Exception as e:
                    res.append(type(e).__name__)
            eq(res[0], res[1], '%s of a %s instead of a %s in %s' % (
                what, kinds[0], kinds[1], srepr(objs[1])))
    return ['kind:' + kinds[0]]


def ALLKINDS():
    from datashape import coretypes as ct
    return [getattr(ct, k[1]) for k in KINDS + DIMKINDS] + [ct.Unit, ct.CType]


def few_derived(tier):
    hole = ('D', (), ('tv', HOLE))
    frames = [f(hole) for f in small.contexts(cat=False)
              if f(hole)[2][0] != 'units']
    two = [g(f) for g in small.contexts(cat=False) for f in frames
           if g(f)[2][0] != 'units']
    for i, d in enumerate(frames + two):
        for k in range(len(KINDS)):
            if i < len(frames) or tier == 'thorough' or (i + k) % 4 == 0:
                yield d, k, 0
        for k in range(len(DIMKINDS)):
            yield d, k, 1
            yield d, k, 2


ASCII = st.text('abE U\'"-_1', max_size=6)
NUM = st.integers(0, 9)


def user():
    money = st.tuples(st.sampled_from(('EUR', 'USD', '', 'E U', "it's")) | ASCII, NUM)
    sparse = st.tuples(M.datashapes(M.Cfg(without=('tv',)), depth=2), NUM)
    return M.weighted(
        (4, st.tuples(st.sampled_from(('Money', 'Cash', 'Coin')), money)),
        (2, st.tuples(st.just('Label'), st.tuples(
            st.none() | st.integers(1, 9), st.sampled_from(M.ENCS)))),
        (2, st.tuples(st.sampled_from(('Uuid', 'Guid', 'Mark', 'other.Mark', 'Guid4', 'Uuid5')),
                      st.just(()))),
        (3, st.tuples(st.just('Sparse'), sparse)),
        (3, st.tuples(st.just('Loose'), st.lists(
            NUM | ASCII, min_size=1, max_size=4).map(tuple))))


KIN = (('Uuid', 'Guid', 'Guid4', 'Uuid5'), ('Mark', 'other.Mark'), ('Money', 'Cash', 'Coin'))


def near(u, v, k, n):
    """v, or something close to u."""
    name, args = u
    if k == 0:
        return v
    if k == 1 or not args:
        kin = [k for k in KIN if name in k]
        return (kin[0][n % len(kin[0])] if kin else name, args)
    if name == 'Loose':
        a = list(args)
        i = n % len(a)
        if n % 3 == 0:
            a.append(a[i])
        elif n % 3 == 1:
            a.reverse()
        else:
            a[i] = 'other' if isinstance(a[i], int) else 7
        return (name, tuple(a))
    if name == 'Label':
        return (name, (args[0], M.ENCS[n % 4])) if n % 2 else (
            name, (n + 1, args[1]))
    return (name, (args[0], (args[1] + n % 3) % 10))


def with_hole(d, path):
    ps = [p for p in M._paths(d) if not any(
        M.at(d, p[:i])[2][0] in ('units', 'cat') for i in range(len(p) + 1))]
    if not ps:
        return ('D', d[1], ('tv', HOLE))
    p = ps[path % len(ps)]
    x = M.at(d, p)
    return M.replace(d, p, ('D', x[1], ('tv', HOLE)))


def cases():
    cfg = M.Cfg(without=('tv',), long=True)

    def go(d, path, u, v, k, n, style, first):
        return (with_hole(d, path), u, near(u, v, k, n), style, first)
    return st.builds(go, M.datashapes(cfg, depth=3), st.integers(0, 30),
                     user(), user(), st.integers(0, 3), st.integers(0, 5),
                     st.integers(0, 2), st.booleans())


USERS = (('Money', ('EUR', 2)), ('Money', ('EUR', 3)), ('Money', ('', 2)),
         ('Cash', ('EUR', 2)), ('Coin', ('EUR', 2)), ('Label', (None, 'U8')),
         ('Label', (3, 'A')), ('Label', (3, 'U8')), ('Uuid', ()),
         ('Guid', ()), ('Guid4', ()), ('Uuid5', ()), ('Mark', ()), ('other.Mark', ()),
         ('Sparse', (('D', (), ('p', 'int32')), 0)),
         ('Sparse', (('D', (('var',),), ('p', 'int32')), 0)),
         ('Sparse', (('D', (), ('rec', (('a', small.INT),))), 3)),
         ('Loose', (1,)), ('Loose', ('a', 1)), ('Loose', (1, 'a')),
         ('Loose', (1, 1)), ('Loose', ('a', 'a', 1)))


def few_measures(tier):
    """Every two of a few types, everywhere in a datashape."""
    hole = ('D', (), ('tv', HOLE))
    frames = [f(hole) for f in small.contexts(cat=False)
              if f(hole)[2][0] != 'units']
    two = [g(f) for g in small.contexts(cat=False) for f in frames
           if g(f)[2][0] != 'units']
    for i, d in enumerate(frames + two):
        for j, u in enumerate(USERS):
            for k, v in enumerate(USERS):
                if d[2] != hole[2] and tier != 'thorough' and \
                        (i + j + k) % (5 if i < len(frames) else 40):
                    continue
                yield d, u, v, (i + j) % 3, bool(k % 2)


def few_dimensions(tier):
    for dims in small.dim_lists(2):
        for m in (('p', 'int32'), ('rec', (('a', small.INT),)),
                  ('opt', small.INT)):
            for at in range(len(dims) + 1):
                for a, b in ((0, 0), (1, 2), (3, 0), (5, 5)):
                    yield ('D', dims, m), a, b, at


SUBS = [
    Sub('small_measure', None, measure, exhaustive=few_measures),
    Sub('small_dimension', None, dimension, exhaustive=few_dimensions),
    Sub('derived', None, derived, exhaustive=few_derived),
    Sub('measure', cases, measure, quick=4000),
    Sub('dimension', lambda: st.tuples(
        M.datashapes(M.Cfg(), depth=2), NUM, NUM, st.integers(0, 4)),
        dimension, quick=2000),
]
