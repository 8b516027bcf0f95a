"""Every small datashape: bounded exhaustive enumeration of ASTs.

Where random generation samples, these lists leave nothing out: every leaf
(with the parameters worth telling apart) in every place which a datashape has
for one, every list of up to three dimensions, and for pairs every two leaves
and every two lists of dimensions in such places.
"""
import itertools

from . import model as M

INT = ('D', (), ('p', 'int32'))
STR = ('str', None, 'U8')

DIMS = (('fixed', 0), ('fixed', 1), ('fixed', 2), ('fixed', 10), ('var',),
        ('tv', 'A'), ('tv', 'N'), ('tv', 'Trueness'), ('ell', None),
        ('ell', 'A'))

# twelve categories: too many to be printed
MANY = tuple('c%d' % i for i in range(12))


def leaves(long=True):
    out = [('p', p) for p in M.PLAIN]
    out += [('bytes',), ('null',), ('date',), ('json',)]
    out += [('str', n, e) for n in (None, 0, 1, 10) for e in M.ENCS]
    for k in ('time', 'datetime'):
        out += [(k, tz) for tz in (None, 'UTC', 'utc', '', 'None', "it's",
                                   'a"b', 'back\\slash', 'a\nb')]
    out += [('td', u) for u in M.UNITS]
    out += [('dec', p, s) for p, s in ((0, 0), (1, 0), (5, 0), (5, 2),
                                       (2, 5), (5, -2), (38, 10))]
    out += [('tv', 'A'), ('tv', 'B'), ('tv', 'Trueness')]
    out += [('units', u, d) for u in ('m', 's', '', "it's") for d in (
        M.F64, INT)]
    out += [('cat', c, m, o) for c, m in (
        (('a',), STR), (('a', 'b'), STR), (('b', 'a'), STR),
        (('a', "it's", 'x"y', 'z\\'), STR), ((2, 3), ('p', 'int64')),
        ((3, 2), ('p', 'int64')), ((2, 3), ('p', 'int32')),
        (('2', '3'), STR), ((-1, 10 ** 20), ('p', 'int64')))
        for o in (False, True)]
    if long:
        out += [('cat', MANY, STR, False), ('cat', MANY, STR, True),
                ('cat', MANY[::-1], STR, False),
                ('cat', MANY[:-1] + ('x',), STR, False)]
    out += [('rec', ()), ('tup', ()), ('fun', (), INT)]
    return out


def some_leaves():
    return [('p', 'int32'), ('p', 'bool'), ('p', 'complex[float64]'),
            ('bytes',), ('str', 10, 'A'), ('datetime', 'UTC'), ('td', 'ms'),
            ('dec', 5, 2), ('tv', 'A'), ('units', 'm', M.F64),
            ('cat', ('a', 'b'), STR, True), ('rec', ()), ('tup', ()),
            ('p', 'object'), ('null',)]


def contexts(cat=True, inner_dims=True):
    """Every place for a datashape: functions from D to D."""
    def wrap(m):
        return ('D', (), m)
    one = [
        lambda d: d,
        lambda d: wrap(('opt', d)),
        lambda d: wrap(('rec', (('a', d),))),
        lambda d: wrap(('rec', (('a', d), ('b', INT)))),
        lambda d: wrap(('rec', (('b', INT), ('a', d)))),
        lambda d: wrap(('rec', (('x y', INT), ('b', d), ("it's", INT)))),
        lambda d: wrap(('tup', (d,))),
        lambda d: wrap(('tup', (d, INT))),
        lambda d: wrap(('tup', (INT, d))),
        lambda d: wrap(('tup', (INT, d, INT))),
        lambda d: wrap(('fun', (d,), INT)),
        lambda d: wrap(('fun', (INT, d), INT)),
        lambda d: wrap(('fun', (), d)),
        lambda d: wrap(('fun', (INT,), d)),
        lambda d: wrap(('map', d, INT)),
        lambda d: wrap(('map', INT, d)),
        lambda d: wrap(('units', 'm', d)),
    ]
    if cat:
        one.append(lambda d: wrap(('cat', ('a', 'b'), d[2], False))
                   if not d[1] else None)
    front = [lambda d: ('D', (('var',),) + d[1], d[2]),
             lambda d: ('D', (('fixed', 3), ('tv', 'N')) + d[1], d[2])]
    return one + (front if inner_dims else [])


def compose(fs, d):
    for f in reversed(fs):
        if d is None:
            return None
        d = f(d)
    return d


def _ok(d):
    return d is not None and all(
        sum(1 for x in y[1] if x[0] == 'ell') <= 1 for y in M.walk(d))


def dim_lists(n=3):
    for k in range(n + 1):
        for dims in itertools.product(DIMS, repeat=k):
            if sum(1 for x in dims if x[0] == 'ell') <= 1:
                yield dims


def datashapes(tier='quick', long=True, keep=None, big=True):
    """Every small datashape, the smallest first, as a list."""
    seen = {}

    def add(d):
        if _ok(d) and (keep is None or keep(d)):
            seen[d] = None
    ctx = contexts()
    ls = leaves(long)
    for m in ls:
        add(('D', (), m))
    for dims in dim_lists(3):
        add(('D', dims, ('p', 'int32')))
    for f in ctx:
        for m in ls:
            add(f(('D', (), m)))
    few = some_leaves()
    for f in ctx:
        for dims in dim_lists(2):
            add(f(('D', dims, ('p', 'int32'))))
    for dims in dim_lists(1):
        for m in few:
            add(('D', dims, m))
    for f, g in itertools.product(ctx, ctx):
        for m in (few if tier == 'quick' else ls):
            add(compose((f, g), ('D', (), m)))
        add(compose((f, g), ('D', (('fixed', 2),), ('p', 'int32'))))
    for fs in itertools.product(ctx, repeat=3):
        for m in few[:1] if tier == 'quick' else few:
            add(compose(fs, ('D', (), m)))
    for three in wides(tier) if big else ():
        for d in three[:2]:
            add(d)
    return list(seen)


def wide(kind, n, at, odd):
    """A datashape of n parts, one of which may be odd."""
    parts = [INT] * n
    if odd is not None:
        parts[at] = ('D', (), odd)
    if kind == 'rec':
        m = ('rec', tuple(('f%d' % i, p) for i, p in enumerate(parts)))
    elif kind == 'named':
        # the name is odd
        m = ('rec', tuple(('g%d' % i if p != INT else 'f%d' % i, INT)
                          for i, p in enumerate(parts)))
    elif kind == 'tup':
        m = ('tup', tuple(parts))
    elif kind == 'fun':
        m = ('fun', tuple(parts[:-1]), parts[-1])
    elif kind == 'dims':
        return ('D', tuple(('fixed', 3) if p == INT else ('var',)
                           for p in parts), ('p', 'int32'))
    else:
        d = ('D', (), odd or ('p', 'int32'))
        for i in range(n):
            d = ('D', (), {
                'recs': lambda: ('rec', (('a', d),)),
                'tups': lambda: ('tup', (INT, d)),
                'funs': lambda: ('fun', (d,), INT),
                'opts': lambda: ('rec', (('a', ('D', (), ('opt', d))),)),
                'dimmed': lambda: ('tup', (('D', (('var',),) + d[1], d[2]),)),
            }[kind]())
        return d
    return ('D', (), m)


WIDE = ('rec', 'named', 'tup', 'fun', 'dims')
DEEP = ('recs', 'tups', 'funs', 'opts', 'dimmed')


def wides(tier='quick'):
    """Triples: a datashape, one odd in one place, one odd in another."""
    out = []
    for n in (9, 11, 17, 33, 65, 129) if tier == 'quick' else (
            9, 10, 11, 12, 16, 17, 21, 33, 51, 65, 101, 129, 257):
        for kind in WIDE:
            for i, at in enumerate(sorted(set((0, n // 2, n - 2, n - 1)))):
                odd = (('p', 'bool'), ('null',), ('rec', ()),
                       ('p', 'int64'))[i]
                out.append((wide(kind, n, 0, None), wide(kind, n, at, odd),
                            wide(kind, n, (at + 5) % n, odd)))
    for n in (6, 9, 12) if tier == 'quick' else (5, 6, 7, 8, 9, 12, 17):
        for kind in DEEP:
            out.append((wide(kind, n, 0, None),
                        wide(kind, n, 0, ('p', 'int64')),
                        wide(kind, n, 0, ('dec', 5, 2))))
    for x in ('x' * 70, 'a b ' * 20, 'y' * 300):
        out.append(tuple(('D', (), ('rec', ((a, INT), (b, INT))))
                         for a, b in ((x, 'a'), (x[:-1], 'a'),
                                      ('a', x + 'z'))))
    for x, y in ((10 ** 6, 10 ** 6 + 1), (2 ** 31, 2 ** 31 + 1),
                 (2 ** 63, 2 ** 63 - 1), (10 ** 20, 10 ** 20 + 1)):
        out.append((('D', (('fixed', x),), ('p', 'int32')),
                    ('D', (('fixed', y),), ('p', 'int32')),
                    ('D', (('fixed', x), ('fixed', y)), ('p', 'int32'))))
        if x < 2 ** 63:
            out.append((('D', (), ('str', x, 'A')), ('D', (), ('str', y, 'A')),
                        ('D', (), ('dec', x, 2))))
    return out


def pairs(tier='quick', long=True, keep=None, big=True):
    """Pairs of small datashapes that differ in one place, or in none."""
    seen = {}

    def add(a, b):
        if _ok(a) and _ok(b) and (keep is None or keep(a) and keep(b)):
            seen[a, b] = None
    ls = leaves(long)
    ctx = contexts()
    quick = tier == 'quick'
    for a, b in itertools.product(ls, ls):
        add(('D', (), a), ('D', (), b))
    dls = list(dim_lists(2))
    for p, q in itertools.product(dls, dls):
        add(('D', p, ('p', 'int32')), ('D', q, ('p', 'int32')))
    for f in ctx[1:]:
        for a, b in itertools.product(ls, ls):
            if a[0] == b[0] and a[0] != 'p' or not quick:
                add(f(('D', (), a)), f(('D', (), b)))
        for p, q in itertools.product(dls, dls):
            if not quick or len(p) + len(q) < 3:
                add(f(('D', p, ('p', 'int32'))), f(('D', q, ('p', 'int32'))))
    few = some_leaves()
    two = [('p', 'int32'), ('p', 'int64'), ('str', None, 'A'), ('dec', 5, 2)]
    for f, g in itertools.product(ctx, ctx):
        # another kind around the same
        for m in (two[:1] if quick else few):
            add(f(('D', (), m)), g(('D', (), m)))
    for fs in itertools.product(ctx, ctx):
        for a, b in itertools.product(two, two):
            add(compose(fs, ('D', (), a)), compose(fs, ('D', (), b)))
        d = ('D', (('fixed', 2),), two[0])
        for e in (('D', (('fixed', 1),), two[0]), ('D', (), two[0]),
                  ('D', (('var',),), two[0])):
            add(compose(fs, d), compose(fs, e))
    for a, b, c in wides(tier) if big else ():
        add(a, b)
        add(b, a)
        add(b, c)
        add(a, a)
    return list(seen)


# --------------------------------------------------------------------------
# values to discover, as described in dsverif.values

SCALARS = (('n',), ('b', True), ('i', 1), ('f', '1.5'), ('s', 'abc'),
           ('s', '7'), ('s', ''), ('d', 2014, 1, 2),
           ('dt', 2014, 1, 2, 3, 4, 5, 0), ('td', 5000000), ('by', b'xyz'),
           ('c', '1+2j'), ('np', 'i4', 3), ('t', 12, 30, 0, 0),
           ('s', '2014-01-01'), ('s', 'True'), ('s', '1 day'), ('s', 'nan'))


def values(tier='quick'):
    """Every small value, the smallest first, as a list."""
    seen = {}

    def add(v):
        seen[v] = None
    thorough = tier != 'quick'
    sc = SCALARS
    few = SCALARS[:8]
    least = (('n',), ('i', 1), ('f', '1.5'), ('s', 'abc'))
    for v in sc:
        add(v)
    small = [('L', ()), ('T', ()), ('D', ()), ('OD', ())]
    for v in small:
        add(v)
    for k in (1, 2, 3):
        for xs in itertools.product(sc if k < 3 or thorough else few,
                                    repeat=k):
            add(('L', xs))
    for xs in itertools.product(few, repeat=2):
        add(('T', xs))
        add(('D', tuple(zip('ab', xs))))
        add(('OD', tuple(zip('ba', xs))))
        add(('MP', tuple(zip('ab', xs))))
    # two rows of two columns, three rows of one, and so on
    for xs in itertools.product(sc if thorough else few, repeat=4):
        add(('L', (('L', xs[:2]), ('L', xs[2:]))))
    for xs in itertools.product(sc, repeat=3):
        add(('L', tuple(('L', (x,)) for x in xs)))
    for xs in itertools.product(few, repeat=3):
        add(('L', tuple(('D', (('a', x),)) for x in xs)))
    cells = few[:6] + (None,)
    for xs in itertools.product(cells, repeat=4):
        rows = []
        for pair in (xs[:2], xs[2:]):
            rows.append(('D', tuple((k, x) for k, x in zip('ab', pair)
                                    if x is not None)))
        add(('L', tuple(rows)))
        if None not in xs[:3]:
            rows[1] = ('D', rows[1][1][::-1])
            add(('L', tuple(rows)))
            add(('L', (('OD', rows[0][1]), ('OD', rows[1][1]))))
    # containers in containers
    pool = list(least) + small[:3]
    for k in (1, 2):
        for xs in itertools.product(least, repeat=k):
            pool.append(('L', xs))
            pool.append(('D', tuple(zip('ab', xs))))
    pool += [('T', (('i', 1),)), ('T', (('i', 1), ('i', 1))),
             ('OD', (('b', ('i', 1)), ('a', ('i', 1)))),
             ('MP', (('a', ('i', 1)),)), ('S', (('i', 1),)),
             ('L', (('i', 1),) * 3), ('L', (('L', (('i', 1),)),)),
             ('L', (('L', ()),)), ('L', (('L', (('i', 1),)),) * 2),
             ('L', (('D', (('a', ('i', 1)),)),)),
             ('D', (('a', ('L', (('i', 1),))),)),
             ('D', (('a', ('D', (('a', ('i', 1)),))),))]
    for x in pool:
        add(x)
        for y in pool:
            add(('L', (x, y)))
            add(('L', (('L', (x,)), ('L', (y,)))))
            add(('L', (('D', (('a', x),)), ('D', (('a', y),)))))
            add(('L', (('L', (x, ('i', 1))), ('L', (y, ('n',))))))
            add(('D', (('a', x), ('b', y))))
            if thorough:
                for z in pool:
                    add(('L', (x, y, z)))
                    add(('L', (('L', (x,)), ('L', (y,)), ('L', (z,)))))
                    add(('L', (('L', (x, z)), ('L', (y, z)))))
                    add(('L', tuple(('D', (('a', w),)) for w in (x, y, z))))
    return list(seen)
