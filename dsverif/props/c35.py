"""C35: uniting datashapes gives the narrowest that takes them all."""
import itertools

from hypothesis import strategies as st

from .. import model as M
from .. import values as V
from ..core import Sub, Unspec, Violation, check, eq, srepr

ID = 'C35'
RULE = ('random lists of one to six datashapes - scalars, nulls, records of '
        'such with some fields in common, things with dimensions - are united '
        'by the functions discovery is made of, and the result compared with '
        'an independent model of the order of types and of the rules for '
        'nulls, records and dimensions; then in another order, each twice, '
        'with one more null, and as measures instead of datashapes. '
        'Non-trivial: two different datashapes.')
ASSUMPTIONS = ('what the records to unite hold in one field can be united',)

NULLD = ('D', (), V.NULL)
UNITS = V.UNITKINDS + ('tv',)


def base(ds):
    """The datashape that takes all of these, or None."""
    good = [d for d in ds if d != NULLD]
    if not good:
        return NULLD
    if all(not d[1] and d[2][0] in UNITS for d in good):
        try:
            out = ('D', (), V.common_scalar([d[2] for d in good]))
        except V.Fallback:
            return None
    elif all(not d[1] and d[2][0] == 'rec' for d in good):
        rows = [dict(d[2][1]) for d in good]
        names = [n for n, _ in good[0][2][1]]
        if any([n for n, _ in d[2][1]] != names for d in good):
            names = sorted(set(n for r in rows for n in r))
        fields = []
        for n in names:
            f = base([r.get(n, NULLD) for r in rows])
            if f is None:
                raise Unspec()
            fields.append((n, f))
        out = ('D', (), ('rec', tuple(fields)))
    else:
        return None
    return ('D', (), ('opt', out)) if len(good) < len(ds) else out


def dims(ds):
    return all(d[1] and d[1][0][0] in ('fixed', 'var', 'ell') for d in ds)


def merged(ds, unite):
    """Of things with a first dimension."""
    if not dims(ds):
        return None
    rest = unite([('D', d[1][1:], d[2]) for d in ds])
    if rest is None:
        return None
    first = set(d[1][0] for d in ds)
    dim = first.pop() if len(first) == 1 else ('var',)
    return V.times(1, ('D', (dim,) + rest[1], rest[2]))


def same(ds):
    return ds[0] if len(set(ds)) == 1 else None


def result(x):
    return None if x is None else M.abs_d(x)


def unite(case):
    from datashape import discovery as D
    import datashape
    ds, order = case

    def obj(d, bare=False):
        x = M.build(d)
        return x.measure if bare and not d[1] else x
    n = len(ds)
    want = base(ds)
    labels = []
    for what, l in (('', ds),
                    ('reordered ', [ds[i] for i in reordered(n, order)]),
                    ('twice ', ds + ds)):
        objs = [obj(d) for d in l]
        before = [M.abs_d(x) for x in objs]
        w = want
        if what == 'reordered ':
            w = base(l)
            if n < 2 or not any(d[2][0] == 'rec' for d in ds):
                eq(w, want, 'the model')
        got = D.unite_base(objs)
        eq(result(got), w and V.times(len(l), w),
           '%sunite_base(%s)' % (what, srepr(l)))
        eq([M.abs_d(x) for x in objs], before, 'the arguments')
        w = same(l)
        eq(result(D.unite_identical(objs)), w and V.times(len(l), w),
           '%sunite_identical(%s)' % (what, srepr(l)))
        for f, g in ((D.unite_identical, same), (D.unite_base, base)):
            try:
                w = merged(l, g)
            except Unspec:
                continue
            if g is base and w and len(w[1]) < 2:
                continue
            got = D.unite_merge_dimensions(objs, f)
            eq(result(got), w and V.times(len(l), ('D', w[1][1:], w[2])),
               '%sunite_merge_dimensions(%s, %s)' % (what, srepr(l),
                                                     f.__name__))
        eq(result(D.unite_merge_dimensions(objs)),
           result(D.unite_merge_dimensions(objs, D.unite_identical)),
           'unite_merge_dimensions')
    # measures in the place of datashapes
    some = [obj(d, i % 2 == order % 2) for i, d in enumerate(ds)]
    eq(result(D.unite_base(some)), want and V.times(n, want),
       'unite_base of measures %s' % srepr(ds))
    # one more null
    w = base(ds + (NULLD,))
    if want is not None:
        eq(w, want if want == NULLD or NULLD in ds else
           ('D', (), ('opt', want)), 'the model')
    got = D.unite_base([obj(d) for d in ds] + [datashape.null])
    eq(result(got), w and V.times(n + 1, w),
       'unite_base(%s + null)' % srepr(ds))
    for d in ds:
        eq(D.isnull(obj(d)), d == NULLD, 'isnull(%s)' % srepr(d))
        if not d[1]:
            eq(D.isnull(obj(d, True)), d == NULLD, 'isnull(%s)' % srepr(d))
    # in one go, whatever applies first
    f = D.do_one([D.unite_identical, D.unite_base, D.unite_merge_dimensions])
    first = (same(ds), want, V.merged(ds))
    w = [d for d in first if d is not None]
    objs = [obj(d) for d in ds]
    got = f(objs)
    if w:
        eq(result(got), V.times(n, w[0]), 'the first union that applies')
    else:
        check(got is objs, 'without a union the list comes back, not %s',
              srepr(got))
    if all(not d[1] and d[2] in KNOWN for d in ds):
        units = [d[2] for d in ds]
        try:
            w = V.common_scalar(units)
        except V.Fallback:
            w = None
        try:
            got = D.lowest_common_dshape([M.build_m(m) for m in units])
        except ValueError:
            got = None
        eq(got and M.abs_m(got), w, 'lowest_common_dshape(%s)' % srepr(units))
        labels.append('scalars')
    if len(set(ds)) < 2:
        return None
    labels.append('united' if want else 'merged' if first[2] else 'apart')
    labels.append('n:%d' % n)
    return labels


def reordered(n, order):
    out, left = [], list(range(n))
    while left:
        out.append(left.pop(order % len(left)))
        order //= 3
    return out


KNOWN = tuple(V.WIDER) + (V.NULL,)
KNOWN = (('p', 'int32'), V.I64, V.F64, V.STRING, V.DATE, V.DATETIME, V.TDUS,
         V.BOOL)
ODD = (('p', 'int8'), ('p', 'uint64'), ('p', 'float32'), ('time', None),
       ('td', 'ns'), ('datetime', 'UTC'), ('str', 5, 'U8'), ('bytes',),
       ('dec', 5, 2), ('str', None, 'A'), ('p', 'void'), ('p', 'object'))


def scalars(draw):
    pool = draw(st.sampled_from((
        KNOWN, KNOWN, (('p', 'int32'), V.I64, V.F64), (V.DATE, V.DATETIME),
        (V.BOOL, V.I64, V.STRING), (V.DATE, V.DATETIME, V.STRING),
        KNOWN[:4] + ODD[:2], KNOWN + ODD, (V.TDUS, ODD[4]))))
    nulls = draw(st.sampled_from((0, 1, 1, 3)))
    return st.sampled_from(pool + (V.NULL,) * nulls)


@st.composite
def lists(draw):
    n = draw(st.sampled_from((1, 2, 2, 3, 3, 4, 5, 6)))
    how = draw(st.integers(0, 9))
    if how < 3:
        s = scalars(draw)
        out = [('D', (), draw(s)) for _ in range(n)]
    elif how < 6:
        out = records(draw, n, draw(st.integers(1, 2)))
    elif how < 9:
        s = scalars(draw)
        k = draw(st.integers(1, 3))
        one = draw(s)
        pool = [('fixed', draw(_small)), ('fixed', draw(_small)), ('var',),
                ('ell', None), ('fixed', 2), ('tv', 'A')]
        first = draw(st.sampled_from((pool[:2], pool[:3], pool[:3], pool)))
        rest = tuple(draw(st.sampled_from(pool)) for _ in range(k - 1))
        churn = draw(st.sampled_from((0, 0, 3, 6)))
        out = []
        for _ in range(n):
            far = churn and not draw(st.integers(0, churn))
            m = draw(s) if far else one
            far = churn and not draw(st.integers(0, churn + 2))
            r = rest[1:] if far else rest
            out.append(('D', (draw(st.sampled_from(first)),) + r, m))
    else:
        out = []
        while len(out) < n:
            out.extend(draw(M.pairs(depth=2)))
        out = out[:n]
    if how > 2 and not draw(st.integers(0, 5)):
        out[draw(st.integers(0, n - 1))] = NULLD
    if not draw(st.integers(0, 20)):
        out[draw(st.integers(0, n - 1))] = ('D', (), draw(scalars(draw)))
    return tuple(out)


_small = st.sampled_from((2, 3, 1, 0, 10, 2**31))


def records(draw, n, depth):
    """Records with much the same fields."""
    names = draw(st.lists(st.sampled_from(V.KEYS + ('\xe9',)), min_size=1,
                          max_size=4, unique=True))
    cells = {}
    for name in names:
        if depth > 1 and not draw(st.integers(0, 3)):
            cells[name] = records(draw, n, depth - 1)
        else:
            s = scalars(draw)
            cells[name] = [('D', (), draw(s)) for _ in range(n)]
    out = []
    for i in range(n):
        ns = list(names)
        r = draw(st.integers(0, 7))
        if r == 0:
            ns.reverse()
        elif r == 1:
            ns = ns[1:]
        elif r == 2:
            ns = ns[:-1]
        out.append(('D', (), ('rec', tuple((k, cells[k][i]) for k in ns))))
        if not draw(st.integers(0, 9)):
            out[-1] = NULLD
    return out


def every_list(tier):
    some = [('D', (), m) for m in KNOWN + ODD[:7] + (V.NULL,)]
    few = [('D', (), m) for m in KNOWN + (V.NULL,)]
    for k in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for i, ds in enumerate(itertools.product(
                some if k < 3 else few, repeat=k)):
            yield ds, i % 24
    for k in (2,) if tier == 'quick' else (2, 3):
        cells = few[:6] + [NULLD, None]
        recs = [NULLD, ('D', (), ('rec', ()))]
        for x in cells:
            for y in cells[::1 if k == 2 else 2]:
                names = [(n, c) for n, c in (('a', x), ('b', y))
                         if c is not None]
                recs.append(('D', (), ('rec', tuple(names))))
        recs.append(('D', (), ('rec', (('b', few[0]), ('a', few[0])))))
        for i, ds in enumerate(itertools.product(recs, repeat=k)):
            yield ds, i % 24
    ms = (V.I64, V.STRING, ('opt', few[0]), ('rec', ()))
    sizes = [('fixed', k) for k in (0, 1, 2, 3, 10, 11)] + [('var',)]
    for m in ms:
        for k in (2, 3):
            for i, s in enumerate(itertools.product(sizes, repeat=k)):
                yield tuple(('D', (x,), m) for x in s), i % 24
                if k == 2:
                    yield tuple(('D', (('fixed', 1), x), m) for x in s), 0
                    yield tuple(('D', (x, ('fixed', 1)), m) for x in s), 0
    dim = (('fixed', 2), ('fixed', 3), ('var',), ('ell', None), ('tv', 'A'))
    tops = []
    for ds in list(itertools.product(dim, repeat=1)) + \
            list(itertools.product(dim[:3], repeat=2)):
        for m in (V.I64, V.F64, V.BOOL, V.STRING):
            tops.append(('D', ds, m))
    tops += [('D', (('fixed', 2),), ('rec', (('a', few[1]),))),
             ('D', (('fixed', 3),), ('rec', (('a', few[2]),))), NULLD,
             ('D', (), V.I64), ('D', (), ('rec', ())),
             ('D', (), ('tup', (few[0],))), ('D', (), ('opt', few[1]))]
    for i, ds in enumerate(itertools.product(tops, repeat=2)):
        yield ds, i % 24
    for i, ds in enumerate(itertools.product(tops[:20:2], repeat=3)):
        yield ds, i % 24


def crowd(case):
    """Many alike, and one that is not."""
    a, b, n, at = case
    ds = (a,) * at + (b,) + (a,) * (n - 1 - at)
    return unite((ds, at % 24))


def crowds(tier):
    ns = (17, 65, 101, 257, 1025) if tier == 'quick' else (
        9, 12, 17, 33, 51, 65, 101, 129, 201, 257, 501, 1001, 1025, 2049)
    i = ('D', (), V.I64)
    f = ('D', (), V.F64)
    s = ('D', (), V.STRING)
    two = [(i, NULLD), (i, f), (f, i), (i, s), (s, i), (NULLD, i),
           (('D', (), V.BOOL), i),
           (('D', (), ('rec', (('a', i),))), ('D', (), ('rec', (
               ('a', f), ('b', i))))),
           (('D', (), ('rec', (('a', i), ('b', s)))), NULLD),
           (('D', (), ('rec', (('a', i), ('b', i)))),
            ('D', (), ('rec', (('b', i), ('a', i))))),
           (('D', (('fixed', 3),), V.I64), ('D', (('fixed', 2),), V.I64)),
           (('D', (('fixed', 3),), V.I64), ('D', (('var',),), V.F64)),
           (('D', (('fixed', 3),), V.I64), NULLD),
           (('D', (('fixed', 3), ('fixed', 2)), V.I64),
            ('D', (('fixed', 3), ('fixed', 1)), V.I64))]
    return [(a, b, n, at) for n in ns for a, b in two
            for at in sorted(set((0, n // 2, n - 2, n - 1)))]


SUBS = [
    Sub('crowds', None, crowd, exhaustive=crowds),
    Sub('small', None, unite, exhaustive=every_list),
    Sub('unite', lambda: st.tuples(lists(), st.integers(0, 719)), unite,
        quick=6000),
]
