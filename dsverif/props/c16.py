"""C16: predicates on the structure of a datashape."""
from hypothesis import strategies as st

from .. import model as M
from .. import small as S
from ..core import Sub, Violation, Unspec, check, eq, srepr

ID = 'C16'
RULE = ('random datashapes, given as objects and as text, and every structural '
        'predicate (scalar, record, tabular, collection, homogeneous, fixed, '
        'has a variable dimension, has an ellipsis, is a dimension) compared '
        'with its meaning on the model. Non-trivial: a datashape with '
        'dimensions or a composite measure.')
ASSUMPTIONS = (
    'not spoken about: json as a scalar, options of options, whether type '
    'variables, maps, functions and units are fixed',)

SCALAR = ('p', 'bytes', 'null', 'date', 'str', 'time', 'datetime', 'td',
          'units', 'dec', 'cat', 'tv')


def inner(m):
    """The measure inside an option of something without dimensions."""
    if m[0] == 'opt' and not m[1][1]:
        return m[1][2]
    return m


def scalar(d):
    return not d[1] and inner(d[2])[0] in SCALAR


def record(d):
    return not d[1] and inner(d[2])[0] == 'rec'


def leaves(m, out):
    """The distinct scalar types a measure is made of."""
    if scalar(('D', (), m)):
        out.add(m)
        return
    for c in M.children(m):
        leaves(c[2], out)


def everywhere(d, kinds):
    return any(dim[0] in kinds for x in M.walk(d) for dim in x[1])


def fixed(d):
    if any(dim[0] in ('var', 'ell') for dim in d[1]):
        return False
    if d[2][0] in ('rec', 'tup', 'opt'):
        return all(fixed(c) for c in M.children(d[2]))
    return True


def predicates(case):
    import datashape as ds
    from datashape import predicates as P
    d, form = case
    kinds = M.kinds_of(d)
    composite = any(x[2][0] in ('rec', 'tup', 'map', 'fun') for x in M.walk(d))
    labels = []
    if form == 0:
        x = M.build(d)
    elif form == 1:
        x = M.plain_text(d)
    else:
        x = M.build(d)
        if not d[1]:
            x = x.measure
    obj = M.build(d)

    def verdict(name, f, want, arg):
        got = f(arg)
        check(bool(got) == want, '%s(%s) is %s', name, srepr(arg),
              srepr(got))
        if want:
            labels.append(name)
    json = 'json' in kinds
    nested = any(x[2][0] == 'opt' and not x[2][1][1] and
                 x[2][1][2][0] == 'opt' for x in M.walk(d))
    if not (nested or json):
        verdict('isscalar', P.isscalar, scalar(d), x)
    if not nested:
        verdict('isrecord', P.isrecord, record(d), x)
        verdict('istabular', P.istabular, len(d[1]) == 1 and
                record(('D', (), d[2])), x)
    verdict('iscollection', P.iscollection, bool(d[1]), x)
    if not (nested or json):
        out = set()
        leaves(d[2], out)
        verdict('ishomogeneous', P.ishomogeneous, len(out) == 1, x)
    if 'dim:tv' not in kinds and not kinds & {'map', 'fun', 'units', 'cat',
                                              'tv'}:
        verdict('isfixed', P.isfixed, fixed(d), x)
    for y in (obj, x):
        verdict('has_var_dim', ds.has_var_dim, everywhere(d, ('var', 'ell')),
                y)
        verdict('has_ellipsis', ds.has_ellipsis, everywhere(d, ('ell',)), y)
    for dim in d[1]:
        if dim[0] != 'tv':
            check(P.isdimension(M.build_dim(dim)), '%r is no dimension', dim)
        if dim[0] == 'fixed':
            check(P.isdimension(dim[1]), 'an integer is no dimension')
    if d[2][0] != 'tv':
        check(not P.isdimension(obj.measure), '%s is a dimension',
              srepr(d[2]))
        check(not P.isdimension(obj), '%s is a dimension', srepr(d))
    eq(M.abs_d(obj), d, 'the argument')
    if not d[1] and not composite and d[2][0] != 'opt':
        return None
    return labels or ['none']


def mono_leaf():
    """Datashapes whose leaves are all drawn from one or two types."""
    many = tuple(range(100, 112))
    leaf = st.sampled_from((
        ('p', 'int32'), ('p', 'float64'), ('str', None, 'U8'),
        ('str', 5, 'U8'), ('date',), ('time', None), ('time', 'None'),
        ('cat', many, ('p', 'int64'), False),
        ('cat', many + (200,), ('p', 'int64'), False)))

    def refill(d, a, b, nums):
        n = M.Noise(nums)

        def go(d):
            m = d[2]
            if m[0] in ('rec', 'tup', 'map', 'fun', 'opt'):
                return ('D', d[1], M.with_children(
                    m, [go(c) for c in M.children(m)]))
            return ('D', d[1], a if n.pick(4) else b)
        return go(d)
    cfg = M.Cfg(kinds=('p', 'rec', 'tup', 'map', 'opt'),
                dims=('fixed', 'var', 'ell'))
    alike = st.sampled_from((
        (('cat', many, ('p', 'int64'), False),
         ('cat', many + (200,), ('p', 'int64'), False)),
        (('cat', many, ('p', 'int64'), False),
         ('cat', many, ('p', 'int64'), True)),
        (('cat', (1, 2), ('p', 'int64'), False),
         ('cat', (1, 2), ('p', 'int32'), False)),
        (('time', None), ('time', 'None')),
        (('str', None, 'U8'), ('str', None, 'U16')),
        (('dec', 4, 2), ('dec', 4, 0)),
        (('td', 'us'), ('td', 'ns')),
        (('date',), ('datetime', None)),
        (('p', 'int64'), ('p', 'uint64'))))
    pairs = M.weighted(
        (1, alike), (2, st.tuples(leaf, M.weighted((1, leaf), (1, leaf.map(
            lambda m: ('opt', ('D', (), m))))))))
    return st.builds(lambda d, p, nums: refill(d, p[0], p[1], nums),
                     M.datashapes(cfg, 3), pairs, M.noises(12))


_notv = M.Cfg(dims=('fixed', 'var', 'ell'), without=('json', 'tv'))
_plain = M.Cfg(dims=('fixed', 'var', 'ell'), max_dims=2,
               without=('json', 'tv', 'map', 'fun', 'units', 'cat'))
_fixeddims = M.Cfg(dims=('fixed',), kinds=('p', 'str', 'rec', 'tup', 'opt'))


def one_varied(d, nums):
    """d with at most one place made variable."""
    n = M.Noise(nums)
    path = n.of(list(M._paths(d)))
    x = M.at(d, path)
    dim = n.of((('var',), ('ell', None), ('ell', 'A'), ('fixed', 3)))
    i = n.pick(len(x[1]) + 1)
    return M.replace(d, path, ('D', x[1][:i] + (dim,) + x[1][i:], x[2]))


SUBS = [
    Sub('small', None, predicates, exhaustive=lambda tier: [
        (d, i % 3) for i, d in enumerate(S.datashapes(tier))]),
    Sub('any', lambda: st.tuples(M.datashapes(M.Cfg(long=True), depth=3), st.integers(0, 2)),
        predicates, quick=3000),
    Sub('without_tv', lambda: st.tuples(M.datashapes(_notv, 3),
                                        st.integers(0, 2)),
        predicates, quick=3000),
    Sub('fixed', lambda: st.tuples(M.weighted(
        (1, M.datashapes(_plain, 3)),
        (2, st.builds(one_varied, M.datashapes(_fixeddims, 3), M.noises(4)))),
        st.integers(0, 2)), predicates, quick=4000),
    Sub('homogeneous', lambda: st.tuples(mono_leaf(), st.integers(0, 2)),
        predicates, quick=4000),
]
