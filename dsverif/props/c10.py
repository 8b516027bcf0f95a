"""C10: dimensions behave like a list of dimensions in front of a measure."""
from hypothesis import strategies as st

from .. import model as M
from .. import small as S
from ..core import Sub, Violation, check, eq, srepr

ID = 'C10'
RULE = ('random datashapes; prepending dimensions one by one or together, '
        'shape, measure, length, iteration, indexing and slicing, removing '
        'leading dimensions, and concatenation along the first dimension are '
        'compared with the same operations on the list of dimensions. '
        'Non-trivial: at least one dimension.')


def dims_of(x):
    return tuple(M.abs_dim(p) for p in x)


def parts(case):
    import datashape as ds
    d, extra, as_text = case
    _, dims, m = d
    x = ds.dshape(M.plain_text(d)) if as_text else M.build(d)
    eq(dims_of(x.shape), dims, 'shape')
    check(type(x.shape) is tuple, 'shape is a %s', type(x.shape).__name__)
    eq(M.abs_m(x.measure), m, 'measure')
    eq(len(x), len(dims) + 1, 'len')
    eq(len(x.parameters), len(dims) + 1, 'number of parameters')
    elems = list(x)
    eq(dims_of(elems[:-1]), dims, 'iteration')
    eq(M.abs_m(elems[-1]), m, 'iteration')
    for i in range(len(dims)):
        eq(M.abs_dim(x[i]), dims[i], 'x[%d]' % i)
        eq(M.abs_dim(x[i - len(dims) - 1]), dims[i], 'negative index')
    eq(M.abs_m(x[len(dims)]), m, 'last item')
    eq(M.abs_m(x[-1]), m, 'last item')
    eq(dims_of(x[:-1]), dims, 'x[:-1]')
    try:
        x[len(dims) + 1]
    except IndexError:
        pass
    else:
        raise Violation('index %d of %s' % (len(dims) + 1, srepr(d)))
    # removing leading dimensions
    for k in range(len(dims) + 1):
        sub = x.subarray(k)
        check(type(sub) is ds.DataShape, 'subarray is a %s',
              type(sub).__name__)
        eq(M.abs_d(sub), ('D', dims[k:], m), 'subarray(%d) of %s' % (
            k, srepr(d)))
        # counted from the end, like a slice
        sub = x.subarray(k - len(dims) - 1)
        eq(M.abs_d(sub), ('D', dims[k:], m), 'subarray(%d) of %s' % (
            k - len(dims) - 1, srepr(d)))
    for k in (len(dims) + 1, len(dims) + 7):
        try:
            got = x.subarray(k)
        except IndexError:
            pass
        else:
            raise Violation('subarray(%d) of %s is %s' % (k, srepr(d),
                                                         srepr(got)))
    # one after the other is all at once
    for a in range(len(dims) + 1):
        for b in range(len(dims) + 1 - a):
            eq(M.abs_d(x.subarray(a).subarray(b)), ('D', dims[a + b:], m),
               'subarray(%d).subarray(%d)' % (a, b))
    # a bare measure has no dimensions
    bm = x.measure
    if m[0] != 'opt':
        eq(bm.shape, (), 'shape of a measure')
    check(bm.measure is bm or bm.measure == bm, 'measure of a measure')
    eq(M.abs_m(bm.subarray(0)), m, 'subarray(0) of a measure')
    try:
        bm.subarray(1)
    except IndexError:
        pass
    else:
        raise Violation('subarray(1) of a measure')
    return ['dims:%d' % len(dims)] if dims else None


def products(case):
    import datashape as ds
    d, extra, how = case
    want = ('D', extra + d[1], d[2])
    x = M.build(d)
    y = x
    for e in reversed(extra):
        if e[0] == 'fixed' and how & 1:
            y = e[1] * y
        else:
            y = M.build_dim(e) * y
    eq(M.abs_d(y), want, 'product')
    check(type(y) is ds.DataShape, 'product is a %s', type(y).__name__)
    eq(M.abs_d(x), d, 'the factor')
    z = ds.DataShape(*([M.build_dim(e) for e in extra] + list(x)))
    check(y == z and hash(y) == hash(z), 'product and DataShape() differ')
    eq(str(y), ' * '.join([str(M.build_dim(e)) for e in extra] +
                          [str(p) for p in x]), 'text of the product')
    eq(M.abs_d(ds.dshape(str(y))), want, 'parsed product')
    eq(M.abs_d(y.subarray(len(extra))), d, 'removing what was prepended')
    if extra:
        t = M.build_dim(extra[-1]) * M.plain_text(d)
        eq(M.abs_d(t), ('D', extra[-1:] + d[1], d[2]), 'product with text')
        if not d[1]:
            b = M.build_dim(extra[-1]) * M.build_m(d[2])
            eq(M.abs_d(b), ('D', extra[-1:], d[2]), 'product with a measure')
    return ['extra:%d' % len(extra)] if extra else None


def concatenation(case):
    import datashape as ds
    tail, sizes, spoil, at, nums = case
    k = len(sizes)
    dims, m = tail[1], tail[2]
    asts = [('D', (('fixed', s),) + dims, m) for s in sizes]
    want = ('D', (('fixed', sum(sizes)),) + dims, m)
    good = [M.build(a) for a in asts]
    got = ds.cat_dshapes(good)
    eq(M.abs_d(got), want, 'concatenation of %s' % srepr(asts))
    eq([M.abs_d(g) for g in good], asts, 'the inputs')
    eq(M.abs_d(ds.cat_dshapes(tuple(good))), want, 'tuple of datashapes')
    if k > 1:
        i = at % (k - 1) + 1
        eq(M.abs_d(ds.cat_dshapes([ds.cat_dshapes(good[:i]),
                                   ds.cat_dshapes(good[i:])])), want,
           'concatenation in two steps')
    if k > 1:
        # another dimension anywhere behind the first is noticed
        for j in range(len(dims)):
            for x in (('fixed', 1), ('fixed', 2), ('var',), ('tv', 'Zq'),
                      None):
                spoilt = dims[:j] + ((x,) if x else ()) + dims[j + 1:]
                if spoilt == dims:
                    continue
                i = (at + j) % k
                bad = list(asts)
                bad[i] = ('D', bad[i][1][:1] + spoilt, m)
                try:
                    got = ds.cat_dshapes([M.build(b) for b in bad])
                except (ValueError, TypeError):
                    continue
                raise Violation('concatenates %s to %s' % (srepr(bad),
                                                           srepr(got)))
    if spoil == 0 or k < 2:
        return ['cat:%d' % k] if k > 1 else None
    i = at % k
    bad = list(asts)
    if spoil == 1:
        other = M.tweak(tail, M.Noise(nums), M.Cfg())
        if other == tail or sum(1 for x in other[1] if x[0] == 'ell') > 1:
            return ['cat:%d' % k]
        bad[i] = ('D', bad[i][1][:1] + other[1], other[2])
    elif spoil == 2:
        bad[i] = ('D', (('var',),) + dims, m)
    elif spoil == 3:
        bad[i] = ('D', (('tv', 'N'),) + dims, m)
    try:
        got = ds.cat_dshapes([M.build(b) for b in bad])
    except (ValueError, TypeError):
        return ['refused', 'refused:%d' % spoil]
    raise Violation('concatenates %s to %s' % (srepr(bad), srepr(got)))


def empty(case):
    import datashape as ds
    try:
        got = ds.cat_dshapes(case)
    except ValueError:
        return ['empty']
    raise Violation('cat_dshapes(%r) is %s' % (case, srepr(got)))


_dim = M.dim_st(M.Cfg())
_o3 = ('D', (('fixed', 4),), ('opt', ('D', (('fixed', 3),), ('p', 'int32'))))

SUBS = [
    Sub('small', None, parts, exhaustive=lambda tier: [
        (d, (), False) for d in S.datashapes(tier)]),
    Sub('parts', lambda: st.tuples(
        M.datashapes(M.Cfg(max_dims=5), depth=2), st.just(()), st.booleans()),
        parts, quick=5000, regress=[(_o3, (), False)]),
    Sub('products', lambda: st.tuples(
        M.datashapes(depth=2), st.lists(_dim, max_size=4).map(tuple),
        st.integers(0, 1)), products, quick=5000),
    Sub('concatenation', lambda: st.tuples(
        M.datashapes(depth=2), st.lists(
            st.one_of(st.integers(0, 5), M.sizes()), min_size=1, max_size=4),
        st.integers(0, 3), st.integers(0, 7),
        st.lists(st.integers(0, 719), min_size=8, max_size=8)), concatenation,
        quick=5000,
        regress=[(_o3, [2, 3], 1, 0, [0])]),
    Sub('empty', None, empty, exhaustive=lambda tier: [(), []]),
]
