"""C14: promotion of two scalar types."""
import itertools

from hypothesis import strategies as st

from .. import model as M
from .. import npmodel as N
from ..core import Sub, Violation, Unspec, check, eq, srepr

ID = 'C14'
RULE = ('all pairs of a table of scalar types, optional or not, and random '
        'pairs with random parameters, promoted with and without keeping '
        'options; the answer is compared with numpy.result_type carried over '
        'by an independent table, and checked for symmetry and absorption. '
        'Non-trivial: the two types differ.')
ASSUMPTIONS = ('without keeping options, two equal optional types are not '
               'spoken about; nor are types with dimensions, char and void',)


def from_dtype(dt):
    """The measure of a NumPy dtype which promotion may arrive at."""
    import numpy as np
    k = dt.kind
    if k in 'biufc':
        return ('p', N.NUM[k, dt.itemsize])
    if k == 'O':
        return ('p', 'object')
    if k == 'S':
        return ('str', dt.itemsize, 'A')
    if k == 'U':
        return ('str', dt.itemsize // 4, 'U32')
    unit = np.datetime_data(dt)[0]
    if k == 'M':
        return ('date',) if unit in N.DATES else ('datetime', None)
    if k == 'm':
        return ('td', unit)
    raise Unspec()


def strip(m):
    while m[0] == 'opt':
        m = m[1][2]
    return m


STRING = ('str', None, 'U8')


def expected(a, b, keep):
    """The measure, or None if there is none."""
    import numpy as np
    if a == b:
        if a[0] == 'opt' and not keep:
            raise Unspec()
        return a
    x, y = strip(a), strip(b)
    if x == y == STRING:
        r = STRING
    else:
        dx, dy = N.to_dtype(x), N.to_dtype(y)
        if dx is None or dy is None:
            return None
        try:
            dt = np.result_type(dx, dy)
        except TypeError:
            return None
        r = from_dtype(dt)
    if keep and (a[0] == 'opt' or b[0] == 'opt'):
        return ('opt', ('D', (), r))
    return r


def wrapped(m, how):
    x = M.build_m(m)
    import datashape as ds
    return ds.DataShape(x) if how else x


def promote_pair(case):
    import datashape as ds
    a, b, keep, how = case
    want = expected(a, b, keep)
    x, y = wrapped(a, how & 1), wrapped(b, how & 2)
    kw = {'promote_option': keep}
    args = ()
    if keep and how & 4:
        kw = {}
    elif how & 8:
        args, kw = (keep,), {}
    what = 'promote(%s, %s, %s)' % (srepr(a), srepr(b), keep)
    labels = ['keep' if keep else 'drop', '%s/%s' % tuple(sorted(
        (strip(a)[0], strip(b)[0])))]
    if a[0] == 'opt' or b[0] == 'opt':
        labels.append('option')
    if want is None:
        for p, q in ((x, y), (y, x)):
            try:
                got = ds.promote(p, q, *args, **kw)
            except TypeError:
                continue
            raise Violation('%s is %s' % (what, srepr(got)))
        return labels + ['refused']
    got = ds.promote(x, y, *args, **kw)
    eq(M.abs_d(got), ('D', (), want), what)
    back = ds.promote(y, x, *args, **kw)
    eq(M.abs_d(back), ('D', (), want), what + ', swapped')
    check(got == back, '%s differs from the swapped one', what)
    eq(M.abs_d(x), ('D', (), a), 'left operand')
    eq(M.abs_d(y), ('D', (), b), 'right operand')
    if keep:
        # what was promoted holds both operands
        for z in (x, y):
            again = ds.promote(got, z)
            w = expected(want, M.abs_d(z)[2], True)
            eq(M.abs_d(again), ('D', (), w), 'promoting once more')
            if strip(want)[0] == 'p' and strip(want)[1] != 'object' and \
                    strip(a)[0] == strip(b)[0] == 'p':
                eq(M.abs_d(again), ('D', (), want), 'absorption')
        eq(M.abs_d(ds.optionify(x, y, M.build_m(strip(want)))),
           ('D', (), want) if a[0] == 'opt' or b[0] == 'opt'
           else ('D', (), strip(want)), 'optionify')
    return labels if a != b else None


def opt(m):
    return ('opt', ('D', (), m))


TABLE = [('p', p) for p in M.PLAIN if p not in ('char', 'void')] + [
    STRING, ('str', 5, 'U8'), ('str', 30, 'U32'), ('str', 7, 'A'),
    ('str', 30, 'A'), ('str', None, 'A'), ('date',), ('datetime', None),
    ('datetime', 'UTC'), ('td', 'us'), ('td', 's'), ('td', 'D'), ('td', 'M'),
    ('td', 'Y'), ('dec', 2, 0), ('dec', 4, 0), ('dec', 9, 0), ('dec', 18, 0),
    ('dec', 19, 0), ('dec', 11, 2), ('bytes',), ('time', None), ('json',),
    ('null',)]


def pairs_table(tier):
    both = TABLE + [opt(m) for m in TABLE]
    out = []
    for i, (a, b) in enumerate(itertools.product(both, both)):
        for keep in (True, False):
            out.append((a, b, keep, (i * 7 + keep * 3) % 16))
    return out


def random_pairs():
    m = M.leaf_st(M.Cfg(kinds=('p', 'str', 'date', 'datetime', 'td', 'dec',
                               'bytes', 'time'),
                        plain=tuple(p for p in M.PLAIN
                                    if p not in ('char', 'void'))))
    m = M.weighted((2, m), (1, m.map(opt)))
    return st.tuples(m, m, st.booleans(), st.integers(0, 15))


SUBS = [Sub('table', None, promote_pair, exhaustive=pairs_table),
        Sub('random', random_pairs, promote_pair, quick=5000)]
