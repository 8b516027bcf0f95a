"""C13: converting any datashape to NumPy."""
from hypothesis import strategies as st

from .. import model as M
from .. import small
from .. import npmodel as N
from ..core import Sub, Violation, check, eq, srepr

ID = 'C13'
RULE = ('random datashapes of every kind are converted to a NumPy shape and '
        'dtype, through to_numpy, to_numpy_dtype and the method of the '
        'measure; the answer, or the refusal with TypeError, is compared with '
        'an independent table. Non-trivial: every case.')


def same(got, want, what):
    eq(got, want, what)
    eq(got.names, want.names, what + ' (names)')
    eq(got.str, want.str, what)


def convert(case):
    import datashape as ds
    d, as_text = case
    _, dims, m = d
    want = N.to_dtype(m)
    x = ds.dshape(M.plain_text(d)) if as_text else M.build(d)
    shape = []
    for dim in dims:
        if dim[0] == 'fixed':
            shape.append(dim[1])
        elif dim[0] == 'tv':
            shape.append(-1)
        else:
            shape = None
            break
    labels = ['to:' + m[0]]
    if want is None or shape is None:
        try:
            got = ds.to_numpy(x)
        except TypeError:
            labels.append('refused')
        else:
            raise Violation('%s becomes %s' % (srepr(d), srepr(got)))
    else:
        got = ds.to_numpy(x)
        eq(got[0], tuple(shape), 'shape of %s' % srepr(d))
        check(all(type(n) is int for n in got[0]), 'shape %r', got[0])
        same(got[1], want, 'dtype of %s' % srepr(d))
        labels.append('ok')
    for what, f in (('to_numpy_dtype', lambda: ds.to_numpy_dtype(x)),
                    ('measure', lambda: x.measure.to_numpy_dtype()),
                    ('bare measure', lambda: ds.to_numpy(x.measure)[1])):
        if want is None:
            try:
                got = f()
            except TypeError:
                continue
            raise Violation('%s: %s becomes %s' % (what, srepr(d),
                                                   srepr(got)))
        same(f(), want, '%s of %s' % (what, srepr(d)))
    return labels


_any = M.Cfg()
_mild = M.Cfg(kinds=('p', 'date', 'str', 'datetime', 'td', 'dec', 'rec', 'tup',
                     'map', 'opt'),
              plain=tuple(p for p in M.PLAIN if p != 'char'),
              names=M.names())
# options of what NumPy can hold as missing
_opt = st.tuples(st.just('D'), st.just(()), st.tuples(
    st.just('opt'), st.tuples(st.just('D'), st.just(()), st.one_of(
        st.just(('date',)), st.just(('datetime', None)),
        st.just(('datetime', 'UTC')),
        st.tuples(st.just('td'), st.sampled_from(M.UNITS))))))
_plainrec = M.Cfg(kinds=('p', 'date', 'str', 'datetime', 'td', 'dec', 'rec',
                         'tup', 'map'), plain=_mild.plain, names=_mild.names,
                  dims=('fixed', 'tv'))


def cases():
    good = M.datashapes(_plainrec, depth=3)

    def with_opt(d, o, nums):
        n = M.Noise(nums)
        path = n.of(list(M._paths(d)))
        sub = M.at(d, path)
        return M.replace(d, path, ('D', sub[1], o[2]))
    return st.tuples(M.weighted(
        (2, M.datashapes(_any, 2)), (3, M.datashapes(_mild, 2)), (3, good),
        (2, st.builds(with_opt, good, _opt, M.noises(3)))), st.booleans())


def huge():
    """Records about as large as NumPy can count."""
    near = st.one_of(
        st.builds(lambda k, i: max(0, 2**k + i),
                  st.integers(20, 33), st.integers(-3, 3)),
        st.integers(0, 2**32), st.integers(0, 9))
    item = st.builds(
        lambda dims, n, enc, k: ('D', tuple(('fixed', x) for x in dims), (
            ('str', n, enc) if k else ('p', 'int8'))),
        st.lists(st.integers(0, 2**16), max_size=2), near,
        st.sampled_from(M.ENCS), st.integers(0, 3))

    def record(items, name):
        if name is None:
            return ('D', (), ('tup', tuple(items)))
        return ('D', (), ('rec', tuple(
            (name * (i + 1) if name or not i else 'x%d' % i, x)
            for i, x in enumerate(items))))
    level = st.builds(record, st.lists(item, max_size=4),
                      st.sampled_from((None, '', 'a')))
    two = st.builds(lambda xs, y, name: record(xs + [y], name),
                    st.lists(item, max_size=2), level,
                    st.sampled_from((None, '', 'f')))
    return st.tuples(st.one_of(item, level, two), st.booleans())


def table(tier):
    """Every kind of measure, and every boundary of its parameters."""
    ms = [('p', p) for p in M.PLAIN]
    ms += [('str', n, e) for n in [None] + list(range(12)) + [
               255, 256, 1000] + [x for k in (29, 30, 31, 32, 33, 63, 64, 70)
                                  for x in (2**k - 1, 2**k, 2**k + 5)]
           for e in M.ENCS]
    ms += [('td', u) for u in M.UNITS]
    ms += [('dec', p, s) for p in range(0, 41) for s in range(-3, 20)]
    ms += [('datetime', None), ('datetime', 'UTC'), ('time', None),
           ('time', 'UTC'), ('date',), ('null',), ('bytes',), ('json',),
           ('tv', 'A'), ('rec', ()), ('tup', ()), ('units', 'm', M.F64),
           ('cat', ('a', 'b'), ('str', None, 'U8'), False),
           ('fun', (), M.F64)]
    out = []
    for m in ms:
        bare = ('D', (), m)
        out += [bare, ('D', (('fixed', 3), ('tv', 'N')), m),
                ('D', (), ('opt', bare)),
                ('D', (), ('opt', ('D', (('fixed', 3),), m))),
                ('D', (), ('opt', ('D', (), ('opt', bare)))),
                ('D', (), ('map', bare, M.F64)),
                ('D', (), ('opt', ('D', (), ('map', bare, M.F64)))),
                ('D', (), ('rec', (('x', bare), ('y', M.F64)))),
                ('D', (), ('tup', (M.F64, bare))),
                ('D', (('var',),), m), ('D', (('ell', None),), m)]
    return [(d, False) for d in out]


SUBS = [Sub('small', None, convert, exhaustive=lambda tier: [
    (d, i % 2 == 0) for i, d in enumerate(small.datashapes(tier))]),
        Sub('table', None, convert, exhaustive=table),
        Sub('convert', cases, convert, quick=12000),
        Sub('huge', huge, convert, quick=3000)]
