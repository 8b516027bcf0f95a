"""C06: equality is structural, and hashing agrees with it."""
from hypothesis import strategies as st

from .. import model as M
from .. import small as S
from ..core import Sub, Violation, check, eq, srepr

ID = 'C06'
RULE = ('pairs of random datashapes, most differing in one or two places (a '
        'dimension, a parameter, a field name, an order, an option), some '
        'equal; built by constructors or parsed; == and != must agree with '
        'equality of their structure, equal ones must hash alike and be '
        'interchangeable in sets and dicts. Non-trivial: a nested type, '
        'dimension or parameter in one of the two.')


def make(ast, how):
    import datashape
    if how == 0:
        return M.build(ast)
    if how == 1:
        return datashape.dshape(M.plain_text(ast))
    if how == 2 and not ast[1]:
        return M.build_m(ast[2])        # the bare measure is the same type
    return M.build(ast)


def equality(case):
    (a, b), ha, hb = case
    x, y = make(a, ha), make(b, hb)
    want = a == b
    res = [x == y, y == x, not (x != y), not (y != x)]
    if res != [want] * 4:
        raise Violation('%s and %s: ==, ==, not !=, not != give %s' % (
            srepr(a), srepr(b), res))
    check(x == x and not x != x, 'not reflexive')
    check(all(type(r) is bool for r in res), 'not a bool')
    hx, hy = hash(x), hash(y)
    eq(hash(x), hx, 'second hash')
    if want:
        eq(hx, hy, 'hashes of equal datashapes %s' % srepr(a))
    eq(len({x, y}), 1 if want else 2, 'size of the set of both')
    eq({x: 1}.get(y), 1 if want else None, 'dict lookup')
    eq(y in [x], want, 'membership')
    # and not by the hash: a fresh copy finds it too
    eq(make(a, 0) in {x: 1}, True, 'lookup of a fresh copy')
    for other in (None, str(x), 5, (), M.plain_text(a), repr(x), 5.0,
                  x.parameters, type(x)):
        check(not (x == other) and x != other, '%s == %s', srepr(a),
              srepr(other))
    if a[2][0] == 'p' and not a[1] and b[2][0] == 'p' and not b[1]:
        return None
    return ['equal' if want else 'different'] + \
        ['k:' + k for k in M.kinds_of(a)]


def dims(case):
    import datashape
    d1, d2, n = case
    x, y = M.build_dim(d1), M.build_dim(d2)
    want = d1 == d2
    eq([x == y, y == x, not (x != y), not (y != x)], [want] * 4,
       '%s and %s' % (srepr(d1), srepr(d2)))
    if want:
        eq(hash(x), hash(y), 'hash of %s' % srepr(d1))
    f = datashape.Fixed(n)
    check(f == n and n == f and not f != n and not n != f, 'Fixed(%d)', n)
    eq(hash(f), hash(n), 'hash of Fixed(%d)' % n)
    check(f != n + 1 and n + 1 != f and not f == n + 1, 'Fixed(%d)', n)
    check(n in {f} and f in {n} and {f: 1}.get(n) == 1, 'Fixed(%d) in sets', n)
    for z in (x, y):
        if isinstance(z, datashape.Fixed):
            eq(z == n, int(z) == n, 'Fixed against integer')
        else:
            check(z != n and n != z and not z == n, 'dimension equals integer')
        for other in (None, str(z), str(n), (), (n,), [n], n + 0.0, n + 0.5,
                      datashape.int32, datashape.null):
            check(not (z == other or other == z) and z != other and
                  other != z, '%s equals %s', srepr(z), srepr(other))
    eq(int(f), n, 'int')
    ds = datashape.DataShape(f, datashape.int32)
    check(ds.shape == (n,) and (n,) == ds.shape, 'shape against tuple')
    return ['same' if want else 'other', d1[0]]


_cfgs = M.Cfg(long=True)
_params = M.Cfg(kinds=('str', 'time', 'datetime', 'td', 'units', 'dec', 'cat',
                       'cat', 'tv', 'rec', 'opt'), long=True, max_dims=1)


def cat_pairs():
    m = st.tuples(st.just('cat'), M.categories_st(True), st.sampled_from(
        (('str', None, 'U8'), ('p', 'int64'), ('str', 5, 'A'))),
        st.booleans())

    def make(m, k, how, nums):
        n = M.Noise(nums)
        x = m
        for _ in range(k):
            x = M._tweak_m(x, n, _cfgs)
        pair = []
        for y in (m, x):
            d = ('D', (), y)
            pair.append((d, ('D', (('var',),), y), ('D', (), ('opt', d)),
                         ('D', (), ('rec', (('a', d),))))[how])
        return tuple(pair)
    return st.builds(make, m, st.sampled_from((0, 1, 1, 2)),
                     st.integers(0, 3), st.lists(
                         st.integers(0, 719), min_size=12, max_size=12))


_i = ('D', (), ('p', 'int32'))


def _o(*dims):
    return ('D', (), ('opt', ('D', tuple(('fixed', n) for n in dims),
                              ('p', 'int32'))))


REGRESS = [
    ((_o(3), ('D', (('fixed', 3),), ('opt', _i))), 0, 0),
    ((_o(3), _o(3)), 0, 1), ((_o(), _o()), 2, 0), ((_o(3), _o(4)), 2, 2),
    ((_o(3), ('D', (('fixed', 3),), ('p', 'int32'))), 0, 0),
]

SUBS = [
    Sub('small', None, equality, exhaustive=lambda tier: [
        (p, i % 3, i // 3 % 3) for i, p in enumerate(S.pairs(tier))]),
    Sub('datashapes', lambda: st.tuples(
        M.pairs(_cfgs, depth=3), st.integers(0, 2), st.integers(0, 2)), equality,
        quick=9000, regress=REGRESS),
    Sub('flat', lambda: st.tuples(
        M.pairs(_cfgs, depth=1), st.integers(0, 2), st.integers(0, 2)), equality,
        quick=6000),
    Sub('parameters', lambda: st.tuples(
        M.pairs(_params, depth=1), st.integers(0, 2), st.integers(0, 2)),
        equality, quick=3000),
    Sub('categories', lambda: st.tuples(
        cat_pairs(), st.integers(0, 2), st.integers(0, 2)), equality,
        quick=2500),
    Sub('big', lambda: st.tuples(
        M.big_pairs(), st.integers(0, 2), st.integers(0, 2)), equality,
        quick=2500),
    Sub('dims', lambda: st.tuples(
        *([st.one_of(M.dim_st(M.Cfg()), st.tuples(
            st.just('ell'), st.one_of(st.none(), M.TYPEVARS)),
            st.tuples(st.just('fixed'), st.integers(0, 3)))] * 2 +
          [st.one_of(st.integers(0, 5), M.sizes())])), dims, quick=2000),
]
