"""C24: the assertion that two datashapes are equal."""
from hypothesis import strategies as st

from .. import model as M
from .. import small as S
from ..core import Sub, Violation, Unspec, check, eq, srepr

ID = 'C24'
RULE = ('random pairs of datashapes, equal or differing in one or two small '
        'places, with random flags that relax the comparison; the assertion '
        'must fail exactly when the two differ in what is still compared, and '
        'the place its message names must lead to parts that differ. '
        'Non-trivial: the pair differs, or a flag is off.')
ASSUMPTIONS = ()

FLAGS = ('check_dim', 'check_tz', 'check_timedelta_unit',
         'check_str_encoding', 'check_str_fixlen', 'check_record_order')


def relax(d, off):
    """The datashape with what is not compared made the same."""
    dims, m = d[1], d[2]
    if 'check_dim' in off:
        dims = ()
    k = m[0]
    if k in ('time', 'datetime') and 'check_tz' in off:
        m = (k, None)
    elif k == 'td' and 'check_timedelta_unit' in off:
        m = (k, 's')
    elif k == 'str':
        m = (k, None if 'check_str_fixlen' in off else m[1],
             'U8' if 'check_str_encoding' in off else m[2])
    elif M.children(m):
        m = M.with_children(m, [relax(c, off) for c in M.children(m)])
        if k == 'rec' and 'check_record_order' in off:
            m = (k, tuple(sorted(m[1])))
    return ('D', dims, m)


def compare(case):
    from datashape.util.testing import assert_dshape_equal
    (a, b), off, swap, bare = case
    if swap:
        a, b = b, a
    want = relax(a, off) == relax(b, off)
    x, y = M.build(a), M.build(b)
    if bare and not a[1] and not b[1]:
        x, y = x.measure, y.measure
    kw = dict((f, False) for f in off)
    what = 'assert_dshape_equal(%s, %s, %s)' % (srepr(a), srepr(b), kw)
    try:
        assert_dshape_equal(x, y, **kw)
    except AssertionError as e:
        check(not want, '%s fails: %s', what, srepr(str(e)))
        place(str(e), x, y, what)
    else:
        check(want, '%s passes', what)
    eq(M.abs_d(x), a, 'left')
    eq(M.abs_d(y), b, 'right')
    if a == b and not off:
        return None
    labels = ['off:' + f for f in off]
    labels.append(('equal' if a == b else 'relaxed') if want else 'different')
    return labels


def place(msg, x, y, what):
    lines = [l for l in msg.split('\n') if l.startswith('path: _')]
    if not lines:
        return
    path = lines[-1][len('path: '):]
    try:
        p = eval(path, {'_': x, '__builtins__': {}})
        q = eval(path, {'_': y, '__builtins__': {}})
    except Exception as e:
        raise Violation('%s: the path %s leads nowhere: %r' % (what, path, e))
    check(p != q, '%s: the parts at %s do not differ', what, srepr(path))


def relaxed_pairs():
    """Pairs that differ mostly in what flags can relax."""
    def go(d, n):
        dims, m = d[1], d[2]
        k = m[0]
        c = n.pick(4)
        if c == 0 and dims:
            i = n.pick(len(dims))
            dims = dims[:i] + (('fixed', 77),) + dims[i + 1:]
        elif c == 1 and dims:
            dims = dims + (('var',),)
        if k in ('time', 'datetime') and n.pick(4):
            m = (k, n.of((None, 'UTC', 'CST')))
        elif k == 'td' and n.pick(4):
            m = (k, n.of(M.UNITS))
        elif k == 'str' and n.pick(4):
            m = (k, n.of((m[1], None, 0, 5, 9)), n.of((m[2],) + M.ENCS))
        elif M.children(m):
            m = M.with_children(m, [go(c, n) for c in M.children(m)])
            if k == 'rec' and len(m[1]) > 1 and n.pick(2):
                i = n.pick(len(m[1]))
                m = (k, m[1][i:] + m[1][:i])
        return ('D', dims, m)
    cfg = M.Cfg(max_dims=2, kinds=('str', 'time', 'datetime', 'td', 'rec', 'tup',
                       'fun', 'opt', 'units', 'map', 'cat'))
    return st.builds(lambda d, nums: (d, go(d, M.Noise(nums))),
                     M.m_st(cfg, 3).flatmap(lambda m: M.dims_st(cfg).map(
                         lambda ds: ('D', ds, m))),
                     st.lists(st.integers(0, 719), min_size=12, max_size=12))


_off = M.weighted((1, st.just(())), (3, st.lists(
    st.sampled_from(FLAGS), max_size=6, unique=True).map(
        lambda fs: tuple(sorted(fs)))))
_cfg = M.Cfg()

def relevant(flag, pair):
    """Whether a flag may matter to a pair."""
    kinds = {x[2][0] for d in pair for x in M.walk(d)}
    return {'check_dim': any(x[1] for d in pair for x in M.walk(d)),
            'check_tz': kinds & {'time', 'datetime'},
            'check_timedelta_unit': 'td' in kinds,
            'check_str_encoding': 'str' in kinds,
            'check_str_fixlen': 'str' in kinds,
            'check_record_order': 'rec' in kinds}[flag]


SUBS = [
    Sub('small', None, compare, exhaustive=lambda tier: [
        (p, (), i % 2 == 0, i % 3 == 0) for i, p in enumerate(S.pairs(tier))]),
    Sub('small_flags', None, compare, exhaustive=lambda tier: [
        (p, off, i % 2 == 0, i % 3 == 0)
        for i, p in enumerate(S.pairs(tier)) if p[0] != p[1]
        for off in [(f,) for f in FLAGS if relevant(f, p)] + [FLAGS]]),
    Sub('default', lambda: st.tuples(M.pairs(M.Cfg(long=True), depth=3), st.just(()),
                                     st.booleans(), st.booleans()),
        compare, quick=5000),
    Sub('big', lambda: st.tuples(M.big_pairs(_cfg), M.weighted(
        (2, st.just(())), (1, _off)), st.booleans(), st.booleans()),
        compare, quick=3000),
    Sub('flags', lambda: st.tuples(M.pairs(_cfg, 3), _off, st.booleans(),
                                   st.booleans()), compare, quick=4000),
    Sub('all_but_one', lambda: st.tuples(
        relaxed_pairs(), st.sampled_from(FLAGS + (None, None)).map(
            lambda f: tuple(g for g in FLAGS if g != f)),
        st.booleans(), st.booleans()), compare, quick=4000),
    Sub('relaxed', lambda: st.tuples(relaxed_pairs(), _off, st.booleans(),
                                     st.booleans()), compare, quick=3000),
]
