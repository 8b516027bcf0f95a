"""C21: laws of discovery which do not depend on its rules."""
import collections
from types import MappingProxyType

from hypothesis import strategies as st

from .. import model as M
from .. import small
from .. import values as V
from ..core import Sub, Violation, Unspec, check, eq, srepr
from .c19 import columns

ID = 'C21'
RULE = ('random nested values discovered again after changes that must not '
        'matter (lists for tuples, the order of keys, the order of rows, the '
        'kind of mapping, sets for lists, a second time) or whose effect is known (repeating '
        'a value n times, wrapping in a dictionary, text for the value it '
        'spells). Non-trivial: a container with an element, actually changed.')


def disc(desc):
    import datashape as ds
    return ds.discover(V.value(desc))


def remap(v, n, f):
    v = f(v, n)
    if v[0] in ('L', 'T'):
        return (v[0], tuple(remap(x, n, f) for x in v[1]))
    if v[0] in ('D', 'OD', 'MP'):
        return (v[0], tuple((k, remap(x, n, f)) for k, x in v[1]))
    return v


def swap_seq(v, n):
    if v[0] in ('L', 'T') and n.pick(2):
        return ('T' if v[0] == 'L' else 'L', v[1])
    return v


def shuffle_keys(v, n):
    if v[0] in ('D', 'MP') and len(v[1]) > 1:
        i = n.pick(len(v[1]))
        return (v[0], v[1][i:] + v[1][:i])
    return v


def same_scalar(v, n):
    """Another value of the same type."""
    alt = {'i': ('i', 12345), 'f': ('f', '9.25'), 'b': ('b', False),
           'd': ('d', 1999, 3, 4), 'by': ('by', b'q'), 'c': ('c', '5j'),
           'dt': ('dt', 1999, 1, 1, 1, 1, 1, 1), 't': ('t', 1, 1, 1, 1),
           'td': ('td', 77)}
    if v[0] in alt and n.pick(2):
        return alt[v[0]]
    return v


def same(a, b, what):
    check(a == b and b == a, '%s: %s and %s', what, srepr(a), srepr(b))
    eq(M.abs_d(b), M.abs_d(a), what)


def laws(case):
    import datashape as ds
    v, nums = case
    n = M.Noise(nums)
    d = disc(v)
    labels = []
    same(d, disc(v), 'a second time')
    for name, f in (('list/tuple', swap_seq), ('keys', shuffle_keys),
                    ('values', same_scalar)):
        w = remap(v, n, f)
        if w != v:
            same(d, disc(w), '%s: %s' % (name, srepr(w)))
            labels.append(name)
    if v[0] in ('L', 'T') and len(v[1]) > 1 and type(d) is ds.DataShape:
        i = 1 + n.pick(len(v[1]) - 1)
        for name, items in (('rotated', v[1][i:] + v[1][:i]),
                            ('reversed', v[1][::-1])):
            if any(x[0] == 'OD' for x in items):
                break       # the order of an OrderedDict's keys counts
            same(d, disc((v[0], items)), 'rows ' + name)
            labels.append(name)
    if v[0] in ('D', 'MP'):
        other = ('MP' if v[0] == 'D' else 'D', v[1])
        same(d, disc(other), 'kind of mapping')
        srt = ('OD', tuple(sorted(v[1])))
        same(d, disc(srt), 'sorted OrderedDict')
        for k, x in v[1]:
            same(ds.DataShape(d).measure.dict[k], unwrap(disc(x)),
                 'field %r' % k)
        labels.append('mapping')
    if v[0] == 'OD':
        eq([k for k, _ in v[1]], d.names, 'order of the fields')
        labels.append('OrderedDict')
    one = disc(('D', (('k', v),)))
    same(one, ds.Record([('k', d)]), 'as a field')
    return labels or None


def in_a_set(case):
    """A set is discovered like the list of its elements."""
    import datashape as ds
    kind, items, form = case
    x = (set, frozenset)[kind](V.value(v) for v in items)
    ordered = list(x)
    # (sets as rows of a list are no records, so not among lists)
    frame = (lambda y: y, lambda y: (1, y), lambda y: {'a': y})[form]
    want = ds.discover(frame(ordered))
    same(want, ds.discover(frame(x)), srepr(x))
    same(want, ds.discover(frame(tuple(x))), srepr(x))
    eq(list(x), ordered, 'the set')
    return ['set', 'frozenset'][kind:kind + 1] if x else None


def hashables():
    scalar = V.scalars(V.ALL)
    return M.weighted((4, scalar), (1, st.tuples(st.just('T'), st.lists(
        scalar, max_size=3).map(tuple))))


def unwrap(d):
    import datashape as ds
    return d[0] if type(d) is ds.DataShape and len(d) == 1 else d


def repeated(case):
    import datashape as ds
    v, n, kind = case
    d = disc(v)
    got = disc((kind, (v,) * n))
    same(ds.DataShape(ds.Fixed(n), d), got, '%d times %s' % (n, srepr(v)))
    return ['repeated:' + v[0]]


def grown(case):
    """A longer sequence of rows of the same types differs in its length."""
    import datashape as ds
    v, n = case
    d = disc(v)
    if type(d) is not ds.DataShape or len(d) < 2:
        raise Unspec()
    k = len(v[1])
    got = disc((v[0], v[1] * n))
    same(ds.DataShape(ds.Fixed(k * n), *list(d)[1:]), got,
         'rows repeated %d times' % n)
    return ['grown']


def outnumbered(case):
    """One of many counts as much as one of two."""
    import datashape as ds
    many, two = V.stray(case)
    n = case[3]
    want = disc(two)
    got = disc(many)
    if type(want) is not ds.DataShape or type(got) is not ds.DataShape or \
            want[0] != ds.Fixed(2):
        # then a tuple, of one type for each
        want, got = M.abs_d(want), M.abs_d(got)
        check(want[2][0] == 'tup' and not want[1], '%s', srepr(want))
        one, other = want[2][1]
        items = [one] * n
        items[case[4]] = other
        eq(got, ('D', (), ('tup', tuple(items))), 'one of %d' % n)
        return ['tuple']
    same(ds.DataShape(ds.Fixed(n), *list(want)[1:]), got, 'one of %d' % n)
    return ['outnumbered']


def spelled(case):
    """Text and the value it spells are discovered alike."""
    import datetime
    v, nums = case
    n = M.Noise(nums)

    def spell(x, n):
        if n.pick(3) == 0:
            return x
        if x[0] == 'i':
            return ('s', str(x[1]))
        if x[0] == 'f':
            return ('s', repr(float(x[1])))
        if x[0] == 'b':
            return ('s', str(x[1]))
        if x[0] == 'd':
            return ('s', datetime.date(*x[1:]).isoformat())
        if x[0] == 'dt':
            return ('s', V.value(x).isoformat(' '))
        if x[0] == 'n':
            return ('s', '')
        return x
    w = remap(v, n, spell)
    if w == v:
        return None
    same(disc(v), disc(w), '%s spelled as %s' % (srepr(v), srepr(w)))
    return ['spelled']


_flat = st.lists(V.scalars('nbifcswdDtTy'), max_size=4).map(tuple)


def repeatable(v):
    if v[0] in ('L', 'T'):
        return all(x[0] not in ('L', 'T', 'D', 'OD', 'MP', 'S') for x in v[1])
    if v[0] == 'D':
        return all(x[0] not in ('L', 'T', 'D', 'OD', 'MP', 'S')
                   for _, x in v[1])
    return v[0] not in ('OD', 'MP', 'S')


def repeatables():
    return M.weighted(
        (2, V.scalars(V.ALL)), (3, st.tuples(st.sampled_from('LT'), _flat)),
        (3, st.tuples(st.just('D'), _flat.map(
            lambda xs: tuple(zip('abcd', xs))))))


_any = M.weighted((5, columns()), (5, V.values()), (2, V.record_cells()),
                  (1, V.long_table()))

SUBS = [
    Sub('small', None, laws, exhaustive=lambda tier: [
        (v, (i, i * 7, i * 31, i * 17, i * 3 + 1)) for i, v in enumerate(
            small.values(tier))]),
    Sub('small_repeated', None, repeated, exhaustive=lambda tier: [
        (v, i % 3 + 1, 'LT'[i % 2]) for i, v in enumerate(small.values(tier))
        if repeatable(v)]),
    Sub('small_spelled', None, spelled, exhaustive=lambda tier: [
        (v, (i, i * 7, i * 31, i * 17, i * 3 + 1)) for i, v in enumerate(
            small.values(tier))]),
    Sub('strays', None, outnumbered, exhaustive=V.strays),
    Sub('wide', None, laws, exhaustive=lambda tier: [
        (v, (i, i * 7, i * 31, i * 17, i * 3 + 1)) for i, v in enumerate(
            V.wide_dicts(tier))]),
    Sub('laws', lambda: st.tuples(_any, M.noises(20)), laws, quick=7000),
    Sub('repeated', lambda: st.tuples(repeatables(), st.integers(1, 5),
                                      st.sampled_from('LT')), repeated,
        quick=3000),
    Sub('grown', lambda: st.tuples(columns().filter(lambda v: v[0] in 'LT'),
                                   st.integers(1, 3)), grown, quick=3000),
    Sub('sets', lambda: st.tuples(
        st.integers(0, 1), st.lists(hashables(), max_size=5).map(tuple),
        st.integers(0, 2)), in_a_set, quick=2000),
    Sub('spelled', lambda: st.tuples(_any, M.noises(20)), spelled,
        quick=4000),
]
