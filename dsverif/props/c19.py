"""C19: the datashape of nested lists and dictionaries, exactly."""
from hypothesis import strategies as st

from .. import model as M
from .. import small
from .. import values as V
from ..core import Sub, Violation, Unspec, check, eq, srepr

ID = 'C19'
RULE = ('random nested lists, tuples, dictionaries and scalars - tables with '
        'missing entries, missing fields, mixed column types, ragged and '
        'nested rows - discovered and compared with an independent model of '
        'the discovery rules. Non-trivial: a container with an element.')
ASSUMPTIONS = ('dictionary keys are strings; sets hold values of one type',)


def exact(case):
    import datashape as ds
    v = V.value(case)
    before = repr(v)
    got = ds.discover(v)
    want = V.shape_of(case)
    eq(M.abs_d(got), want, 'discover(%s)' % srepr(v))
    eq(repr(v), before, 'the discovered value')
    if case[0] in ('L', 'T', 'S', 'FS', 'D', 'OD', 'MP') and case[1]:
        return describe(want)
    return None


def describe(d):
    kinds = M.kinds_of(d)
    labels = [k for k in ('opt', 'rec', 'tup', 'dim:var', 'dim:fixed', 'null')
              if k in kinds]
    labels.append('depth:%d' % M.depth_of(d))
    labels.append('dims:%d' % len(d[1]))
    return labels


def columns():
    """Lists of rows, each column drawn from its own few types."""
    @st.composite
    def make(draw):
        n = draw(st.integers(1, 4))
        width = draw(st.integers(1, 3))
        pools = []
        for _ in range(width):
            kind = draw(st.sampled_from(POOLS))
            strat = V.scalars(kind)
            if draw(st.integers(0, 3)) == 0:
                strat = M.weighted((6, strat), (1, draw(st.sampled_from(
                    (V.table(0, 'ni', 3), V.tree(1, 'nis'))))))
            pools.append(strat)
        rows = []
        form = draw(st.sampled_from(('L', 'T', 'D', 'OD', 'LT')))
        for _ in range(n):
            cells = [draw(p) for p in pools]
            if form in ('D', 'OD'):
                drop = draw(st.integers(0, 12))
                row = [(k, c) for i, (k, c) in
                       enumerate(zip('abc', cells)) if i != drop]
                if draw(st.integers(0, 3)) == 0:
                    row.reverse()
                rows.append((form, tuple(row)))
            else:
                rows.append((draw(st.sampled_from(form)), tuple(cells)))
        if draw(st.integers(0, 9)) == 0:
            rows.append(('n',))
        v = (draw(st.sampled_from('LT')), tuple(rows))
        if draw(st.integers(0, 4)) == 0:
            v = ('L', (v,) * draw(st.integers(1, 3)))
        if draw(st.integers(0, 4)) == 0:
            v = ('D', (('k', v), ('l', ('i', 1))))
        return v
    return make()


POOLS = ('i', 'n', 'ni', 'if', 'nif', 'iw', 'fw', 'dD', 'ndD', 'dw', 'Dw',
         'bw', 'nbw', 'bi', 'bf', 'c', 'cn', 'ci', 't', 'tn', 'tw', 'T', 'Tw',
         'Ti', 'Tn', 'y', 'yn', 'yw', 'p', 'pi', 's', 'ns', 'di', 'Df', 'dT',
         'bd', 'ncw')


def sets():
    scalar = st.sampled_from(('i', 'f', 'w', 'b', 'd', 'c', 'y', 't'))

    def make(k):
        return st.tuples(st.sampled_from(('S', 'FS')), st.lists(
            V.scalars(k), max_size=4, unique=True).filter(
                lambda xs: len(set(map(V.value, xs))) == len(xs)).map(tuple))
    return scalar.flatmap(make).flatmap(lambda s: st.sampled_from(
        (s, ('L', (s, s)), ('D', (('a', s),)), ('L', (s, ('n',))))))


SUBS = [
    Sub('small', None, exact, exhaustive=small.values),
    Sub('strays', None, lambda case: exact(V.stray(case)[0]),
        exhaustive=V.strays),
    Sub('wide', None, exact, exhaustive=V.wide_dicts),
    Sub('columns', columns, exact, quick=10000, regress=[
        ('L', (('L', ()), ('L', ()))),
        ('L', (('D', (('a', ('L', ())),)), ('D', ()))),
        ('L', (('D', (('r', ('D', (('x', ('i', 1)), ('y', ('i', 1)))),),)),
               ('D', (('r', ('D', (('x', ('i', 1)),))),)))),
        ('L', (('L', (('i', 1), ('c', '1j'))), ('L', (('b', True),
                                                      ('i', 2))))),
        ('L', (('L', (('c', '1j'),)), ('L', (('i', 2),)))),
        ('L', (('D', (('a', ('c', '1j')),)), ('D', (('a', ('i', 2)),)))),
    ]),
    Sub('trees', V.values, exact, quick=10000),
    Sub('records', V.record_cells, exact, quick=2500),
    Sub('long', V.long_table, exact, quick=1500),
    Sub('sets', sets, exact, quick=800),
]
