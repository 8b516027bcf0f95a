"""C11: the datashape of an indexed part."""
from hypothesis import strategies as st

from .. import model as M
from ..core import Sub, Violation, Unspec, check, eq, srepr

ID = 'C11'
RULE = ('random datashapes of fixed and var dimensions over records and other '
        'measures, and random indices (integers, slices with any sign of '
        'start, stop and step, lists, new axes, field names, positions, '
        'lists and slices of fields, tuples of these); the datashape of the '
        'part is compared with an independent model and, for fixed '
        'dimensions, with what NumPy selects from an array of that shape. '
        'Non-trivial: an index that selects something.')
ASSUMPTIONS = (
    'integers beyond a fixed dimension, lists of booleans, and indexing through '
    'ellipsis or type-variable dimensions are not spoken about',)

# an index item: int | None | ('s', start, stop, step) | ('l', ints) |
#                name | ('ln', [names and positions])


def real(item):
    if isinstance(item, tuple):
        if item[0] == 's':
            return slice(*item[1:])
        return list(item[1])
    return item


class Refused(Exception):
    pass


def rlen(r):
    # len(), for ranges of any size
    a, b, c = r.start, r.stop, r.step
    return max(0, (b - a + c - (1 if c > 0 else -1)) // c)


def count(dim, s):
    _, start, stop, step = s
    if dim[0] == 'fixed':
        return ('fixed', rlen(range(dim[1])[slice(start, stop, step)]))
    step = 1 if step is None else step
    if start is None and step > 0:
        start = 0
    if start is None or stop is None or start < 0 or stop < 0:
        return ('var',)
    return ('fixed', rlen(range(start, stop, step)))


def select(d, items):
    """What the indices select, left to right."""
    dims, m = list(d[1]), d[2]
    out = []
    items = list(items)
    while items:
        i = items.pop(0)
        if i is None:
            out.append(('fixed', 1))
            continue
        if dims:
            dim = dims.pop(0)
            if isinstance(i, str):
                raise Refused
            if isinstance(i, int):
                continue
            if i[0] == 's':
                if i[3] == 0:
                    raise Refused
                out.append(count(dim, i))
            elif any(not isinstance(k, int) for k in i[1]):
                raise Refused
            else:
                out.append(('fixed', len(i[1])))
            continue
        if m[0] != 'rec':
            raise Refused
        if items:
            raise Refused
        fields = m[1]
        names = [n for n, _ in fields]
        if isinstance(i, str):
            if i not in names:
                raise Refused
            part = fields[names.index(i)][1]
            return ('D', tuple(out) + part[1], part[2])
        if isinstance(i, int):
            if not -len(fields) <= i < len(fields):
                raise Refused
            part = fields[i][1]
            return ('D', tuple(out) + part[1], part[2])
        if i[0] == 's':
            if i[3] == 0:
                raise Refused
            return ('D', tuple(out),
                    ('rec', fields[slice(*i[1:])]))
        picked = []
        for x in i[1]:
            if isinstance(x, str):
                if x not in names:
                    raise Refused
                picked.append(fields[names.index(x)])
            else:
                if not -len(fields) <= x < len(fields):
                    raise Refused
                picked.append(fields[x])
        if len(set(n for n, _ in picked)) < len(picked):
            raise Refused
        return ('D', tuple(out), ('rec', tuple(picked)))
    return ('D', tuple(out) + tuple(dims), m)


REFUSAL = (TypeError, IndexError, KeyError, ValueError)


def model(case):
    d, items, bare = case
    items = list(items)
    x = M.build(d)
    idx = tuple(real(i) for i in items)
    if bare and len(idx) == 1 and idx[0] is not None:
        idx = idx[0]
    try:
        want = select(d, items)
    except Refused:
        try:
            got = x.subshape[idx]
        except REFUSAL:
            eq(M.abs_d(x), d, 'the indexed datashape')
            return ['refused']
        raise Violation('%s of %s is %s' % (srepr(idx), srepr(d),
                                            srepr(got)))
    got = x.subshape[idx]
    eq(M.abs_d(got), want, '%s of %s' % (srepr(idx), srepr(d)))
    eq(M.abs_d(x), d, 'the indexed datashape')
    if not isinstance(idx, tuple):
        eq(M.abs_d(x.subshape[(idx,)]), want, 'the same in a tuple')
    labels = []
    for i in items:
        labels.append('none' if i is None else 'int' if isinstance(i, int)
                      else 'name' if isinstance(i, str) else
                      {'s': 'slice', 'l': 'list', 'ln': 'names'}[i[0]])
    if want[1] and ('fixed', 0) in want[1]:
        labels.append('empty')
    if ('var',) in want[1]:
        labels.append('var')
    return labels


def like_numpy(case):
    import numpy as np
    sizes, items, m = case
    x = M.build(('D', tuple(('fixed', n) for n in sizes), m))
    a = np.broadcast_to(np.zeros((), 'i1'), tuple(sizes))
    idx = tuple(real(i) for i in items)
    lists = [i for i in idx if isinstance(i, list)]
    ints = [i for i in idx if isinstance(i, int)]
    if len(lists) > 1 or (lists and ints):
        raise Unspec()
    try:
        want = a[idx].shape
    except IndexError:
        raise Unspec()
    got = x.subshape[idx]
    eq(M.abs_d(got), ('D', tuple(('fixed', n) for n in want), m),
       '%s of %s' % (srepr(idx), sizes))
    return ['np'] + ['np:' + type(i).__name__ for i in idx] if idx else None


def step_st():
    return st.sampled_from((None, None, 1, 1, 2, 3, 5, -1, -2, -3, 7))


def bound(n):
    pts = [None, 0, 1, 2, 3, 5, -1, -2, -3]
    if n is not None:
        pts += [n, n - 1, n + 1, -n, -n - 1, n // 2]
    return st.sampled_from(pts)


def slice_st(n):
    return st.tuples(st.just('s'), bound(n), bound(n), step_st())


def strange(item):
    """Now and then, something that selects nothing from a dimension."""
    return M.weighted((40, item), (1, st.sampled_from((
        ('s', 0, 3, 0), ('s', None, 3, 0), ('s', None, None, 0),
        ('s', None, -1, 0), ('s', -2, None, 0), 'x', 'nope',
        ('ln', ('x',)), ('ln', ('x', 0)), ('ln', (0, None)),
        ('ln', ((0, 1), (1, 0))), ('ln', (1.0, 0))))))


def dim_item(dim):
    n = dim[1] if dim[0] == 'fixed' else None
    opts = [(4, slice_st(n))]
    if n is None:
        opts += [(2, st.integers(-5, 12)),
                 (1, st.tuples(st.just('l'), st.lists(
                     st.integers(-3, 20), max_size=4).map(tuple)))]
    elif n > 0:
        i = st.integers(-n, n - 1)
        opts += [(2, i), (1, st.tuples(st.just('l'), st.lists(
            i, max_size=4).map(tuple)))]
    else:
        opts.append((1, st.just(('l', ()))))
    return M.weighted(*opts)


@st.composite
def fielded(draw):
    dims = tuple(draw(st.lists(_dim, max_size=2)))
    fields = draw(_fields1)
    names = [n for n, _ in fields]
    n = len(names)
    field = M.weighted((8, st.sampled_from(names)), (4, st.integers(-n, n - 1)),
                       (1, st.sampled_from(('x', 'nope', n, -n - 1))))
    last = draw(M.weighted(
        (3, field), (2, slice_st(n)),
        (3, st.tuples(st.just('ln'), st.lists(field, max_size=4).map(tuple)))))
    items = [draw(strange(dim_item(dim))) for dim in dims] + [last]
    if not draw(st.integers(0, 9)):
        items.insert(draw(st.integers(0, len(dims))), None)
    return ('D', dims, ('rec', fields)), tuple(items), draw(st.booleans())


@st.composite
def indexed(draw):
    d = draw(M.datashapes(_cfg, depth=2))
    if draw(st.integers(0, 3)):
        dims = tuple(draw(st.lists(_dim, max_size=3)))
        if draw(st.integers(0, 2)):
            fields = draw(_fields)
            d = ('D', dims, ('rec', fields))
        else:
            d = ('D', dims, d[2])
    items = []
    stop = draw(st.sampled_from((1, 2, 3, 9, 9, 9, 9, 9)))
    for k, dim in enumerate(d[1]):
        if not draw(st.integers(0, 9)):
            items.append(None)
        if stop == k:
            break
        items.append(draw(strange(dim_item(dim))))
    else:
        if d[2][0] == 'rec' and draw(st.integers(0, 3)):
            names = [n for n, _ in d[2][1]] + ['x', 'nope']
            n = len(names) - 2
            field = M.weighted((4, st.sampled_from(names)),
                               (2, st.integers(-n, max(n - 1, 0))))
            items.append(draw(M.weighted(
                (3, field), (2, slice_st(n)),
                (2, st.tuples(st.just('ln'),
                              st.lists(field, max_size=3).map(tuple))))))
        if not draw(st.integers(0, 9)):
            items.append(draw(st.sampled_from((None, 0, 'x', ('s', None, 2,
                                                              None)))))
    return d, tuple(items), draw(st.booleans())


@st.composite
def np_case(draw):
    sizes = draw(st.lists(st.integers(0, 9), min_size=1, max_size=4))
    items = []
    for n in sizes[:draw(st.integers(1, 4))]:
        if not draw(st.integers(0, 9)):
            items.append(None)
        items.append(draw(dim_item(('fixed', n))))
    return tuple(sizes), tuple(items), draw(M.leaf_st(_cfg))


_cfg = M.Cfg(dims=('fixed', 'var'))
_dim = M.weighted((3, st.tuples(st.just('fixed'), st.integers(0, 12))),
                  (2, st.just(('var',))),
                  (1, st.tuples(st.just('fixed'),
                                st.sampled_from((100, 2**31, 10**20)))))
_fields = st.lists(st.tuples(_cfg.names, M.datashapes(_cfg, 1)), max_size=4,
                   unique_by=lambda f: f[0]).map(tuple)
_fields1 = st.lists(st.tuples(_cfg.names, M.datashapes(_cfg, 1)), min_size=1,
                    max_size=5, unique_by=lambda f: f[0]).map(tuple)
_v = ('D', (('var',),), ('p', 'int32'))
_f = ('D', (('fixed', 10),), ('p', 'int32'))

def every_slice(tier):
    """Every small slice of every small dimension."""
    pts = (None,) + tuple(range(-4, 6))
    steps = (None, 1, 2, 3, -1, -2, -3, 0)
    for n in (None, 0, 1, 2, 3, 4):
        d = ('D', (('var',) if n is None else ('fixed', n), ('fixed', 7)),
             ('p', 'int32'))
        for a in pts:
            for b in pts:
                for c in steps:
                    yield d, (('s', a, b, c),), (a is None) != (b is None)
        for k in range(-n if n else 0, n if n is not None else 4):
            yield d, (k,), True
            yield d, (None, k, None), True
            for j in range(-n if n else 0, n if n is not None else 4):
                yield d, (('l', (k, j)),), True


def every_item(tier):
    i32 = ('D', (), ('p', 'int32'))
    recs = [('rec', ()), ('rec', (('a', i32),)),
            ('rec', (('a', i32), ('b', ('D', (('var',),), ('p', 'bool'))))),
            ('rec', (('b', i32), ('a', ('D', (), ('rec', (('a', i32),)))),
                     ('c', i32)))]
    ms = recs + [('p', 'int32'), ('tup', (i32,)),
                 ('opt', i32), ('str', None, 'U8')]
    fields = (None, 'a', 'b', 'zz', 0, 1, -1, ('s', None, 1, None),
              ('s', 1, None, None), ('s', None, None, -1), ('s', 0, 3, 0),
              ('ln', ('a',)), ('ln', ('b', 'a')), ('ln', ('a', 'a')),
              ('ln', (0, 1)), ('ln', (-1,)), ('ln', ()), ('ln', ('a', 1)),
              ('ln', ('zz',)))
    dims = (('fixed', 0), ('fixed', 1), ('fixed', 3), ('var',))
    at = {0: (('s', None, None, None), ('l', ()), None),
          1: (('s', None, None, None), 0, -1, ('l', (0,)), None, 'a'),
          3: (('s', None, None, None), 0, -1, ('l', (0, 2)), None,
              ('s', 1, None, None), ('s', None, None, -2), 'a',
              ('ln', ('a',)))}
    at[None] = at[3]

    def items(dim):
        return at[dim[1] if dim[0] == 'fixed' else None]
    for m in ms:
        for f in fields:
            yield ('D', (), m), (f,), True
            yield ('D', (), m), (f,), False
            for g in fields if tier != 'quick' else fields[:6]:
                yield ('D', (), m), (f, g), False
        for x in dims:
            for i in items(x):
                yield ('D', (x,), m), (i,), True
                for f in fields:
                    yield ('D', (x,), m), (i, f), False
                for y in dims:
                    for j in items(y):
                        yield ('D', (x, y), m), (i, j), False
                        for f in fields[1:5] + fields[11:13]:
                            yield ('D', (x, y), m), (i, j, f), False


SUBS = [
    Sub('slices', None, model, exhaustive=every_slice),
    Sub('items', None, model, exhaustive=every_item),
    Sub('model', indexed, model, quick=8000, regress=[
        (_v, (('s', 0, 7, 2),), True), (_f, (('s', None, None, -1),), True),
        (_f, (('s', 5, 2, -1),), True), (_f, (('s', 7, 3, None),), True),
        (_v, (('s', 3, None, None),), True), (_v, (('s', None, -1, 2),), True),
    ]),
    Sub('fields', fielded, model, quick=6000),
    Sub('like_numpy', np_case, like_numpy, quick=6000),
]
