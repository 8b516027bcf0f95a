"""C31: searching a datashape finds its parts of a kind."""
from hypothesis import strategies as st

from .. import model as M
from .. import small as S
from ..core import Sub, Violation, check, eq, srepr

ID = 'C31'
RULE = ('a random datashape, alone or in nested lists and tuples with others, '
        'and one to three classes of type: collect() must give, in order, the '
        'outermost parts of these classes, wherever they are, has() whether '
        'there is one; the same for one given part and for a predicate that '
        'nothing or everything satisfies; traverse() must call its function '
        'once for every composite part, after its own parts. Non-trivial: a '
        'datashape with a composite measure or several dimensions.')
ASSUMPTIONS = (
    'collect() gives any iterable; parts which are no types (numbers, '
    'texts) are not spoken about',)

CLASSES = {
    'p': 'CType', 'bytes': 'Bytes', 'null': 'Null', 'date': 'Date',
    'json': 'JSON', 'str': 'String', 'time': 'Time', 'datetime': 'DateTime',
    'td': 'TimeDelta', 'units': 'Units', 'dec': 'Decimal',
    'cat': 'Categorical', 'rec': 'Record', 'tup': 'Tuple', 'fun': 'Function',
    'map': 'Map', 'opt': 'Option', 'tv': 'TypeVar', 'fixed': 'Fixed',
    'var': 'Var', 'ell': 'Ellipsis'}
LEAVES = ('p', 'bytes', 'null', 'date', 'json', 'str', 'time', 'datetime',
          'td', 'dec', 'fixed', 'var', 'tv')


def parts(d, hit):
    """The outermost parts of a model for which hit() is true, in order."""
    out = []
    for dim in d[1]:
        if hit(dim):
            out.append(dim)
        elif dim[0] == 'ell' and dim[1] is not None and hit(('tv', dim[1])):
            out.append(('tv', dim[1]))
    m = d[2]
    if hit(m):
        out.append(m)
    else:
        for c in M.children(m):
            out += parts(c, hit)
    return out


def read(x):
    from datashape import coretypes as ct
    if isinstance(x, (ct.Fixed, ct.Var, ct.Ellipsis)):
        return M.abs_dim(x)
    return M.abs_m(x)


def packed(ds, shape):
    """The datashapes in a nested list or tuple."""
    if len(ds) == 1 and shape % 3 == 0:
        return ds[0]
    if shape % 3 == 1:
        return list(ds)
    if len(ds) > 1 and shape % 2:
        return (ds[0], tuple(ds[1:]))
    return tuple(ds)


def find(case):
    import datashape as ds
    from datashape.util import collect, has
    models, kinds, nth, shape = case
    objs = [M.build(d) for d in models]
    arg = packed(objs, shape)
    classes = tuple(getattr(ds.coretypes, CLASSES[k]) for k in kinds)
    want = []
    for d in models:
        want += parts(d, lambda m: m[0] in kinds)
    got = list(collect(lambda t: isinstance(t, classes), arg))
    eq([read(x) for x in got], want, 'collect %s in %s' % (
        '/'.join(kinds), srepr(models)))
    got = has(classes, arg)
    check(bool(got) == bool(want), 'has(%s) in %s is %s', '/'.join(kinds),
          srepr(models), srepr(got))
    if len(classes) == 1:
        check(bool(has(classes[0], arg)) == bool(want), 'has() of one class')
    # one given part
    leaves = []
    for d in models:
        leaves += parts(d, lambda m: m[0] in LEAVES)
    if leaves:
        pick = leaves[nth % len(leaves)]
        obj = M.build_dim(pick) if pick[0] in ('fixed', 'var') else \
            M.build_m(pick)
        got = list(collect(lambda t: t == obj and isinstance(t, type(obj)),
                           arg))
        eq([read(x) for x in got], [x for x in leaves if x == pick],
           'collect %s' % srepr(pick))
    eq(list(collect(lambda t: False, arg)), [], 'collect nothing')
    got = list(collect(lambda t: True, arg))
    check(len(got) == 1 and got[0] is arg, 'collect everything')
    got = list(collect(lambda t: isinstance(t, ds.DataShape), objs))
    check(len(got) == len(objs) and
          all(a is b for a, b in zip(got, objs)), 'collect datashapes')
    for d, x in zip(models, objs):
        eq(M.abs_d(x), d, 'the argument')
    if all(len(d[1]) < 2 and not M.children(d[2]) for d in models):
        return None
    return ['found %s' % min(len(want), 5)] + ['k:' + k for k in kinds]


def composites(d):
    """Composite parts, every one after the parts it is made of."""
    out = []
    for dim in d[1]:
        if dim[0] == 'ell':
            out.append('Ellipsis')
    m = d[2]
    if m[0] in ('units', 'cat', 'rec', 'tup', 'fun', 'map', 'opt', 'json'):
        for c in M.children(m):
            if m[0] == 'cat' or not c[1]:
                out += composites(c)
                if out and out[-1] == 'DataShape':
                    out.pop()
            else:
                out += composites(c)
        out.append(CLASSES[m[0]])
    out.append('DataShape')
    return out


def walk(case):
    from datashape.validation import traverse
    d = case
    x = M.build(d)
    seen = []

    def f(t, params):
        seen.append(type(t).__name__)
        eq(len(params), len(t.parameters), 'parts given with %s' % srepr(t))
        return ('done', type(t).__name__, params)
    got = traverse(f, x)
    # whether a type without dimensions is wrapped is not spoken about
    eq([s for s in seen if s != 'DataShape'],
       [s for s in composites(d) if s != 'DataShape'],
       'visited in %s' % srepr(d))
    eq(seen[-1], 'DataShape', 'visited last')
    check(seen.count('DataShape') >= sum(
        1 for y in M.walk(d) if y[1]), 'datashapes are left out')
    eq(got[:2], ('done', 'DataShape'), 'result')
    eq(len(got[2]), len(d[1]) + 1, 'results of the parts')
    eq(M.abs_d(x), d, 'the argument')
    return sorted(set(seen)) if len(seen) > 1 else None


def kinds():
    return st.lists(st.sampled_from(sorted(CLASSES)), min_size=1, max_size=3,
                    unique=True).map(tuple)


def towards(models, ks, nth, shape, n):
    """Mostly ask for kinds that are there."""
    have = sorted({k for d in models for x in M.walk(d)
                   for k in [x[2][0]] + [dim[0] for dim in x[1]]})
    if n:
        ks = tuple(sorted(set(ks[1:]) | {have[nth % len(have)]}))
    return tuple(models), ks, nth, shape


def present(d):
    return sorted({k for x in M.walk(d)
                   for k in [x[2][0]] + [dim[0] for dim in x[1]]})


SUBS = [
    Sub('small', None, walk, exhaustive=S.datashapes),
    Sub('small_find', None, find, exhaustive=lambda tier: [
        ((d,), (k,), 0, i % 6) for i, d in enumerate(S.datashapes(tier))
        for k in present(d)]),
    Sub('find', lambda: st.builds(
        towards, st.lists(M.datashapes(M.Cfg(long=True), depth=3),
                          min_size=1, max_size=3),
        kinds(), st.integers(0, 40), st.integers(0, 5), st.integers(0, 3)),
        find, quick=4000),
    Sub('walk', lambda: M.datashapes(M.Cfg(long=True), depth=3), walk,
        quick=3000),
]
