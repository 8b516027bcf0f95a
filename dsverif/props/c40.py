"""C40: nothing that was given is kept."""
import gc
import sys

from hypothesis import strategies as st

from .. import model as M
from .. import remote
from .. import texts as T
from .. import values as V
from ..core import Sub, Unspec, check, srepr

ID = 'C40'
RULE = ('everything that can be done with datashapes, texts and values is '
        'done with long rows of them which all differ (in a name, a size, a '
        'category, a number, a text), around random datashapes, texts and '
        'values; the blocks of memory in use, counted after collecting '
        'garbage, may not grow with the number done. Non-trivial: every '
        'case.')
ASSUMPTIONS = ('types registered by name, and classes, may be kept',)

# NumPy and Python keep some freed memory, up to a bound
FIRST, ROWS, BATCHES = 40, 100, 15


def variant(case, i):
    """The case, made different from all others."""
    d, e, text, v = case
    at = ('D', (), ('p', 'int32'))
    enum = ('cat', ('a', 'k%d' % i), ('str', None, 'U8'), False)
    pair = ('D', (('var',),), ('tup', (('D', (), ('dec', i + 1, 1)), at)))
    func = ('D', (), ('fun', (('D', (), ('tv', 'T%d' % i)), at), (
        'D', (), ('map', at, pair))))
    free = ('D', (('ell', 'E%d' % i), ('tv', 'N%d' % i)), ('opt', func))
    one = ('D', (('fixed', i + 2),), ('rec', (
        ('f%d' % i, d), ('s', ('D', (), ('str', i + 1, 'U8'))),
        ('v', free if i % 2 else at), ('c', ('D', (), enum)),
        ('u', ('D', (), ('units', 'u%d' % i, at))),
        ('z', ('D', (), ('datetime', 'Z%d' % i))))))
    two = ('D', e[1], e[2]) if i % 3 else ('D', (), ('dec', i + 3, 2))
    text = (text, '{f%d: %s}' % (i, text), '%d * %s' % (i, text),
            "{x%d: string['A', %d}" % (i, i), 'n%d' % i)[i % 5]
    w = ('D', (('f%d' % i, v), ('s', ('s', 'text %d' % i)), ('n', ('i', i)),
               ('t', ('s', '%d days' % i)), ('w', ('L', (('i', i),) * (
                   i % 7))), ('d', ('s', '2014-01-01 10:00:00.%d' % i))))
    return one, two, text, w


def seen(case):
    """All that can be observed."""
    remote.observe(case)


def made(case):
    """Equal datashapes, copies, and conversions."""
    import copy
    import pickle

    import datashape as ds
    from datashape import validation
    from datashape.util import testing
    d, e, _, _ = case
    x, y = M.build(d), M.build(e)
    n = int(x.shape[0])
    s, t, z = ds.String(n), ds.String(n + 1, 'A'), ds.DateTime('Z%d' % n)
    b = ds.Record([('f%d' % n, 'int32')])
    for f in (lambda: ds.promote(s, t), lambda: ds.promote(ds.Option(s), t),
              lambda: ds.promote(s, s), lambda: ds.promote(z, ds.string),
              lambda: ds.optionify(ds.Option(s), t, t),
              lambda: ds.optionify(s, t, t), lambda: ds.maxtype(s),
              lambda: ds.to_numpy(3 * s), lambda: ds.to_numpy(b),
              lambda: b['f%d' % n], lambda: hash(b), lambda: ds.dshape(b),
              lambda: b == s, lambda: s in ds.scalar, lambda: ds.isreal(z),
              lambda: ds.typesets.supertype(s),
              lambda: ds.matches_typeset((s, t), (ds.numeric, ds.scalar)),
              lambda: ds.CType.from_numpy_dtype(ds.to_numpy_dtype(s)),
              lambda: ds.cat_dshapes([x, x]), lambda: ds.Fixed(n) == n,
              lambda: str(ds.Ellipsis(ds.TypeVar('T%d' % n))),
              lambda: ds.Categorical(['k%d' % n, 'b'], ordered=True),
              lambda: ds.TimeDelta('unit%d' % n), lambda: ds.Decimal(n, 2),
              lambda: hash(x), lambda: x == y, lambda: copy.deepcopy(x),
              lambda: pickle.loads(pickle.dumps(x)), lambda: repr(x),
              lambda: ds.to_numpy(x.measure), lambda: ds.to_numpy(x),
              lambda: ds.from_numpy((3,), ds.to_numpy_dtype(x.measure)),
              lambda: testing.assert_dshape_equal(x, y),
              lambda: testing.assert_dshape_equal(x, M.build(d)),
              lambda: validation.validate(x), lambda: ds.issubschema(x, y),
              lambda: x.subarray(1), lambda: x.subshape[0:1],
              lambda: x.subshape[0, 's'], lambda: x.info(),
              lambda: ds.TypeSet(x, y) | ds.integral,
              lambda: x in ds.numeric, lambda: ds.optionify(x, y, x),
              lambda: ds.pprint(x, 20), lambda: 3 * x, lambda: x * 'int32',
              lambda: ds.dshapes(x, str(y)), lambda: ds.isnumeric(x),
              lambda: ds.dshape(x), lambda: ds.has(ds.Record, x),
              lambda: ds.DataShape(*x.parameters)):
        try:
            f()
        except Exception:
            pass


def held(values):
    """Discovery and validation of NumPy arrays and of big values."""
    import numpy as np

    import datashape as ds
    v = V.value(values[3])
    n = v['n']
    for f in (lambda: ds.discover(np.zeros(n % 50, dtype=[
            ('f%d' % n, 'i4'), ('s', 'U%d' % (n % 40 + 1))])),
              lambda: ds.discover(np.array(['a', 'x%d' % n], dtype=object)),
              lambda: ds.discover([v, v]), lambda: ds.discover([[v], [n]]),
              lambda: ds.discover(np.datetime64(n, 'D')),
              lambda: ds.validate('var * {n: int64}', [v]),
              lambda: ds.validate('var * int64', list(range(n))),
              lambda: ds.validate('{s: string}', np.array([n])),
              lambda: ds.discover('%d %s' % (n, 'parsec')),
              lambda: ds.discover('1%d:00' % n),
              lambda: ds.discover(object()),
              lambda: ds.discover((tuple(range(n % 30)), [n])),
              lambda: ds.discover(frozenset((n, str(n))))):
        try:
            f()
        except Exception:
            pass


def blocks():
    gc.collect()
    return sys.getallocatedblocks()


def forgotten(case):
    case, which = case
    f = (seen, made, held)[which]
    done = 0

    def more(n):
        nonlocal done
        for i in range(done, done + n):
            f(variant(case, i))
        done += n
    more(FIRST)
    counts = [blocks()]
    for _ in range(BATCHES):
        more(ROWS)
        counts.append(blocks())
        if counts[-1] - counts[-2] < ROWS // 4:
            return [f.__name__, 'batches %d' % (len(counts) - 1)]
    check(False, 'blocks of memory in use after every %d of %s around %s: %s',
          ROWS, f.__name__, srepr(case), counts)


def cases():
    return st.tuples(st.tuples(
        M.datashapes(depth=2), M.datashapes(depth=1),
        st.one_of(T.valid_text(), T.valid_text(), T.mutated_text()),
        V.values()), st.integers(0, 2))


SUBS = [
    Sub('forgotten', cases, forgotten, quick=240, mult=8),
]
