"""C36: the work done stays in proportion to what it is done on."""
import copy
import pickle
import sys

from hypothesis import strategies as st

from .. import model as M
from .. import texts as T
from .. import values as V
from ..core import Sub, Violation, check, srepr

ID = 'C36'
RULE = ('texts nested in a random cycle of constructs, or with a repeated '
        'random part, at three sizes, each twice the one before; and values '
        'made likewise. The lines of Python run to parse, refuse, '
        'print, lay out, hash, compare, copy, pickle, search, describe, '
        'convert, put side by side, unite, discover or validate are '
        'counted, and may not grow faster '
        'than the square of the size from the second size to the third '
        '(sixfold, and some lines). Non-trivial: every case.')
ASSUMPTIONS = ('work is the lines of Python code run; what NumPy, re and '
               'pickle do within is not counted',
               'cubic growth is the least that is told from quadratic',)

SLACK = 3000


class TooMuch(BaseException):
    pass


class Tracer(object):
    def __init__(self, limit):
        self.n = 0
        self.limit = limit

    def __call__(self, frame, event, arg):
        self.n += 1
        if self.n > self.limit:
            raise TooMuch()
        return self


def effort(f, limit):
    """How many lines f() runs; and what it returns or raises."""
    t = Tracer(limit)
    before = sys.gettrace()
    sys.settrace(t)
    try:
        try:
            out = f()
        finally:
            sys.settrace(before)
    except TooMuch:
        return None, None
    except Exception as e:
        return t.n, type(e).__name__
    return t.n if t.n <= limit else None, out


def grows(what, sizes, make, f):
    """Do f on what is made in every size."""
    counts = []
    limit = 1000000
    out = None
    for s in sizes:
        args = make(s)
        n, out = effort(lambda: f(*args), limit)
        if n is None:
            raise Violation('%s: %s lines for the sizes %s, over %d for %d' % (
                what, counts, sizes[:len(counts)], limit, s))
        counts.append(n)
        if len(counts) == 2:
            limit = 6 * n + SLACK
    return out


def ops():
    import datashape as ds
    from datashape import coretypes as ct
    from datashape.util import collect
    from datashape.util.testing import assert_dshape_equal

    def unequal(x, y, z):
        try:
            assert_dshape_equal(x, z)
        except AssertionError as e:
            return str(e)
    return (
        ('str', lambda x, y, z: str(x)),
        ('repr', lambda x, y, z: (repr(x), repr(x.measure))),
        ('pprint 80', lambda x, y, z: ds.pprint(x, 80)),
        ('pprint 1', lambda x, y, z: ds.pprint(x, 1)),
        ('hash', lambda x, y, z: hash(x)),
        ('==', lambda x, y, z: x == y),
        ('!=', lambda x, y, z: x != z),
        ('assert equal', lambda x, y, z: assert_dshape_equal(x, y)),
        ('assert equal, false', unequal),
        ('pickle', lambda x, y, z: pickle.loads(pickle.dumps(x, 2))),
        ('copy', lambda x, y, z: copy.deepcopy(x)),
        ('collect', lambda x, y, z: list(collect(
            lambda t: isinstance(t, ct.CType), x))),
        ('has_var_dim', lambda x, y, z: ds.has_var_dim(x)),
        ('isfixed', lambda x, y, z: ds.isfixed(x)),
        ('ishomogeneous', lambda x, y, z: ds.ishomogeneous(x)),
        ('to_numpy', lambda x, y, z: ds.to_numpy(x)),
        ('dshape', lambda x, y, z: ds.dshape([x])),
        ('subshape', lambda x, y, z: x.subshape[0]),
        ('subarray', lambda x, y, z: x.subarray(1)),
        ('in a set', lambda x, y, z: len({x, y, z})),
        ('promote', lambda x, y, z: ds.promote(x, y)),
        ('maxtype', lambda x, y, z: ds.maxtype(x)),
    )


def of_text(sizes, text, leaf, other='int64'):
    import datashape as ds
    texts = dict((s, text(s, leaf)) for s in sizes)
    how = grows('parsing %s' % srepr(texts[sizes[0]]), sizes,
                lambda s: (texts[s],), ds.dshape)
    if isinstance(how, str):
        return ['refused']

    def trio(s):
        # the last differs as far within as can be
        return (ds.dshape(texts[s]), ds.dshape(texts[s]),
                ds.dshape(text(s, other)))
    for what, f in ops():
        grows('%s of %s' % (what, srepr(texts[sizes[0]])), sizes, trio, f)
    return ['accepted']


def deep(case):
    wraps, leaf, n = case
    n = max(1, n // len(wraps))
    # (whole cycles, as some work ends at certain constructs)
    return of_text((n, 2 * n, 4 * n), lambda s, l: T.nest((wraps * s, l)),
                   leaf)


WIDE = (
    lambda p, n: '{%s}' % ', '.join('f%d: %s' % (i, p) for i in range(n)),
    lambda p, n: '(%s)' % ', '.join([p] * n),
    lambda p, n: '(%s) -> int32' % ', '.join([p] * n),
    lambda p, n: '3 * ' * n + p,
    lambda p, n: 'var * A * ' * n + p,
    lambda p, n: 'categorical[[%s], type=int32]' % ', '.join(
        map(str, range(n))),
    lambda p, n: 'categorical[[%s]]' % ', '.join("'c%d'" % i
                                                 for i in range(n)),
    lambda p, n: '{%s: %s}' % ('f' * 8 * n, p),
    lambda p, n: "{'%s': %s}" % ('f ' * 8 * n, p),
    lambda p, n: "datetime[tz='%s']" % ('z\\t' * n),
    lambda p, n: ' # a remark\n' * n + p,
    lambda p, n: p + '  \n' * n + '#' * n,
    lambda p, n: 'struct[[%s], [%s]]' % (
        ', '.join("'f%d'" % i for i in range(n)), ', '.join([p] * n)),
    lambda p, n: 'tuple[[%s]]' % ', '.join([p] * n),
    lambda p, n: '%d * %s' % (10 ** n, p),
    lambda p, n: p + ' ]' * n,
    lambda p, n: '{' * n + p,
    lambda p, n: '(' * n + p,
    lambda p, n: '?' * n + p,
    lambda p, n: 'option[' * n + p,
    lambda p, n: '{a: ' * n + p,
    lambda p, n: '(int32) -> ' * n + p + ' ->',
    lambda p, n: '{%s' % ', '.join('f%d: %s' % (i, p) for i in range(n)),
    lambda p, n: '(%s, ,)' % ', '.join([p] * n),
    lambda p, n: '3 * ' * n,
    lambda p, n: 'map[int32, ' * n + p + ']' * (n - 1),
    # what a lexer may turn over and over before it gives up
    lambda p, n: '{"' + 'ab c' * 8 * n + ': ' + p,
    lambda p, n: "{'" + 'ab c' * 8 * n + ': ' + p,
    lambda p, n: 'datetime["' + '\\t\\u0041x' * 8 * n + '\\q"]',
    lambda p, n: "datetime['" + '\\t\\u0041x' * 8 * n + "\\q']",
    lambda p, n: '{"' + 'ab c' * 8 * n + '\n": ' + p,
    lambda p, n: "{'" + "it\\'s" * 8 * n + '\r' + "': " + p,
    lambda p, n: '7' * 16 * n + '! * ' + p,
    lambda p, n: '0' * 16 * n + ' * ' + p,
    lambda p, n: '-' * 16 * n + '1 * ' + p,
    lambda p, n: 'a1_' * 16 * n + '$' + p,
    lambda p, n: p + ' \t' * 16 * n + '!',
    lambda p, n: p + ' #' * 16 * n + '\n!',
    lambda p, n: p + '\n\r' * 16 * n + '!',
    lambda p, n: '.' * 16 * n + ' * ' + p,
    lambda p, n: 'A' * 16 * n + '.. * ' + p,
    lambda p, n: "'" * 16 * n + p,
    lambda p, n: '"' * 16 * n + p,
    lambda p, n: '->' * 16 * n + p,
)
PARTS = ('int32', '?string', '3 * var * bool', '{a: int32, b: 2 * ?A}',
         '(int32, (bool))', '(A) -> B', "datetime[tz='UTC']", 'decimal[5, 2]',
         'string[3, "A"]', 'map[int32, {a: bool}]', 'int3', 'option[?int32]')


def wide(case):
    form, part, n = case
    return of_text((n, 2 * n, 4 * n),
                   lambda s, p: WIDE[form % len(WIDE)](p, s), PARTS[part])


BOXES = (
    lambda v: [v],
    lambda v: (v,),
    lambda v: {'a': v},
    lambda v: [v, None],
    lambda v: [[v, 1]],
    lambda v: (None, v),
    lambda v: [[v, 1], [0, 1]],
    lambda v: [(v, None), (None, 1)],
    lambda v: [{'a': v}, {'a': 0}],
    lambda v: [{'a': v}, {'b': 1}],
    lambda v: [{'a': {'b': v}, 'c': ''}, {'a': {'b': 0}}],
    lambda v: [[v, [1, 1]], [[0, 0], [1, 1]]],
    lambda v: [(1, v), ({}, [])],
    lambda v: {'a': v, 'b': [0]},
    lambda v: [{'a': v}, {'a': None}],
    lambda v: [[1, 2], [v, 'x'], [None, 2]],
)


def boxed(v, form, s):
    for f in form * s:
        v = BOXES[f](v)
    return v


def many(v, form, s):
    f = form[0] % 7
    if f == 0:
        return [v] * s
    if f == 1:
        return [(v, 1)] * s
    if f == 2:
        return [{'a': v}] * s
    if f == 3:
        return dict(('k%d' % i, v) for i in range(s))
    if f == 4:
        return tuple([v, None][i % 2] for i in range(s))
    if f == 5:
        return [[v] * s] * 3
    return [{'k%d' % i: v} for i in range(s)]


def values(case):
    import datashape as ds
    desc, form, n, box = case
    v = V.value(desc)
    make = boxed if box else many
    if box:
        n = max(1, n // 2 // len(form))
    sizes = (n, 2 * n, 4 * n)

    def put(s):
        return (make(v, form, s),)
    try:
        grows('discovering %s' % srepr(make(v, form, 1)), sizes, put,
              ds.discover)
        shape = dict((s, ds.dshape([ds.discover(make(v, form, s))]))
                     for s in sizes)
        grows('validating %s' % srepr(make(v, form, 1)), sizes,
              lambda s: (shape[s], make(v, form, s)), ds.validate)
    except RecursionError:
        raise Violation('too deep')
    return ['boxed' if box else 'many']


# what a word may be, of which a random text is made for the lexer
BITS = ('a', 'Z', '_', '1', '0', '7', '-', '"', "'", '\\', '\\u0041', '\\n',
        '\\u12', ' ', '\t', '\n', '#', '.', '...', '->', '*', '?', '{', 'int32',
        'caf\xe9', '\u0660', '$')


def words(case):
    import datashape as ds
    head, bits, tail, n = case
    bits = ''.join(BITS[b] for b in bits)
    text = dict((s, BITS[head] + bits * s + BITS[tail])
                for s in (8 * n, 16 * n, 32 * n))
    grows('parsing %s' % srepr(text[8 * n]), (8 * n, 16 * n, 32 * n),
          lambda s: (text[s],), ds.dshape)
    return ['words']


def pieces():
    """Datashapes side by side."""
    import datashape as ds
    from datashape import discovery as di
    from datashape import typesets as ty
    from datashape.user import issubschema
    from datashape.util import cat_dshapes, dshapes

    def sets(xs):
        t = ty.TypeSet(*[x.measure for x in xs])
        return len(t), repr(t), hash(t), [x.measure in t for x in xs]
    def matching(xs):
        ms = [x.measure for x in xs]
        return ty.matches_typeset(ms, tuple(
            ty.TypeSet(m) for m in reversed(ms)))

    def unite(f):
        return lambda xs: f(list(xs))
    return (
        ('cat_dshapes', lambda xs: cat_dshapes([3 * x for x in xs])),
        ('cat_dshapes (same)', lambda xs: cat_dshapes(
            [3 * xs[0] for x in xs])),
        ('dshapes', lambda xs: dshapes(*[str(x) for x in xs])),
        ('typesets', sets),
        ('matches_typeset', matching),
        ('unite_identical', unite(di.unite_identical)),
        ('unite_base', unite(di.unite_base)),
        ('unite_merge_dimensions', unite(di.unite_merge_dimensions)),
        ('do_one', unite(di.do_one([di.unite_identical, di.unite_base,
                                    di.unite_merge_dimensions]))),
        ('Record', lambda xs: ds.Record(
            [('f%d' % i, x) for i, x in enumerate(xs)])),
        ('Record.dict', lambda xs: [ds.Record(
            [('f%d' % i, x) for i, x in enumerate(xs)]).dict for _ in 'ab']),
        ('Record[...]', lambda xs: [r[n] for r in [ds.Record(
            [('f%d' % i, x) for i, x in enumerate(xs)])] for n in r.names]),
        ('Tuple', lambda xs: str(ds.Tuple(xs))),
        ('var', lambda xs: [str(ds.var * x) for x in xs]),
        ('issubschema', lambda xs: [issubschema(x, y)
                                    for x, y in zip(xs, xs[1:])]),
        ('predicates', lambda xs: [
            (ds.isdimension(x[0]), ds.ishomogeneous(x), ds.isfixed(x),
             ds.istabular(x), ds.iscollection(x), ds.isscalar(x),
             ds.isrecord(x), ds.isnumeric(x), ds.isreal(x), ds.isboolean(x),
             ds.isdatelike(x)) for x in xs]),
        ('promote all', lambda xs: [ds.promote(x.measure, y.measure)
                                    for x, y in zip(xs, xs[1:])]),
        ('supertype', lambda xs: [ds.maxtype(x.measure) for x in xs]),
    )


def side(case):
    import datashape as ds
    parts, n = case
    xs = [ds.dshape(SCALARS[p]) for p in parts]
    for what, f in pieces():
        grows('%s of %s' % (what, srepr(xs)), (n, 2 * n, 4 * n),
              lambda s: ([xs[i % len(xs)] for i in range(s)],), f)
    # all of them different
    for what, f in pieces():
        grows('%s of %s and many more' % (what, srepr(xs[0])),
              (n, 2 * n, 4 * n),
              lambda s: ([ds.dshape('%d * %s' % (i, SCALARS[parts[0]]))
                          for i in range(s)],), f)
    return ['side by side']


SCALARS = ('int32', '?int64', 'float64', 'string', 'null', 'bool', 'date',
           'datetime', '?string', "string[3, 'A']", 'decimal[5, 2]',
           '{a: int32}', '{a: ?int32, b: string}', '(int32, bool)',
           '{a: {b: null}}', 'uint8', 'complex64', 'A', 'var * int32',
           '3 * {a: int32}')


def every_side(tier):
    n = len(SCALARS)
    for a in range(n):
        yield [a], 8
        for b in range(n):
            if a != b and (tier == 'thorough' or (a + 3 * b) % 8 == 0):
                yield [a, b], 8


def every_word(tier):
    n = len(BITS)
    for head in range(n):
        for bit in range(n):
            for tail in (0, 7, 8, n - 1):
                if tier == 'thorough' or (head + bit + tail) % 4 == 0:
                    yield head, [bit], tail, 4


LEAVES = ('int32', 'A', '?string', '3 * bool', 'int3', '', '3', '{', ')',
          '{a: int32}', 'int32 ->', 'A... *')


def every_deep(tier):
    n = len(T.WRAPS)
    for a in range(n):
        for leaf in LEAVES:
            yield [a], leaf, 4
        for b in range(n):
            if a != b and (tier == 'thorough' or (a + b) % 2):
                yield [a, b], LEAVES[(a + 2 * b) % len(LEAVES)], 6


def every_wide(tier):
    for form in range(len(WIDE)):
        for part in range(len(PARTS)):
            if tier == 'thorough' or (form + part) % 2:
                yield form, part, 6


def every_box(tier):
    vs = (('i', 1), ('n',), ('s', 'a'), ('L', ()), ('f', '1.5'))
    for i, v in enumerate(vs):
        for a in range(len(BOXES)):
            if tier == 'thorough' or (i + a) % 2:
                yield v, [a], 6, True
            if a < 7:
                yield v, [a], 6, False
            for b in range(len(BOXES)):
                if a != b and (tier == 'thorough' or
                               (3 * a + b + i) % 10 == 0):
                    yield v, [a, b], 6, True


SUBS = [
    Sub('every_deep', None, deep, exhaustive=every_deep),
    Sub('every_wide', None, wide, exhaustive=every_wide),
    Sub('every_box', None, values, exhaustive=every_box),
    Sub('every_side', None, side, exhaustive=every_side),
    Sub('every_word', None, words, exhaustive=every_word),
    Sub('side', lambda: st.tuples(st.lists(
        st.integers(0, len(SCALARS) - 1), min_size=1, max_size=5),
        st.integers(5, 12)), side, quick=100),
    Sub('words', lambda: st.tuples(
        st.integers(0, len(BITS) - 1), st.lists(
            st.integers(0, len(BITS) - 1), min_size=1, max_size=4),
        st.integers(0, len(BITS) - 1), st.integers(3, 5)), words, quick=800),
    Sub('deep', lambda: st.tuples(
        st.lists(st.integers(0, len(T.WRAPS) - 1), min_size=1, max_size=3),
        st.sampled_from(('int32', 'A', '?string', '3 * bool', 'int3', '',
                         '3', '{', ')', '{a: int32}', 'int32 ->', 'A... *')),
        st.integers(3, 6)), deep, quick=500),
    Sub('wide', lambda: st.tuples(
        st.integers(0, len(WIDE) - 1), st.integers(0, len(PARTS) - 1),
        st.integers(4, 9)), wide, quick=300),
    Sub('values', lambda: st.tuples(
        st.one_of(V.scalars(V.ALL), V.table(0)),
        st.lists(st.integers(0, len(BOXES) - 1), min_size=1, max_size=3),
        st.integers(4, 9), st.booleans()), values, quick=500),
]
