"""C30: discovery of subclasses, registered types and unknown types."""
import collections
import datetime
import enum
import fractions

from hypothesis import strategies as st

from .. import model as M
from .. import small
from .. import values as V
from ..core import Sub, Violation, Unspec, check, eq, srepr
from .c19 import columns

ID = 'C30'
RULE = ('random nested values in which scalars and dictionary entries are '
        'replaced by objects of a class of one\'s own, registered with a '
        'datashape for each object, in which any part is replaced by an '
        'instance of a subclass, or in which one part is of a type nobody '
        'registered; the first two must be discovered like the original '
        'value, the last be refused with NotImplementedError. Non-trivial: '
        'something was replaced.')
ASSUMPTIONS = ('discover functions of one\'s own that fail are not spoken '
               'about',)


class Int(int):
    pass


class Float(float):
    pass


class Text(str):
    pass


class Bytes(bytes):
    pass


class List(list):
    pass


class Tup(tuple):
    pass


class Dict(dict):
    pass


class Ordered(collections.OrderedDict):
    pass


class Date(datetime.date):
    pass


class DateTime(datetime.datetime):
    pass


class Time(datetime.time):
    pass


class Delta(datetime.timedelta):
    pass


class Colour(enum.IntEnum):
    red = 1
    blue = 7


class Mine(object):
    """Carries the datashape it has."""

    def __init__(self, ds):
        self.ds = ds


class Base(object):
    def __init__(self, ds):
        self.ds = ds


class Derived(Base):
    """Registered only through its base class."""


class Row(list):
    """A list with a meaning of its own."""
    ds = None


class Stranger(object):
    pass


class Sized(object):
    """Iterable, but nothing anyone knows."""

    def __len__(self):
        return 2

    def __iter__(self):
        return iter((1, 2))

    def __getitem__(self, i):
        return (1, 2)[i]


class Keyed(collections.UserDict):
    pass


_done = []


def register():
    from datashape import discover
    if not _done:
        _done.append(1)
        for cls in (Mine, Base, Row):
            discover.register(cls)(lambda x: x.ds)


def build(v, n, f):
    """The value of a description, parts replaced by f."""
    k = v[0]
    got = f(v, n)
    if got is not None:
        return got
    if k == 'L':
        return [build(x, n, f) for x in v[1]]
    if k == 'T':
        return tuple(build(x, n, f) for x in v[1])
    if k == 'D':
        return dict((key, build(x, n, f)) for key, x in v[1])
    if k == 'OD':
        return collections.OrderedDict((key, build(x, n, f))
                                       for key, x in v[1])
    return V.value(v)


def leafy(v):
    return v[0] not in ('L', 'T', 'D', 'OD', 'MP')


def own(ds, n):
    k = n.pick(3)
    if k == 2:
        x = Row([1, 'a'])
        x.ds = ds
        return x
    return (Mine, Derived)[k](ds)


def registered(case):
    import datashape
    register()
    v, nums = case
    count = []

    def f(x, n):
        if leafy(x):
            if n.pick(2):
                count.append('leaf')
                # not a list: those are looked into
                return (Mine, Derived)[n.pick(2)](
                    datashape.discover(V.value(x)))
        elif x[0] in ('D', 'OD') and n.pick(2):
            # the entries of a dictionary are discovered each for itself
            def entry(y):
                if n.pick(2):
                    count.append('entry:' + y[0])
                    return own(datashape.discover(V.value(y)), n) \
                        if x is v else (Mine, Derived)[n.pick(2)](
                            datashape.discover(V.value(y)))
                return build(y, n, f)
            make = dict if x[0] == 'D' else collections.OrderedDict
            return make([(key, entry(y)) for key, y in x[1]])
        return None
    value = build(v, M.Noise(nums), f)
    want = datashape.discover(V.value(v))
    got = datashape.discover(value)
    eq(M.abs_d(got), M.abs_d(want), 'with parts replaced by one\'s own, %s'
       % srepr(v))
    return sorted(set(count)) or None


SUBCLASS = {
    'i': lambda v, n: (Int(v[1]), Colour.red)[n.pick(2)],
    'f': lambda v, n: Float(v[1]), 's': lambda v, n: Text(v[1]),
    'by': lambda v, n: Bytes(v[1]), 'd': lambda v, n: Date(*V.clock(v)),
    'dt': lambda v, n: DateTime(*V.clock(v)), 't': lambda v, n: Time(*V.clock(v)),
    'td': lambda v, n: Delta(microseconds=v[1]),
}


def subclasses(case):
    import datashape
    v, nums = case
    count = []

    def f(x, n):
        if not n.pick(2):
            return None
        k = x[0]
        if k in SUBCLASS:
            count.append('sub:' + k)
            return SUBCLASS[k](x, n)
        if k in ('L', 'T', 'D', 'OD'):
            count.append('sub:' + k)
        if k == 'L':
            return List([build(y, n, f) for y in x[1]])
        if k == 'T':
            items = [build(y, n, f) for y in x[1]]
            if items and n.pick(2):
                return collections.namedtuple(
                    'P', ['x%d' % i for i in range(len(items))])(*items)
            return Tup(items)
        if k == 'D':
            items = [(key, build(y, n, f)) for key, y in x[1]]
            if n.pick(2):
                return collections.defaultdict(int, items)
            return Dict(items)
        if k == 'OD':
            return Ordered([(key, build(y, n, f)) for key, y in x[1]])
        return None
    value = build(v, M.Noise(nums), f)
    want = datashape.discover(V.value(v))
    got = datashape.discover(value)
    eq(M.abs_d(got), M.abs_d(want), 'with subclasses, %s' % srepr(v))
    return sorted(set(count)) or None


STRANGE = (
    lambda: object(), lambda: Stranger(), lambda: Sized(), lambda: Keyed(a=1),
    lambda: Stranger, lambda: len, lambda: iter([1]), lambda: range(3),
    lambda: bytearray(b'a'), lambda: memoryview(b'a'), lambda: Ellipsis,
    lambda: NotImplemented, lambda: fractions.Fraction(1, 2),
    lambda: (x for x in (1, 2)), lambda: collections.deque([1]),
    lambda: {'a': 1}.keys(), lambda: slice(1), lambda: lambda: 1,
    lambda: datetime.timezone.utc)


def unknown(case):
    import datashape
    register()
    v, nums, which = case
    make = STRANGE[which % len(STRANGE)]
    leaves = []

    def count(x, n):
        if leafy(x):
            leaves.append(x)
        return None
    build(v, M.Noise(()), count)
    if v[0] == 'MP' or not leaves:
        raise Unspec()
    target = nums[0] % len(leaves) if nums else 0
    seen = []

    def f(x, n):
        if leafy(x):
            seen.append(x)
            if len(seen) - 1 == target:
                return make()
        return None
    value = build(v, M.Noise(()), f)
    try:
        # (how to discover may be told, to those who know what it means)
        got = datashape.discover(make(), how=which)
    except NotImplementedError:
        pass
    else:
        raise Violation('%s, with how=%d, is discovered as %s' % (
            srepr(make()), which, srepr(got)))
    try:
        got = datashape.discover(value)
    except NotImplementedError:
        return ['strange:%d' % (which % len(STRANGE))]
    raise Violation('%s in the place of part %d of %s is discovered as %s' % (
        srepr(make()), target, srepr(v), srepr(got)))


_any = st.one_of(columns(), V.values())

PATTERNS = ((1,), (1, 0), (0, 1), (1, 1, 0), (0, 0, 1), (0, 1, 0, 0), (1, 2))


def few_replaced(tier):
    vs = small.values()
    step = 1 if tier == 'thorough' else 4
    for i, v in enumerate(vs[:2000] + vs[2000::step]):
        for j, p in enumerate(PATTERNS):
            if tier == 'thorough' or (i + j) % 3 == 0 or i < 200:
                yield v, p


def few_unknown(tier):
    vs = [v for v in small.values() if v[0] != 'MP']
    for i, v in enumerate(vs[:300]):
        for w in range(len(STRANGE)):
            for target in range(2):
                yield v, (target,), w
    for i, v in enumerate(vs[300:]):
        for target in range(3):
            if tier == 'thorough' or (i + target) % 5 == 0:
                yield v, (target,), i % len(STRANGE)


SUBS = [
    Sub('small_registered', None, registered, exhaustive=few_replaced),
    Sub('small_subclasses', None, subclasses, exhaustive=few_replaced),
    Sub('small_unknown', None, unknown, exhaustive=few_unknown),
    Sub('registered', lambda: st.tuples(_any, st.lists(st.integers(0, 719), min_size=9, max_size=30)), registered,
        quick=5000),
    Sub('subclasses', lambda: st.tuples(_any, st.lists(st.integers(0, 719), min_size=9, max_size=30)), subclasses,
        quick=5000),
    Sub('unknown', lambda: st.tuples(_any, M.noises(3),
                                     st.integers(0, 719)), unknown,
        quick=3000),
]
