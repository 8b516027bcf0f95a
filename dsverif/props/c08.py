"""C08: every way of constructing a type gives the same type."""
from collections import OrderedDict

from hypothesis import strategies as st

from .. import model as M
from .. import small
from ..core import Sub, Violation, check, eq, srepr

ID = 'C08'
RULE = ('random datashapes built along a randomly chosen route at every node '
        '(constructors with positional, keyword, aliased, NumPy-integer or '
        'text arguments; record fields as pairs, lists, OrderedDict, '
        'generator or R[...] literal; dimensions by multiplication, '
        'DataShape(...), dshape([...]), nested datashapes or parsed text); '
        'the result must equal the plainly constructed type in structure, '
        'equality, hash and text. Non-trivial: a nested type, dimension or '
        'parameter.')


class Ordered(OrderedDict):
    """A kind of OrderedDict."""


class Router(object):
    def __init__(self, nums, track):
        self.n = M.Noise(nums)
        self.track = track

    def via(self, name):
        self.track.add(name)

    def text(self, d):
        self.via('text')
        return M.plain_text(d)

    def integer(self, k):
        import numpy as np
        c = self.n.pick(4)
        if c == 1 and k < 2**31:
            self.via('np int')
            return np.int32(k)
        if c == 2 and 0 <= k < 2**63:
            self.via('np uint')
            return np.uint64(k)
        return k

    def nested(self, d):
        """An argument for a parameter that takes any type, or text."""
        c = self.n.pick(3)
        if c == 1:
            return self.text(d)
        return self.ds(d)

    def ds(self, d):
        """A DataShape, or the bare measure that is the same type."""
        if not d[1] and self.n.pick(2):
            self.via('bare measure')
            return self.m(d[2])
        return self.d(d)

    def dim(self, x):
        import datashape as ds
        if x[0] == 'fixed':
            if self.n.pick(2):
                self.via('int dim')
                return x[1]
            return ds.Fixed(self.integer(x[1]))
        if x[0] == 'var' and self.n.pick(2):
            return ds.var
        return M.build_dim(x)

    def d(self, d):
        import datashape as ds
        dims, m = d[1], d[2]
        c = self.n.pick(8)
        if c == 1:
            self.via('dshape(text)')
            return ds.dshape(self.text(d))
        if c == 2:
            self.via('dshape(list)')
            return ds.dshape([self.dim(x) for x in dims] + [self.m(m)])
        if c == 3:
            self.via('dshape(tuple)')
            return ds.dshape(tuple(self.dim(x) for x in dims) + (self.m(m),))
        if c == 4 and dims:
            self.via('product')
            return self.product(d)
        if c == 5 and len(dims) > 1:
            self.via('nested DataShape')
            inner = self.d(('D', dims[1:], m))
            return ds.DataShape(self.dim(dims[0]), inner)
        if c == 6 and dims:
            self.via('DataShape(..., text)')
            return ds.DataShape(*([self.dim(x) for x in dims] +
                                  [self.text(('D', (), m))]))
        if c == 7:
            self.via('dshapes')
            return ds.dshapes(self.text(d), 'int32')[0]
        return ds.DataShape(*([self.dim(x) for x in dims] + [self.m(m)]))

    def product(self, d):
        import datashape as ds
        dims, m = d[1], d[2]
        right = self.m(m)
        if self.n.pick(4) == 3:
            # some of the dimensions are in the text
            i = self.n.pick(len(dims) + 1)
            right = self.text(('D', dims[i:], m))
            dims = dims[:i]
            if not dims:
                right = ds.dshape(right)
        elif self.n.pick(2):
            right = ds.DataShape(right)
        elif self.n.pick(3) == 2:
            right = self.text(('D', (), m))
        for x in reversed(dims):
            left = M.build_dim(x)
            if x[0] == 'fixed' and not isinstance(right, str) \
                    and self.n.pick(2):
                left = x[1]
            right = left * right
        return right

    def m(self, m):
        import datashape as ds
        from datashape import coretypes as ct
        k = m[0]
        c = self.n.pick(6)
        if c == 5 and k != 'tv':
            return ds.dshape(self.text(('D', (), m))).measure
        if k == 'str':
            enc = self.n.of(M.ENC_SPELLINGS[m[2]])
            if m[1] is None:
                if m[2] == 'U8' and c in (0, 1):
                    return ds.String()
                return ds.String(None, enc) if c == 2 else ds.String(enc)
            if m[2] == 'U8' and c == 0:
                return ds.String(self.integer(m[1]))
            return ds.String(self.integer(m[1]), enc)
        if k in ('time', 'datetime'):
            cls = ds.Time if k == 'time' else ds.DateTime
            if m[1] is None and c == 0:
                return cls()
            return cls(tz=m[1]) if c == 1 else cls(m[1])
        if k == 'td':
            u = self.n.of(M.UNIT_SPELLINGS[m[1]])
            if m[1] == 'us' and c == 0:
                return ds.TimeDelta()
            if c == 1:
                u = ' %s ' % u
            return ds.TimeDelta(unit=u) if c == 2 else ds.TimeDelta(u)
        if k == 'dec':
            p = self.integer(m[1])
            if m[2] == 0 and c == 0:
                return ds.Decimal(p)
            if c == 1:
                return ds.Decimal(scale=m[2], precision=p)
            return ds.Decimal(p, m[2])
        if k == 'units':
            if m[2] == M.F64 and c == 0:
                return ds.Units(m[1])
            if c == 1:
                return ds.Units(tp=self.d(m[2]), unit=m[1])
            return ds.Units(m[1], self.d(m[2]))
        if k == 'cat':
            inner = ('D', (), m[2])
            ty = (self.m(m[2]), M.build(inner))[c % 2] if c < 4 \
                else self.text(inner)
            cats = (list, tuple, iter)[self.n.pick(3)](m[1])
            if not m[3] and c == 0:
                return ds.Categorical(cats, ty)
            if c == 1:
                return ds.Categorical(cats, ty, m[3])
            return ds.Categorical(categories=cats, ordered=m[3], type=ty)
        if k == 'rec':
            pairs = [(n, self.nested(x)) for n, x in m[1]]
            if c == 1:
                self.via('OrderedDict')
                return ds.Record((OrderedDict, Ordered)[
                    self.n.pick(2)](pairs))
            if c == 2:
                self.via('lists')
                return ds.Record([list(p) for p in pairs])
            if c == 3:
                self.via('generator')
                return ds.Record(p for p in pairs)
            if c == 4:
                self.via('R literal')
                if len(pairs) == 1:
                    n, x = pairs[0]
                    return ds.R[n:x]
                return ds.R[tuple(slice(n, x) for n, x in pairs)]
            return ds.Record(tuple(pairs))
        if k == 'tup':
            items = [self.ds(x) for x in m[1]]
            return ds.Tuple((list, tuple, iter)[c % 3](items))
        if k == 'fun':
            return ct.Function(*[self.ds(x) for x in m[1] + (m[2],)])
        if k == 'map':
            if c == 1:
                return ds.Map(value=self.nested(m[2]), key=self.nested(m[1]))
            return ds.Map(self.nested(m[1]), self.nested(m[2]))
        if k == 'opt':
            return ds.Option(self.nested(m[1]))
        return M.build_m(m)


def routes(case):
    d, nums = case
    track = set()
    plain = M.build(d)
    got = Router(nums, track).d(d)
    eq(M.abs_d(got), d, 'construction')
    check(got == plain and plain == got and not got != plain,
          'constructions of %s differ', srepr(d))
    eq(hash(got), hash(plain), 'hash of %s' % srepr(d))
    eq(str(got), str(plain), 'text')
    eq(repr(got), repr(plain), 'repr')
    kinds = M.kinds_of(d)
    if not d[1] and d[2][0] in ('p', 'null', 'date', 'json', 'bytes'):
        return None
    return ['k:' + k for k in kinds] + ['via ' + t for t in track]


def identity(case):
    """dshape() of a datashape is that datashape."""
    import datashape as ds
    d = case
    x = M.build(d)
    check(ds.dshape(x) is x, 'dshape(x) is another object')
    got = ds.dshapes(x, M.plain_text(d), list(x.parameters))
    eq([M.abs_d(y) for y in got], [d] * 3, 'dshapes')
    eq(M.abs_d(ds.DataShape(x)), d, 'DataShape(x)') if not d[1] else None
    m = M.build_m(d[2])
    for y in (ds.dshape(m), ds.dshapes(m)[0]):
        check(type(y) is ds.DataShape, 'dshape(%s) is a %s, not a datashape',
              srepr(m), type(y).__name__)
        eq(M.abs_d(y), ('D', (), d[2]), 'dshape(measure)')
    if d[2][0] == 'rec':
        # the views of a record agree with each other
        fs = d[2][1]
        eq(list(m.names), [n for n, _ in fs], 'names')
        eq([M.abs_d(t) for t in m.types], [t for _, t in fs], 'types')
        eq(dict((n, M.abs_d(t)) for n, t in m.dict.items()), dict(fs), 'dict')
        for n, t in fs:
            eq(M.abs_d(m[n]), t, 'item %s' % srepr(n))
        eq(tuple((n, M.abs_d(t)) for n, t in m.fields), fs, 'fields')
    if d[2][0] == 'fun':
        eq([M.abs_d(a) for a in m.argtypes], list(d[2][1]), 'argtypes')
        eq(M.abs_d(m.restype), d[2][2], 'restype')
    return ['k:' + d[2][0]] if d[1] or len(d[2]) > 1 else None


_i = ('D', (), ('p', 'int32'))
REGRESS = [
    (('D', (('fixed', 3), ('fixed', 4)), ('p', 'int32')), [5] * 8),
    (('D', (('fixed', 3), ('var',), ('fixed', 4)), ('p', 'int32')), [5] * 8),
    (('D', (), ('rec', (('a', _i), ('b', _i)))), [0, 0, 4]),
]

SUBS = [
    Sub('small', None, routes, exhaustive=lambda tier: [
        (d, [i + k, i * 7 + k, i * 31 + k, i * 3 + k]) for i, d in enumerate(
            small.datashapes(tier)) for k in (0, 1, 2)]),
    Sub('small_identity', None, identity, exhaustive=lambda tier:
        small.datashapes(tier, long=False)),
    Sub('routes', lambda: st.tuples(M.datashapes(M.Cfg(long=True), depth=3), M.noises(40)),
        routes, quick=8000, regress=REGRESS),
    Sub('identity', lambda: M.datashapes(depth=2), identity, quick=3000),
]
