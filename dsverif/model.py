"""An independent model of datashapes.

A datashape is modelled by a literal tuple (its AST):

  D   ('D', (dim, ...), M)           dimensions and a measure
  dim ('fixed', n) ('var',) ('tv', 'A') ('ell', None | 'A')
  M   ('p', name)                    a plain type: int32, bool, object, ...
      ('bytes',) ('null',) ('date',) ('json',)
      ('str', fixlen | None, enc)    enc in A U8 U16 U32
      ('time', tz | None) ('datetime', tz | None) ('td', unit)
      ('units', unit, D) ('dec', precision, scale)
      ('cat', (category, ...), M, ordered)
      ('rec', ((name, D), ...)) ('tup', (D, ...)) ('fun', (D, ...), D)
      ('map', D, D) ('opt', D) ('tv', 'A')

Two datashapes are the same type exactly when their ASTs are equal.  This
module generates ASTs, builds real objects from them through the public
constructors, writes them as text with its own renderer, and abstracts real
objects back to ASTs.  It shares no code with the package under test.
"""
from hypothesis import strategies as st

from .core import Violation

PLAIN = ('bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16',
         'uint32', 'uint64', 'float16', 'float32', 'float64',
         'complex[float32]', 'complex[float64]', 'void', 'object', 'char')
PLAIN_SIZE = {'bool': 1, 'int8': 1, 'int16': 2, 'int32': 4, 'int64': 8,
              'uint8': 1, 'uint16': 2, 'uint32': 4, 'uint64': 8,
              'float16': 2, 'float32': 4, 'float64': 8,
              'complex[float32]': 8, 'complex[float64]': 16,
              'void': 0, 'object': 8, 'char': 1}
UNITS = ('ns', 'us', 'ms', 's', 'm', 'h', 'D', 'W', 'M', 'Y')
ENCS = ('A', 'U8', 'U16', 'U32')
F64 = ('D', (), ('p', 'float64'))


# --------------------------------------------------------------------------
# generation

@st.composite
def _weighted(draw, table, strategies):
    return draw(strategies[draw(st.sampled_from(table))])


def weighted(*pairs):
    """Like one_of, with weights, and without flattening nested choices."""
    table = []
    for i, (w, _) in enumerate(pairs):
        table += [i] * w
    return _weighted(tuple(table), tuple(s for _, s in pairs))


IDENT_FIRST = 'abcxyzABCXYZ_'
IDENT_REST = IDENT_FIRST + '019'
TRICKY_NAMES = ('a', 'b', 'x', 'y', 'name', 'id', 'amount', '_z', '_', 'A',
                'None', 'True', 'False', 'class', 'def', 'int32', 'var',
                'string', 'option', 'ellipsis', 'Trueness', 'a b', 'a\n',
                "it's", 'say "hi"', 'back\\slash', '', ' ', '0', '1a',
                'caf\xe9', '\u2603', '\U0001f600', '"', "'", '\'"',
                'tab\there', '#', 'a#b', '...', '*', '{', '}', '\x00',
                '\x7f', '\x85', '\u2028', '\ud800', 'x-y', 'a:b', '3')
TEXT_ALPHABET = 'ab_Z09 \t\n\r\b\f\\\'"#*:,.?{}[]()=->u\x00\x1f\x7f\x85\xa0' \
                '\xe9\u200b\u2028\u2603\ud83d\ude00\ufeff\U0001f600\U000e0001'


def idents():
    return st.builds(lambda a, b: a + b, st.sampled_from(IDENT_FIRST),
                     st.text(IDENT_REST, max_size=5))


def names():
    return weighted((5, st.sampled_from(TRICKY_NAMES[:9])), (2, idents()),
                    (2, st.sampled_from(TRICKY_NAMES)),
                    (2, st.text(TEXT_ALPHABET, max_size=6)),
                    (1, st.builds(lambda a, b: a + b,
                                  st.sampled_from(IDENT_FIRST),
                                  st.text(IDENT_REST, min_size=7,
                                          max_size=40))))


def texts():
    return st.one_of(st.sampled_from(('UTC', 'US/Eastern', 'second', 'm/s',
                                      'CST', 'meter')),
                     names(), st.text(max_size=4))


def typevars():
    return st.one_of(st.sampled_from('ABMNT'),
                     st.builds(lambda a, b: a + b,
                               st.sampled_from('ABCXYZTF'),
                               st.text(IDENT_REST, max_size=4)))


def _tv_ok(s):
    return s not in ('True', 'False')


TYPEVARS = typevars().filter(_tv_ok)


def sizes():
    return st.one_of(st.integers(0, 12), st.sampled_from(
        (0, 1, 2, 3, 5, 10, 100, 1000, 2**31, 2**63, 5000000000, 10**20)))


class Cfg(object):
    """What generated datashapes may contain."""
    ALL = ('p', 'bytes', 'null', 'date', 'json', 'str', 'time', 'datetime',
           'td', 'units', 'dec', 'cat', 'rec', 'tup', 'fun', 'map', 'opt',
           'tv')

    def __init__(self, kinds=ALL, without=(), dims=('fixed', 'var', 'tv',
                                                    'ell'),
                 plain=PLAIN, names=None, max_dims=3, inner_dims=True,
                 max_fields=4, long=False):
        self.kinds = tuple(k for k in kinds if k not in without)
        self.dims = dims
        self.plain = plain
        self.names = names or names_default()
        self.max_dims = max_dims
        self.inner_dims = inner_dims
        self.max_fields = max_fields
        self.long = long    # categoricals too long to be printed in full
        self._cache = {}


_NAMES = []


def names_default():
    if not _NAMES:
        _NAMES.append(names())
    return _NAMES[0]


def dim_st(cfg):
    opts = []
    if 'fixed' in cfg.dims:
        opts.append((3, st.tuples(st.just('fixed'), sizes())))
    if 'var' in cfg.dims:
        opts.append((2, st.just(('var',))))
    if 'tv' in cfg.dims:
        opts.append((1, st.tuples(st.just('tv'), TYPEVARS)))
    return weighted(*opts)


def dims_st(cfg):
    base = weighted(
        (3, st.just(())), (2, dim_st(cfg).map(lambda d: (d,))),
        (1, st.lists(dim_st(cfg), max_size=cfg.max_dims).map(tuple)))
    if 'ell' not in cfg.dims:
        return base
    ell = st.tuples(st.just('ell'), st.one_of(st.none(), TYPEVARS))

    def insert(t):
        dims, e, pos = t
        pos = min(pos, len(dims))
        return dims[:pos] + (e,) + dims[pos:]
    return weighted((9, base),
                    (1, st.tuples(base, ell, st.integers(0, 2)).map(insert)))


def leaf_st(cfg):
    opts = []

    def add(kind, strat, weight=1):
        if kind in cfg.kinds:
            opts.append((weight, strat))
    add('p', st.tuples(st.just('p'), st.sampled_from(cfg.plain)), 9)
    for k in ('bytes', 'null', 'date', 'json'):
        add(k, st.just((k,)))
    add('str', st.tuples(
        st.just('str'),
        weighted((2, st.none()), (1, st.integers(0, 300))),
        st.sampled_from(('U8', 'U8', 'A', 'U16', 'U32'))), 3)
    tz = st.one_of(st.none(), texts())
    add('time', st.tuples(st.just('time'), tz))
    add('datetime', st.tuples(st.just('datetime'), tz))
    add('td', st.tuples(st.just('td'), st.sampled_from(UNITS)))
    add('dec', st.tuples(st.just('dec'), st.integers(0, 40),
                         st.integers(-3, 20)))
    add('tv', st.tuples(st.just('tv'), TYPEVARS))
    return weighted(*opts)


def categories_st(long=False):
    strs = st.lists(texts(), min_size=1, max_size=5, unique=True).map(tuple)
    ints = st.lists(st.one_of(st.integers(2, 20), st.integers(-20, -1),
                              st.just(10**20)),
                    min_size=1, max_size=10, unique=True).map(tuple)
    if not long:
        return weighted((2, strs), (1, ints))
    # more than ten
    many = st.tuples(st.integers(0, 3), st.integers(11, 13), st.booleans())
    many = many.map(lambda t: tuple(
        ('c%d' % i if t[2] else 100 + i) for i in range(t[0], t[0] + t[1])))
    return weighted((2, strs), (1, ints), (2, many))


def m_st(cfg, depth):
    key = ('m', depth)
    if key in cfg._cache:
        return cfg._cache[key]
    if depth <= 0:
        r = leaf_st(cfg)
    else:
        opts = [(3, leaf_st(cfg))]
        sub = (d_st if cfg.inner_dims else d0_st)(cfg, depth - 1)
        small = m_st(cfg, depth - 1)

        def add(kind, strat, weight=1):
            if kind in cfg.kinds:
                opts.append((weight, strat))
        add('rec', st.tuples(st.just('rec'), st.lists(
            st.tuples(cfg.names, sub), max_size=cfg.max_fields,
            unique_by=lambda f: f[0]).map(tuple)), 4)
        add('tup', st.tuples(st.just('tup'),
                             st.lists(sub, max_size=3).map(tuple)), 2)
        add('fun', st.tuples(st.just('fun'),
                             st.lists(sub, max_size=2).map(tuple), sub))
        add('map', st.tuples(st.just('map'), sub, sub))
        add('opt', st.tuples(st.just('opt'), sub), 2)
        add('units', st.tuples(st.just('units'), texts(),
                               st.one_of(st.just(F64), sub)))
        add('cat', st.tuples(st.just('cat'), categories_st(cfg.long), small,
                             st.booleans()))
        r = weighted(*opts)
    cfg._cache[key] = r
    return r


def d_st(cfg, depth):
    key = ('d', depth)
    if key not in cfg._cache:
        cfg._cache[key] = st.tuples(st.just('D'), dims_st(cfg),
                                    m_st(cfg, depth))
    return cfg._cache[key]


def d0_st(cfg, depth):
    return st.tuples(st.just('D'), st.just(()), m_st(cfg, depth))


def datashapes(cfg=None, depth=3):
    cfg = cfg or Cfg()
    return weighted((4, d_st(cfg, 1)), (4, d_st(cfg, max(depth - 1, 1))),
                    (6, d_st(cfg, depth)), (1, big_st(cfg)))


def big_st(cfg):
    """Datashapes with many parts, many dimensions or many levels."""
    sub = (d_st if cfg.inner_dims else d0_st)(cfg, 1)
    leaf = (d_st if cfg.inner_dims else d0_st)(cfg, 0)
    kinds = [k for k in ('rec', 'tup', 'fun') if k in cfg.kinds]
    wraps = [k for k in ('rec', 'tup', 'fun', 'opt', 'map', 'units')
             if k in cfg.kinds]

    def wide(kind, n, pool, odd, where, dims, names):
        items = [pool[i % len(pool)] for i in range(n)]
        items[where % n] = odd
        if kind == 'rec':
            have = ['f%d' % i for i in range(n)]
            have[where % n] = names
            m = ('rec', tuple(zip(have, items)))
        elif kind == 'tup':
            m = ('tup', tuple(items))
        else:
            m = ('fun', tuple(items), pool[0])
        return ('D', dims, m)

    def deep(nums, leaf, dims):
        d = leaf
        for n in nums:
            k = wraps[n % len(wraps)]
            x = leaf if n & 64 else ('D', (), ('p', cfg.plain[0]))
            m = {'rec': ('rec', (('a', d), ('b', x))[:1 + (n & 32) // 32]),
                 'tup': ('tup', (x, d)[1 - (n & 32) // 32:]),
                 'fun': ('fun', (d,), x) if n & 32 else ('fun', (x,), d),
                 'opt': ('opt', d), 'units': ('units', 'm', d),
                 'map': ('map', x, d) if n & 32 else ('map', d, x)}[k]
            d = ('D', (), m)
        return ('D', dims, d[2])
    opts = []
    if kinds:
        opts.append((3, st.builds(
            wide, st.sampled_from(kinds), st.one_of(
                st.integers(5, 12), st.integers(13, 40)),
            st.lists(leaf, min_size=1, max_size=3), sub,
            st.integers(0, 39), dims_st(cfg),
            cfg.names.filter(lambda n: n[:1] != 'f'))))
    if wraps:
        opts.append((2, st.builds(
            deep, st.lists(st.integers(0, 127), min_size=4, max_size=9),
            leaf, dims_st(cfg))))
    if cfg.dims and cfg.max_dims:
        opts.append((2, st.tuples(
            st.just('D'), st.lists(dim_st(cfg), min_size=4,
                                   max_size=12).map(tuple), m_st(cfg, 1))))
    return weighted(*opts) if opts else d_st(cfg, 1)


# --------------------------------------------------------------------------
# queries on ASTs

def children(ast):
    """The datashapes (D) directly inside a measure."""
    k = ast[0]
    if k == 'rec':
        return [d for _, d in ast[1]]
    if k == 'tup':
        return list(ast[1])
    if k == 'fun':
        return list(ast[1]) + [ast[2]]
    if k == 'map':
        return [ast[1], ast[2]]
    if k == 'opt':
        return [ast[1]]
    if k == 'units':
        return [ast[2]]
    if k == 'cat':
        return [('D', (), ast[2])]
    return []


def walk(d):
    """Every D in a D, the D itself first."""
    yield d
    for c in children(d[2]):
        for x in walk(c):
            yield x


def kinds_of(d):
    """The kinds of all dimensions and measures in a datashape."""
    out = set()
    for x in walk(d):
        out.add(x[2][0])
        for dim in x[1]:
            out.add('dim:' + dim[0])
    return out


def depth_of(d):
    cs = children(d[2])
    return 1 + max(map(depth_of, cs)) if cs else 0


def size_of(d):
    return sum(1 + len(x[1]) for x in walk(d))


# --------------------------------------------------------------------------
# construction through the public constructors

def build_dim(dim):
    import datashape as ds
    k = dim[0]
    if k == 'fixed':
        return ds.Fixed(dim[1])
    if k == 'var':
        return ds.Var()
    if k == 'tv':
        return ds.TypeVar(dim[1])
    if k == 'ell':
        if dim[1] is None:
            return ds.Ellipsis()
        return ds.Ellipsis(ds.TypeVar(dim[1]))
    raise AssertionError(dim)


_PLAIN_OBJ = {'bool': 'bool_', 'complex[float32]': 'complex64',
              'complex[float64]': 'complex128', 'object': 'object_'}


def build_m(m):
    import datashape as ds
    from datashape import coretypes as ct
    k = m[0]
    if k == 'p':
        return getattr(ct, _PLAIN_OBJ.get(m[1], m[1]))
    if k == 'bytes':
        return ds.Bytes()
    if k == 'null':
        return ds.Null()
    if k == 'date':
        return ds.Date()
    if k == 'json':
        return ds.JSON()
    if k == 'str':
        if m[1] is None:
            return ds.String(m[2])
        return ds.String(m[1], m[2])
    if k == 'time':
        return ds.Time(m[1])
    if k == 'datetime':
        return ds.DateTime(m[1])
    if k == 'td':
        return ds.TimeDelta(m[1])
    if k == 'units':
        return ds.Units(m[1], build(m[2]))
    if k == 'dec':
        return ds.Decimal(m[1], m[2])
    if k == 'cat':
        return ds.Categorical(list(m[1]), type=build_m(m[2]), ordered=m[3])
    if k == 'rec':
        return ds.Record([(n, build(d)) for n, d in m[1]])
    if k == 'tup':
        return ds.Tuple([build(d) for d in m[1]])
    if k == 'fun':
        return ct.Function(*[build(d) for d in m[1] + (m[2],)])
    if k == 'map':
        return ds.Map(build(m[1]), build(m[2]))
    if k == 'opt':
        return ds.Option(build(m[1]))
    if k == 'tv':
        return ds.TypeVar(m[1])
    raise AssertionError(m)


def build(d):
    import datashape as ds
    return ds.DataShape(*([build_dim(x) for x in d[1]] + [build_m(d[2])]))


# --------------------------------------------------------------------------
# abstraction of real objects

def _typename(x):
    return type(x).__name__


def abs_dim(x):
    from datashape import coretypes as ct
    if type(x) is ct.Fixed:
        v = x.val
        if type(v) is bool or not isinstance(v, int):
            raise Violation('fixed dimension holds %r' % (v,))
        return ('fixed', int(v))
    if type(x) is ct.Var:
        return ('var',)
    if type(x) is ct.TypeVar:
        return ('tv', _text(x.symbol))
    if type(x) is ct.Ellipsis:
        if x.typevar is None:
            return ('ell', None)
        if type(x.typevar) is not ct.TypeVar:
            raise Violation('ellipsis holds %r' % (x.typevar,))
        return ('ell', _text(x.typevar.symbol))
    raise Violation('not a dimension: %s' % _typename(x))


def _text(s):
    if not isinstance(s, str):
        raise Violation('expected text, found %s' % _typename(s))
    return str(s)


def _opttext(s):
    return None if s is None else _text(s)


def _int(v):
    if not isinstance(v, int):
        raise Violation('expected an integer, found %r' % (v,))
    return int(v)


def abs_m(x):
    from datashape import coretypes as ct
    t = type(x)
    if t is ct.CType:
        name = _text(x.name)
        if name not in PLAIN_SIZE:
            raise Violation('unknown plain type %r' % name)
        if x.itemsize != PLAIN_SIZE[name]:
            raise Violation('%s has itemsize %r' % (name, x.itemsize))
        return ('p', name)
    if t is ct.Bytes:
        return ('bytes',)
    if t is ct.Null:
        return ('null',)
    if t is ct.Date:
        return ('date',)
    if t is ct.JSON:
        return ('json',)
    if t is ct.String:
        fl = None if x.fixlen is None else _int(x.fixlen)
        return ('str', fl, _text(x.encoding))
    if t is ct.Time:
        return ('time', _opttext(x.tz))
    if t is ct.DateTime:
        return ('datetime', _opttext(x.tz))
    if t is ct.TimeDelta:
        return ('td', _text(x.unit))
    if t is ct.Units:
        return ('units', _text(x.unit), abs_d(x.tp))
    if t is ct.Decimal:
        return ('dec', _int(x.precision), _int(x.scale))
    if t is ct.Categorical:
        if not isinstance(x.categories, tuple):
            raise Violation('categories are %r' % (x.categories,))
        if not isinstance(x.ordered, bool):
            raise Violation('ordered is %r' % (x.ordered,))
        return ('cat', tuple(x.categories), abs_m(x.type), x.ordered)
    if t is ct.Record:
        return ('rec', tuple((_text(n), abs_d(f)) for n, f in x.fields))
    if t is ct.Tuple:
        return ('tup', tuple(abs_d(f) for f in x.dshapes))
    if t is ct.Function:
        return ('fun', tuple(abs_d(f) for f in x.argtypes), abs_d(x.restype))
    if t is ct.Map:
        return ('map', abs_d(x.key), abs_d(x.value))
    if t is ct.Option:
        return ('opt', abs_d(x.ty))
    if t is ct.TypeVar:
        return ('tv', _text(x.symbol))
    raise Violation('not a measure: %s' % _typename(x))


def abs_d(x):
    """AST of a DataShape, or of a bare measure (the same type)."""
    from datashape import coretypes as ct
    if type(x) is ct.DataShape:
        ps = tuple(x.parameters)
        if not ps:
            raise Violation('empty datashape')
        return ('D', tuple(abs_dim(p) for p in ps[:-1]), abs_m(ps[-1]))
    return ('D', (), abs_m(x))


# --------------------------------------------------------------------------
# text

_ESC = {'\n': '\\n', '\r': '\\r', '\t': '\\t', '\b': '\\b', '\f': '\\f'}


def quote(s, style=0):
    """A string literal of the datashape grammar for s.

    style bit 0: delimiter, bit 1: escape every non-alphanumeric."""
    delim = '"' if style & 1 else "'"
    out = []
    for c in s:
        if c == delim:
            out.append('\\' + c if not style & 2 else '\\u%04x' % ord(c))
        elif c in _ESC:
            out.append(_ESC[c] if not style & 2 else '\\u%04x' % ord(c))
        elif c == '\\':
            out.append('\\u005c')
        elif style & 2 and not c.isalnum() and ord(c) <= 0xffff:
            out.append('\\u%04X' % ord(c))
        else:
            out.append(c)
    return delim + ''.join(out) + delim


def is_ident(s):
    if not s or s in ('True', 'False'):
        return False
    if not (s[0] == '_' or ('a' <= s[0] <= 'z') or ('A' <= s[0] <= 'Z')):
        return False
    return all(c == '_' or ('a' <= c <= 'z') or ('A' <= c <= 'Z') or
               ('0' <= c <= '9') for c in s)


PLAIN_SPELLINGS = {
    'int32': ('int32', 'int'), 'float64': ('float64', 'real'),
    'int64': ('int64', 'intptr'), 'uint64': ('uint64', 'uintptr'),
    'complex[float32]': ('complex[float32]', 'complex64'),
    'complex[float64]': ('complex[float64]', 'complex128', 'complex',
                         'complex[real]'),
}
ENC_SPELLINGS = {'A': ('A', 'ascii'),
                 'U8': ('U8', 'utf8', 'utf-8', 'utf_8'),
                 'U16': ('U16', 'utf16', 'utf-16', 'utf_16'),
                 'U32': ('U32', 'utf32', 'utf-32', 'utf_32')}
UNIT_SPELLINGS = {
    'ns': ('ns', 'nanosecond', 'nanoseconds'),
    'us': ('us', 'microsecond', 'microseconds'),
    'ms': ('ms', 'millisecond', 'milliseconds'),
    's': ('s', 'second', 'seconds'), 'm': ('m', 'minute', 'minutes'),
    'h': ('h', 'hour', 'hours'), 'D': ('D', 'day', 'days', 'date'),
    'W': ('W', 'week', 'weeks'), 'M': ('M', 'month', 'months'),
    'Y': ('Y', 'year', 'years')}


class Noise(object):
    """A source of small choices taken from a list of integers."""

    def __init__(self, nums):
        self.nums = nums
        self.i = 0

    def pick(self, n):
        if n <= 1 or not self.nums:
            return 0
        v = self.nums[self.i % len(self.nums)]
        self.i += 1
        return v % n

    def of(self, seq):
        return seq[self.pick(len(seq))]


class Writer(object):
    """Writes an AST as a list of tokens.

    sugar: choose among equivalent spellings (struct[[...], [...]], option[],
    keyword arguments, aliases); trailing: may add trailing commas."""

    def __init__(self, noise=None, sugar=True, trailing=True):
        self.n = noise or Noise(())
        self.sugar = sugar
        self.trailing = trailing

    def q(self, s):
        return quote(s, self.n.pick(4))

    def join(self, parts, trailing=False):
        out = []
        for i, p in enumerate(parts):
            if i:
                out.append(',')
            out += p
        if trailing and parts and self.trailing and self.n.pick(3) == 2:
            out.append(',')
        return out

    def alt(self, n):
        """0 (the plain form) most of the time"""
        if not self.sugar:
            return 0
        k = self.n.pick(n + 1)
        return 0 if k == n else k

    def dim(self, d):
        k = d[0]
        if k == 'fixed':
            return [str(d[1])]
        if k == 'var':
            return ['var']
        if k == 'tv':
            return [d[1]]
        if d[1] is None:
            return [('...', 'ellipsis')[self.alt(2)]]
        return [d[1], '...']

    def d(self, d):
        out = []
        for x in d[1]:
            out += self.dim(x) + ['*']
        return out + self.m(d[2])

    def kw(self, name, toks):
        return [name, '='] + toks

    def m(self, m):
        k = m[0]
        if k == 'p':
            sp = PLAIN_SPELLINGS.get(m[1], (m[1],))
            if self.sugar:
                s = self.n.of(sp)
            else:
                s = sp[0]
            if s.startswith('complex['):
                return ['complex', '[', s[8:-1], ']']
            return [s]
        if k in ('bytes', 'null', 'date', 'json'):
            return [k]
        if k == 'str':
            enc = self.n.of(ENC_SPELLINGS[m[2]]) if self.sugar else m[2]
            if m[1] is None:
                if m[2] == 'U8' and not self.alt(2):
                    return ['string']
                return ['string', '[', self.q(enc), ']']
            if m[2] == 'U8' and not self.alt(2):
                return ['string', '[', str(m[1]), ']']
            return ['string', '[', str(m[1]), ',', self.q(enc), ']']
        if k in ('time', 'datetime'):
            if m[1] is None:
                return [k]
            if self.alt(2):
                return [k, '[', self.q(m[1]), ']']
            return [k, '['] + self.kw('tz', [self.q(m[1])]) + [']']
        if k == 'td':
            u = self.n.of(UNIT_SPELLINGS[m[1]]) if self.sugar else m[1]
            a = self.alt(3)
            if a == 2 and m[1] == 'us':
                return ['timedelta']
            if a == 1:
                return ['timedelta', '[', self.q(u), ']']
            return ['timedelta', '['] + self.kw('unit', [self.q(u)]) + [']']
        if k == 'units':
            a = self.alt(3)
            if m[2] == F64 and a != 1:
                return ['units', '[', self.q(m[1]), ']']
            if a == 2:
                return (['units', '['] + self.kw('tp', self.d(m[2])) + [',']
                        + self.kw('unit', [self.q(m[1])]) + [']'])
            return ['units', '[', self.q(m[1]), ','] + self.d(m[2]) + [']']
        if k == 'dec':
            a = self.alt(4)
            p, s = str(m[1]), str(m[2])
            if a == 1 and m[2] == 0:
                return ['decimal', '[', p, ']']
            if a == 2:
                return ['decimal', '[', p, ',', s, ']']
            if a == 3:
                return ['decimal', '[', p, ','] + self.kw('scale', [s]) + [']']
            return (['decimal', '['] + self.kw('precision', [p]) + [','] +
                    self.kw('scale', [s]) + [']'])
        if k == 'cat':
            cats = ['['] + self.join(
                [[self.q(c) if isinstance(c, str) else str(c)]
                 for c in m[1]]) + [']']
            parts = [cats, self.kw('type', self.m(m[2])),
                     self.kw('ordered', [str(m[3])])]
            a = self.alt(4)
            if a == 1:
                parts[1], parts[2] = parts[2], parts[1]
            elif a == 2:
                parts = [cats, self.m(m[2]), [str(m[3])]]
            elif a == 3 and not m[3]:
                parts = parts[:2]
            return ['categorical', '['] + self.join(parts) + [']']
        if k == 'rec':
            if self.alt(2):
                return (['struct', '[', '['] +
                        self.join([[self.q(n)] for n, _ in m[1]]) +
                        [']', ',', '['] +
                        self.join([self.d(x) for _, x in m[1]]) + [']', ']'])
            fields = []
            for n, x in m[1]:
                if is_ident(n) and not self.alt(2):
                    fields.append([n, ':'] + self.d(x))
                else:
                    fields.append([self.q(n), ':'] + self.d(x))
            return ['{'] + self.join(fields, True) + ['}']
        if k == 'tup':
            items = [self.d(x) for x in m[1]]
            if self.alt(2):
                return ['tuple', '[', '['] + self.join(items) + [']', ']']
            return ['('] + self.join(items, True) + [')']
        if k == 'fun':
            items = [self.d(x) for x in m[1]]
            ret = self.d(m[2])
            if self.alt(2):
                return (['funcproto', '[', '['] + self.join(items) +
                        [']', ','] + ret + [']'])
            return ['('] + self.join(items, True) + [')', '->'] + ret
        if k == 'map':
            return (['map', '['] + self.d(m[1]) + [','] + self.d(m[2]) +
                    [']'])
        if k == 'opt':
            inner = m[1]
            if (not inner[1] and inner[2][0] == 'opt') or self.alt(2):
                return ['option', '['] + self.d(inner) + [']']
            return ['?'] + self.d(inner)
        if k == 'tv':
            return [m[1]]
        raise AssertionError(m)


def tokens_of(d, noise=None, sugar=True, trailing=True):
    return Writer(noise, sugar, trailing).d(d)


LAYOUT = ('', '', '', ' ', ' ', '  ', '\n', '\t', '\r\n', '\n    ',
          ' # comment\n', '#\n', '# "x" * {[( ?\n', '\x0b', '\x0c', '\n\n',
          ' # a\n # b\n ')


def layout(tokens, noise):
    """Join tokens with arbitrary layout."""
    out = [noise.of(LAYOUT)]
    for t in tokens:
        out.append(t)
        out.append(noise.of(LAYOUT))
    return ''.join(out)


def plain_text(d):
    """One canonical text of a datashape, single spaces, no sugar choices."""
    return ' '.join(tokens_of(d, sugar=False, trailing=False))


def noises(n=40):
    return st.lists(st.integers(0, 719), min_size=0, max_size=n)


# --------------------------------------------------------------------------
# small changes

def _paths(d, pre=()):
    """Paths to every D in a D: sequences of child numbers."""
    yield pre
    for i, c in enumerate(children(d[2])):
        if d[2][0] == 'cat':
            continue
        for p in _paths(c, pre + (i,)):
            yield p


def with_children(m, cs):
    """The measure with its child datashapes replaced."""
    k = m[0]
    if k == 'rec':
        return ('rec', tuple((n, c) for (n, _), c in zip(m[1], cs)))
    if k == 'tup':
        return ('tup', tuple(cs))
    if k == 'fun':
        return ('fun', tuple(cs[:-1]), cs[-1])
    if k == 'map':
        return ('map', cs[0], cs[1])
    if k == 'opt':
        return ('opt', cs[0])
    if k == 'units':
        return ('units', m[1], cs[0])
    if k == 'cat' and not cs[0][1]:
        return ('cat', m[1], cs[0][2], m[3])
    return m


def at(d, path):
    for i in path:
        d = children(d[2])[i]
    return d


def replace(d, path, new):
    if not path:
        return new
    cs = children(d[2])
    cs[path[0]] = replace(cs[path[0]], path[1:], new)
    return ('D', d[1], with_children(d[2], cs))


LEAVES = tuple(('p', n) for n in PLAIN) + (
    ('bytes',), ('null',), ('date',), ('json',), ('str', None, 'U8'),
    ('str', 5, 'U8'), ('str', 10, 'A'), ('time', None), ('datetime', None),
    ('datetime', 'UTC'), ('time', 'UTC'), ('td', 'us'), ('td', 's'),
    ('dec', 10, 2), ('tv', 'A'), ('tv', 'M'))
DIMS = (('fixed', 3), ('fixed', 1), ('var',), ('tv', 'N'), ('fixed', 0))


def leaf(cfg, n, without=None):
    """A leaf measure that cfg allows, chosen by a Noise."""
    key = ('leaves',)
    if key not in cfg._cache:
        cfg._cache[key] = [x for x in LEAVES if x[0] in cfg.kinds and
                           (x[0] != 'p' or x[1] in cfg.plain)]
    pool = [x for x in cfg._cache[key] if x != without]
    return n.of(pool)


def other(n, xs, x):
    return n.of([y for y in xs if y != x])


def similar(s, n):
    """Another text that is easily taken for s."""
    import unicodedata
    pool = [s + 'q', s.swapcase(), s + ' ', ' ' + s, s + s, s[:-1], s + '\n',
            'None', repr(s), unicodedata.normalize('NFD', s),
            unicodedata.normalize('NFKC', s), s + '\x00', '', s + '0']
    return n.of([x for x in pool if x != s])


def reordered(xs, n):
    """The same things in another order (unless they are all alike)."""
    xs = tuple(xs)
    i, j = n.pick(len(xs)), n.pick(len(xs))
    i, j = min(i, j), max(i, j)
    c = n.pick(6)
    if c == 0:
        return xs[1:] + xs[:1]
    if c == 1:
        return xs[::-1]
    if c == 2:
        return tuple(sorted(xs, key=repr))
    if c == 3 or i == j:
        i = min(i, len(xs) - 2)
        return xs[:i] + (xs[i + 1], xs[i]) + xs[i + 2:]
    return xs[:i] + (xs[j],) + xs[i + 1:j] + (xs[i],) + xs[j + 1:]


def tweak(d, n, cfg):
    """d with a small change in one place, chosen by the Noise n."""
    path = n.of(list(_paths(d)))
    return replace(d, path, _tweak(at(d, path), n, cfg))


def _tweak(d, n, cfg):
    _, dims, m = d
    op = n.pick(10)
    pool = [x for x in DIMS if x[0] in cfg.dims]
    if op == 0 and dims:
        i = n.pick(len(dims))
        return ('D', dims[:i] + dims[i + 1:], m)
    if op == 1 and pool:
        i = n.pick(len(dims) + 1)
        return ('D', dims[:i] + (n.of(pool),) + dims[i:], m)
    if op == 2 and dims:
        i = n.pick(len(dims))
        x = dims[i]
        if x[0] == 'fixed' and n.pick(3):
            y = ('fixed', x[1] + n.of((1, 2, 10, 2**31, 2**32, 2**64,
                                       2**61 - 1)))
        elif x[0] == 'ell':
            y = ('ell', other(n, (None, 'A', 'B'), x[1]))
        elif x[0] == 'tv' and n.pick(2):
            y = ('tv', other(n, ('A', 'B', 'N'), x[1]))
        else:
            y = n.of(pool)
        return ('D', dims[:i] + (y,) + dims[i + 1:], m)
    if op == 3 and len(dims) > 1:
        return ('D', reordered(dims, n), m)
    if op == 4 and 'opt' in cfg.kinds:
        if m[0] == 'opt' and not m[1][1]:
            return ('D', dims, m[1][2])
        if m[0] != 'opt':
            return ('D', dims, ('opt', ('D', (), m)))
    return ('D', dims, _tweak_m(m, n, cfg))


def _tweak_m(m, n, cfg):
    k = m[0]
    if k == 'str':
        c = n.pick(3)
        if c == 0:
            return ('str', other(n, (None, 0, 1, 5, 10), m[1]), m[2])
        if c == 1:
            return ('str', m[1], other(n, ENCS, m[2]))
        return leaf(cfg, n, m)
    if k in ('time', 'datetime'):
        c = n.pick(3)
        if c == 0 and m[1] is not None and n.pick(2):
            return (k, similar(m[1], n))
        if c == 0:
            return (k, other(n, (None, 'UTC', 'CST', '', 'utc', 'None'),
                             m[1]))
        if c == 1:
            return ('time' if k == 'datetime' else 'datetime', m[1])
        return leaf(cfg, n, m)
    if k == 'td':
        return ('td', other(n, UNITS, m[1]))
    if k == 'dec':
        return ('dec', m[1] + n.pick(2), m[2] + 1) if n.pick(2) else \
            ('dec', m[1] + 1, m[2])
    if k == 'units':
        if n.pick(2):
            return ('units', similar(m[1], n), m[2])
        return ('units', other(n, ('m', 's', 'km', ''), m[1]), m[2])
    if k == 'cat':
        c = n.pick(7)
        if c == 0:
            return m[:3] + (not m[3],)
        if c >= 5:
            # the last one, or its type
            last = m[1][-1]
            last = similar(last, n) if isinstance(last, str) else \
                n.of((str(last), last + 10**21))
            if last not in m[1] and (c == 5 or len(m[1]) == 1) and \
                    len(set(map(type, m[1][:-1] + (last,)))) == 1:
                return ('cat', m[1][:-1] + (last,)) + m[2:]
            if isinstance(m[1][0], int):
                return ('cat', tuple(map(str, m[1]))) + m[2:]
        if c == 1 and len(m[1]) > 1:
            return ('cat', reordered(m[1], n)) + m[2:]
        if c == 2 and len(m[1]) > 1:
            i = n.pick(len(m[1]))
            return ('cat', m[1][:i] + m[1][i + 1:]) + m[2:]
        if c == 3 and len(m[1]) < 9:
            return ('cat', m[1] + (('zz' + m[1][0],)
                                   if isinstance(m[1][0], str)
                                   else (max(m[1]) + 2,))) + m[2:]
        return ('cat', m[1], leaf(cfg, n, m[2]), m[3])
    if k == 'rec':
        fs = m[1]
        names = [x for x, _ in fs]
        c = n.pick(5)
        if c == 0 and len(fs) > 1:
            return ('rec', reordered(fs, n))
        if c == 4 and len(fs) > 1 and n.pick(2):
            # the types change places, the names do not
            return ('rec', tuple(zip(names, reordered([x for _, x in fs],
                                                      n))))
        if c == 1 and fs:
            i = n.pick(len(fs))
            name = similar(fs[i][0], n)
            if n.pick(2) and not is_ident(name):
                name = fs[i][0] + 'q'
            if name not in names:
                return ('rec', fs[:i] + ((name, fs[i][1]),) + fs[i + 1:])
        if c == 2 and fs:
            i = n.pick(len(fs))
            return ('rec', fs[:i] + fs[i + 1:])
        if c == 3 and fs and 'tup' in cfg.kinds:
            return ('tup', tuple(x for _, x in fs))
        if n.pick(3) == 0 and len(fs) == 1 and 'tup' in cfg.kinds:
            # a field name that looks like two fields
            return ('rec', (('%s: int32, b' % fs[0][0], fs[0][1]),))
        if 'qq' not in names:
            i = n.pick(len(fs) + 1)
            return ('rec', fs[:i] + (('qq', ('D', (), leaf(cfg, n))),) +
                    fs[i:])
        return m
    if k == 'tup':
        c = n.pick(4)
        if c == 0 and m[1]:
            i = n.pick(len(m[1]))
            return ('tup', m[1][:i] + m[1][i + 1:])
        if c == 1 and len(m[1]) > 1:
            return ('tup', reordered(m[1], n))
        if c == 2 and m[1]:
            i = n.pick(len(m[1]))
            return ('tup', m[1][:i] + m[1][i:i + 1] * 2 + m[1][i + 1:])
        return ('tup', m[1] + (('D', (), leaf(cfg, n)),))
    if k == 'fun':
        c = n.pick(6)
        if m[1] and c < 2:
            i = n.pick(len(m[1]))
            return ('fun', m[1][:i] + m[1][i + 1:], m[2])
        if m[1] and c == 2:
            xs = reordered(m[1] + (m[2],), n)
            return ('fun', xs[:-1], xs[-1])
        if 'tup' in cfg.kinds and n.pick(2):
            return ('tup', m[1] + (m[2],))
        return ('fun', m[1] + (('D', (), leaf(cfg, n)),), m[2])
    if k == 'map':
        return ('map', m[2], m[1])
    return leaf(cfg, n, m)


def _pair(a, k, nums, cfg):
    n = Noise(nums)
    b = a
    for _ in range(k):
        b = tweak(b, n, cfg)
    return a, b


def pairs(cfg=None, depth=3):
    """Two datashapes, equal or nearly so."""
    cfg = cfg or Cfg()
    return st.builds(lambda a, k, nums: _pair(a, k, nums, cfg),
                     datashapes(cfg, depth),
                     st.sampled_from((0, 0, 1, 1, 1, 1, 2)),
                     st.lists(st.sampled_from(range(720)), min_size=14,
                              max_size=14))


def big_pairs(cfg=None):
    """Two large datashapes, equal or nearly so."""
    cfg = cfg or Cfg()

    def far(d, n):
        # change a part towards the end
        cs = children(d[2])
        if len(cs) < 5 or n.pick(2):
            return tweak(d, n, cfg)
        i = len(cs) - 1 - n.pick(len(cs) // 2)
        cs[i] = tweak(cs[i], n, cfg)
        return ('D', d[1], with_children(d[2], cs))
    return st.builds(lambda a, k, nums: (a, a if k == 0 else far(
        a, Noise(nums))), big_st(cfg), st.integers(0, 4),
        st.lists(st.sampled_from(range(720)), min_size=14, max_size=14))
