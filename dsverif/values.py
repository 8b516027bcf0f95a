"""Python values to discover: literal descriptions, the values themselves,
and an independent model of what their datashape is.

A description is a tuple:
  ('n',) ('b', v) ('i', v) ('f', text) ('c', text) ('s', v) ('by', v)
  ('d', y, m, d) ('dt', y, m, d, H, M, S, us) ('t', H, M, S, us) ('td', us)
  a 'dt' or 't' may end with one more number, its minutes ahead of UTC
  ('np', code, v)                     a NumPy number
  ('L', items) ('T', items) ('S', items) ('FS', items)
  ('D', ((key, desc), ...)) ('OD', ...) ('MP', ...)
"""
import datetime
from collections import OrderedDict
from types import MappingProxyType

from hypothesis import strategies as st

from . import model as M
from .core import Unspec

NPCODES = {'i1': 'int8', 'i2': 'int16', 'i4': 'int32', 'i8': 'int64',
           'u1': 'uint8', 'u2': 'uint16', 'u4': 'uint32', 'u8': 'uint64',
           'f2': 'float16', 'f4': 'float32', 'f8': 'float64',
           'c8': 'complex[float32]', 'c16': 'complex[float64]'}


def clock(v):
    """The arguments that make a date, time or moment."""
    n = {'d': 4, 't': 5, 'dt': 8}[v[0]]
    if len(v) == n:
        return v[1:]
    return v[1:n] + (datetime.timezone(datetime.timedelta(minutes=v[n])),)


def value(v):
    k = v[0]
    if k == 'n':
        return None
    if k in ('b', 'i', 's', 'by'):
        return v[1]
    if k == 'f':
        return float(v[1])
    if k == 'c':
        return complex(v[1])
    if k == 'd':
        return datetime.date(*v[1:])
    if k == 'dt':
        return datetime.datetime(*clock(v))
    if k == 't':
        return datetime.time(*clock(v))
    if k == 'td':
        return datetime.timedelta(microseconds=v[1])
    if k == 'np':
        import numpy as np
        return np.dtype(v[1]).type(v[2])
    if k == 'L':
        return [value(x) for x in v[1]]
    if k == 'T':
        return tuple(value(x) for x in v[1])
    if k == 'S':
        return set(value(x) for x in v[1])
    if k == 'FS':
        return frozenset(value(x) for x in v[1])
    if k == 'D':
        return dict((n, value(x)) for n, x in v[1])
    if k == 'OD':
        return OrderedDict((n, value(x)) for n, x in v[1])
    if k == 'MP':
        return MappingProxyType(dict((n, value(x)) for n, x in v[1]))
    raise AssertionError(v)


STRING = ('str', None, 'U8')
NULL = ('null',)
I64, F64, BOOL = ('p', 'int64'), ('p', 'float64'), ('p', 'bool')
DATE, DATETIME, TIME = ('date',), ('datetime', None), ('time', None)
TDUS = ('td', 'us')
SIMPLE = {'n': NULL, 'b': BOOL, 'i': I64, 'f': F64,
          'c': ('p', 'complex[float64]'), 'by': ('str', None, 'A'),
          'd': DATE, 'dt': DATETIME, 't': TIME, 'td': TDUS}


def unit_of(s):
    """The time unit a word stands for, or None."""
    s = s.strip()
    for u, words in M.UNIT_SPELLINGS.items():
        if s in words or s == 'dates' and u == 'D':
            return u
    return None


def text_measure(s):
    """The type of what a piece of text spells."""
    if not s:
        return NULL
    try:
        int(s)
        return I64
    except ValueError:
        pass
    try:
        float(s)
        return F64
    except ValueError:
        pass
    if s in ('True', 'true', 'False', 'false'):
        return BOOL
    words = s.split()
    if len(words) == 2:
        try:
            x = float(words[0])
        except ValueError:
            x = None
        if x is not None and x == x and -2**63 <= x < 2**63 and x == int(x):
            u = unit_of(words[1])
            if u:
                if x == -2**63:
                    raise Unspec()      # NumPy's not-a-time
                return ('td', u)
    for f in ('%H:%M:%S', '%H:%M:%S.%f'):
        try:
            datetime.datetime.strptime(s, f)
            return TIME
        except ValueError:
            pass
    if s.isalpha() or s.isspace():
        return STRING
    from dateutil.parser import parse
    try:
        # any day will do that may be combined with every month and day
        t = parse(s, default=datetime.datetime(2000, 1, 1))
    except (ValueError, ArithmeticError):
        return STRING
    return DATETIME if t.hour or t.minute or t.second or t.microsecond \
        else DATE


class Fallback(Exception):
    """No common type for a column."""


# what a type can be turned into, step by step
WIDER = {('p', 'int32'): [I64], I64: [F64, STRING], F64: [STRING],
         DATE: [DATETIME, STRING], DATETIME: [STRING], TDUS: [STRING],
         BOOL: [STRING], STRING: []}


def wider(m):
    out, todo = [m], [m]
    while todo:
        for w in WIDER.get(todo.pop(0), ()):
            if w not in out:
                out.append(w)
                todo.append(w)
    return out


def common_scalar(ms):
    if len(set(ms)) == 1:
        return ms[0]
    shared = [w for w in wider(ms[0])
              if all(w in wider(m) for m in ms[1:])]
    if not shared:
        raise Fallback
    for w in shared:
        # the narrowest: every other shared one can be reached from it
        if all(x in wider(w) for x in shared):
            return w
    raise Fallback


UNITKINDS = ('p', 'bytes', 'null', 'date', 'str', 'time', 'datetime', 'td',
             'dec', 'units')


def column(ds):
    """The type of a column whose entries have these datashapes."""
    if len(set(ds)) == 1:
        return ds[0]
    good = [d for d in ds if d != ('D', (), NULL)]
    base = None
    if all(not d[1] and d[2][0] in UNITKINDS for d in good):
        try:
            base = ('D', (), common_scalar([d[2] for d in good]))
        except Fallback:
            base = None
    elif all(not d[1] and d[2][0] == 'rec' for d in good):
        names = [n for n, _ in good[0][2][1]]
        if any([n for n, _ in d[2][1]] != names for d in good):
            names = sorted(set(n for d in good for n, _ in d[2][1]))
        fields = []
        for n in names:
            # inside records only the null-aware rules apply, not merging
            fields.append((n, base_column(
                [dict(d[2][1]).get(n, ('D', (), NULL)) for d in good])))
        base = ('D', (), ('rec', tuple(fields)))
    if base is not None:
        if len(good) < len(ds):
            base = ('D', (), ('opt', base))
        return base
    m = merged(ds)
    if m is None:
        raise Fallback
    return m


def base_column(ds):
    if len(set(ds)) == 1 and (ds[0] == ('D', (), NULL) or (
            not ds[0][1] and ds[0][2][0] in UNITKINDS + ('rec',))):
        return ds[0]
    good = [d for d in ds if d != ('D', (), NULL)]
    if not good:
        return ('D', (), NULL)
    if all(not d[1] and d[2][0] in UNITKINDS + ('rec',) for d in good):
        return column(ds)
    raise Fallback


def merged(ds):
    """Datashapes that agree after their first dimension."""
    if all(d[1] and d[1][0][0] in ('fixed', 'var', 'ell') for d in ds):
        rest = set((d[1][1:], d[2]) for d in ds)
        if len(rest) == 1:
            dims = set(d[1][0] for d in ds)
            dim = dims.pop() if len(dims) == 1 else ('var',)
            return ('D', (dim,) + ds[0][1][1:], ds[0][2])
    return None


def times(n, d):
    return ('D', (('fixed', n),) + d[1], d[2])


def row(ds):
    """A sequence of things with these datashapes."""
    if len(set(ds)) == 1:
        return times(len(ds), ds[0])
    m = merged(ds)
    if m is not None:
        return times(len(ds), m)
    return ('D', (), ('tup', tuple(ds)))


def shape_of(v):
    """The datashape of a described value."""
    k = v[0]
    if k == 's':
        return ('D', (), text_measure(v[1]))
    if k == 'np':
        return ('D', (), ('p', NPCODES[v[1]]))
    if k in SIMPLE:
        return ('D', (), SIMPLE[k])
    if k in ('D', 'MP'):
        return ('D', (), ('rec', tuple((n, shape_of(x))
                                       for n, x in sorted(v[1]))))
    if k == 'OD':
        return ('D', (), ('rec', tuple((n, shape_of(x)) for n, x in v[1])))
    items = v[1]
    if not items:
        return ('D', (('var',),), STRING)
    try:
        if all(x[0] in 'LT' for x in items) and \
                len(set(len(x[1]) for x in items)) == 1 and items[0][1]:
            cols = [column([shape_of(x[1][i]) for x in items])
                    for i in range(len(items[0][1]))]
            return times(len(items), row(cols))
        if all(x[0] in ('D', 'OD') for x in items):
            names = sorted(set(n for x in items for n, _ in x[1]))
            fields = []
            for n in names:
                fields.append((n, column(
                    [shape_of(dict(x[1]).get(n, ('n',))) for x in items])))
            return times(len(items), ('D', (), ('rec', tuple(fields))))
    except Fallback:
        pass
    return row([shape_of(x) for x in items])


# --------------------------------------------------------------------------
# generation

def date_desc():
    return st.dates().map(lambda d: ('d', d.year, d.month, d.day))


def datetime_desc():
    return st.datetimes().map(lambda d: (
        'dt', d.year, d.month, d.day, d.hour, d.minute, d.second,
        d.microsecond))


def time_desc():
    return st.times().map(lambda t: ('t', t.hour, t.minute, t.second,
                                     t.microsecond))


def np_desc():
    def make(code, n):
        if code[0] in 'iu':
            bits = 8 * int(code[1])
            n %= 2**(bits - 1)
        return ('np', code, n)
    return st.builds(make, st.sampled_from(sorted(NPCODES)),
                     st.integers(0, 300))


TEXTS = ('', '1', '-5', '1.5', 'nan', 'inf', 'True', 'false', 'TRUE', 'abc',
         'hello world', '2014-01-01', '2014-01-01 12:30:00', '12:30:00',
         '12:30', '1 day', '3 hours', '1.5 days', '2014-01-01T00:00:00',
         'monday', ' ', 'x1', '10:00:00.5', '2 months', '1e400', 'None',
         '20140101', 'Jan 1 2014', '5 minutes', '1 parsec', '0x10', '1_000')


def scalars(kinds='nbifcsd'):
    opts = {
        'n': (2, st.just(('n',))),
        'b': (1, st.booleans().map(lambda b: ('b', b))),
        'i': (4, st.one_of(st.integers(-5, 5), st.sampled_from(
            (2**31, 2**63, -2**70))).map(lambda i: ('i', i))),
        'f': (2, st.sampled_from(('0.0', '1.5', '-2.25', 'nan', 'inf',
                                  '1e300')).map(lambda f: ('f', f))),
        'c': (1, st.just(('c', '1+2j'))),
        's': (4, st.sampled_from(TEXTS).map(lambda s: ('s', s))),
        'w': (3, st.sampled_from(('abc', 'x y', 'hello')).map(
            lambda s: ('s', s))),
        'd': (1, st.just(('d', 2014, 1, 2))),
        'D': (1, st.sampled_from((('dt', 2014, 1, 2, 3, 4, 5, 0),
                                  ('dt', 2014, 1, 2, 3, 4, 5, 0, 90)))),
        't': (1, st.sampled_from((('t', 12, 30, 0, 0),
                                  ('t', 12, 30, 0, 0, -300)))),
        'T': (1, st.just(('td', 5000000))),
        'y': (1, st.just(('by', b'xyz'))),
        'p': (1, np_desc()),
    }
    return M.weighted(*[opts[k] for k in kinds])


ALL = 'nbifcswdDtTyp'
KEYS = ('a', 'b', 'c', 'x', 'name', 'B', '')


@st.composite
def tree(draw, depth, kinds):
    """Any value."""
    k = draw(st.integers(0, 9 if depth else 1))
    if k <= 2:
        return draw(scalars(kinds))
    if k <= 6:
        n = draw(st.integers(0, 4))
        return (draw(st.sampled_from('LT')),
                tuple(draw(tree(depth - 1, kinds)) for _ in range(n)))
    keys = draw(st.lists(st.sampled_from(KEYS), max_size=3, unique=True))
    return (draw(st.sampled_from(('D', 'D', 'D', 'OD', 'MP'))),
            tuple((n, draw(tree(depth - 1, kinds))) for n in keys))


@st.composite
def similar(draw, v, kinds, churn):
    """A value of much the same form as v."""
    k = v[0]
    if not draw(st.integers(0, churn)):
        return draw(st.one_of(st.just(('n',)), scalars(kinds)))
    if k in ('L', 'T'):
        items = [draw(similar(x, kinds, churn)) for x in v[1]]
        r = draw(st.integers(0, 2 * churn))
        if r == 0 and items:
            items.pop()
        elif r == 1 and items:
            items.append(draw(similar(v[1][-1], kinds, churn)))
        return (draw(st.sampled_from((k, 'L', 'T'))), tuple(items))
    if k in ('D', 'OD', 'MP'):
        items = [(n, draw(similar(x, kinds, churn))) for n, x in v[1]]
        r = draw(st.integers(0, 2 * churn))
        if r == 0 and items:
            items.pop(draw(st.integers(0, len(items) - 1)))
        elif r == 1:
            free = [n for n in KEYS if n not in [m for m, _ in items]]
            items.append((free[0], draw(scalars(kinds))))
        elif r == 2:
            items.reverse()
        return (k, tuple(items))
    r = draw(st.integers(0, 5))
    if r == 0:
        return draw(scalars(kinds))
    if r == 1 and k in ('i', 'f'):
        return draw(st.sampled_from((('i', 7), ('f', '2.5'))))
    if r == 2:
        return ('n',)
    return v


@st.composite
def table(draw, depth=2, kinds=ALL, rows=5):
    """A list of similar things."""
    churn = draw(st.sampled_from((3, 10, 40)))
    proto = draw(tree(depth, kinds))
    n = draw(st.integers(1, rows))
    return (draw(st.sampled_from('LT')),
            tuple(draw(similar(proto, kinds, churn)) for _ in range(n)))


@st.composite
def values(draw):
    kinds = draw(st.sampled_from((ALL, 'ni', 'nif', 'nifw', 'nwdD', 'nbiw',
                                  'nbifswdDT', 'niis')))
    how = draw(st.integers(0, 9))
    if how < 2:
        return draw(tree(3, kinds))
    if how < 8:
        return draw(table(draw(st.integers(0, 2)), kinds))
    inner = draw(table(1, kinds, 3))
    churn = draw(st.sampled_from((3, 10, 40)))
    return ('L', tuple(draw(similar(inner, kinds, churn))
                       for _ in range(draw(st.integers(1, 3)))))


@st.composite
def long_table(draw):
    """Many rows, all but one or two of them much alike."""
    kinds = draw(st.sampled_from(('ni', 'if', 'iw', 'dD', 'i', 'nw', ALL)))
    cell = scalars(kinds)
    n = draw(st.one_of(st.integers(6, 15), st.integers(16, 70),
                       st.sampled_from((100, 101, 128, 150, 256))))
    width = draw(st.integers(1, 3))
    form = draw(st.sampled_from(('L', 'T', 'D', 'OD', 'flat')))

    def row(extra=0):
        cells = [draw(cell) for _ in range(width + extra)]
        if form == 'flat':
            return cells[0]
        if form in 'LT':
            return (form, tuple(cells))
        return (form, tuple(zip(KEYS, cells)))
    protos = [row() for _ in range(draw(st.integers(1, 2)))]
    rows = [protos[i % len(protos)] for i in range(n)]
    for _ in range(draw(st.integers(0, 2))):
        at = draw(st.integers(0, n - 1))
        how = draw(st.integers(0, 4))
        rows[at] = draw(cell) if how == 0 and form == 'flat' else \
            ('n',) if how == 0 else row(1) if how == 1 else \
            row(-1) if how == 2 and form != 'flat' else \
            draw(tree(1, kinds)) if how == 3 else row()
    return (draw(st.sampled_from('LT')), tuple(rows))


@st.composite
def record_cells(draw):
    """Rows with cells that are records of much the same fields."""
    kinds = draw(st.sampled_from(('ni', 'if', 'n', 'iw', 'nif', 'i')))
    pool = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=3,
                         unique=True))
    cell = scalars(kinds)

    def rec():
        ks = pool if draw(st.integers(0, 3)) else pool[:-1]
        if not draw(st.integers(0, 5)):
            return ('n',)
        return ('D', tuple((k, draw(cell)) for k in ks))
    form = draw(st.sampled_from('LTD'))
    extra = draw(st.integers(0, 2))

    def row():
        cells = (rec(),) + tuple(draw(cell) for _ in range(extra))
        return (form, cells if form in 'LT' else tuple(zip('rst', cells)))
    return ('L', tuple(row() for _ in range(draw(st.integers(1, 4)))))


def size(v):
    if v[0] in ('L', 'T', 'S', 'FS'):
        return 1 + sum(map(size, v[1]))
    if v[0] in ('D', 'OD', 'MP'):
        return 1 + sum(size(x) for _, x in v[1])
    return 1


def wrap(kind, x):
    """A row which holds a scalar, or the scalar itself."""
    if kind == 'row':
        return ('L', (x, ('i', 3)))
    if kind == 'tuple':
        return ('T', (('s', 'abc'), x))
    if kind == 'dict':
        return ('D', (('a', x), ('b', ('i', 3))))
    if kind == 'ordered':
        return ('OD', (('b', x), ('a', ('i', 3))))
    if kind == 'deep':
        return ('L', (('L', (('i', 1), x)),))
    return x


def stray(case):
    """Many alike, and one that is not."""
    kind, a, b, n, at = case
    rows = [wrap(kind, a)] * n
    if b == 'short':
        other = (rows[0][0], rows[0][1][1:])
    elif b == 'long':
        other = (rows[0][0], rows[0][1] + (
            (('z', ('i', 1)),) if kind in ('dict', 'ordered') else
            (('i', 1),)))
    else:
        other = wrap(kind, b)
    rows[at] = other
    return ('L', tuple(rows)), ('L', (wrap(kind, a), other))


def strays(tier):
    """Cases of stray."""
    lengths = (9, 11, 17, 33, 51, 65, 101, 129, 257, 513, 1001, 1025, 2049)
    if tier != 'quick':
        lengths += (5, 6, 7, 8, 12, 21, 31, 61, 100, 128, 201, 255, 256, 301,
                    501, 1000, 1024, 1501, 2001, 4097, 5001, 8193, 10001)
    i, f, n, s = ('i', 1), ('f', '1.5'), ('n',), ('s', 'abc')
    two = ((i, n), (i, f), (i, s), (f, i), (s, n), (i, ('b', True)),
           (('d', 2014, 1, 2), ('dt', 2014, 1, 2, 3, 4, 5, 0)), (n, i))
    out = []
    for length in lengths:
        for at in sorted(set((0, 1, length // 2, length - 2, length - 1))):
            for kind in ('flat', 'row', 'tuple', 'dict', 'ordered', 'deep'):
                few = two if length < 300 or tier != 'quick' else two[:3]
                for a, b in few:
                    out.append((kind, a, b, length, at))
                if kind != 'flat':
                    for b in ('short', 'long', n, i):
                        out.append((kind, i, b, length, at))
    return out


def wide_dicts(tier):
    """Mappings of many keys in several orders, alone and in lists."""
    out = []
    for n in (4, 5, 6, 7, 8, 9, 11, 13, 17, 21, 33, 65, 129):
        names = [('k%d' % i, 'K' * (1 + i % 3) + 'aBc_'[i % 4] + str(i),
                  chr(97 + i % 26) + 'x' * (i // 26))
                 for i in range(n)]
        for j in range(3):
            keys = [t[j] for t in names]
            vals = [(('i', 1), ('s', 'abc'), ('n',), ('f', '1.5'))[
                i * (j + 1) % 4] for i in range(n)]
            items = list(zip(keys, vals))
            orders = [items, items[::-1], items[n // 2:] + items[:n // 2],
                      items[::2] + items[1::2], sorted(items)]
            for o in orders:
                for kind in ('D', 'MP', 'OD'):
                    out.append((kind, tuple(o)))
                    if kind == 'MP':
                        continue
                    d = (kind, tuple(o))
                    out.append(('L', (d, d)))
                    out.append(('L', (d, (kind, tuple(o[:-1])))))
                    out.append(('L', ((kind, tuple(o[::2])),
                                      (kind, tuple(o[1::2])))))
                    out.append(('L', (('L', (d, ('i', 1))),
                                      ('L', ((kind, tuple(o[::-1])),
                                             ('i', 2))))))
    return out
