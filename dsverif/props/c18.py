"""C18: the datashape of a single value."""
import datetime
import itertools
import math

from hypothesis import strategies as st

from .. import model as M
from .. import npmodel as N
from .. import values as V
from ..core import Sub, Violation, Unspec, check, eq, srepr

ID = 'C18'
RULE = ('random Python and NumPy scalars of every supported type, text that '
        'spells numbers, truth values, durations, times and dates in many '
        'forms, and arbitrary text; the discovered type is compared with the '
        'type of the value, with the type of what the text was written from, '
        'and with an independent reading of the text (which asks the dateutil '
        'library about dates). Non-trivial: every case.')
ASSUMPTIONS = ('dateutil decides which text is a date',)


def scalar(case):
    import datashape as ds
    v = V.value(case)
    got = ds.discover(v)
    eq(M.abs_d(got), V.shape_of(case), 'discover(%s)' % srepr(v))
    return ['scalar:' + case[0]]


def numpy_scalar(case):
    import warnings
    import numpy as np
    import datashape as ds
    spec, n = case
    dt = N.dtype(spec)
    k = spec[0]
    if k in 'Mm' and spec[1] is None:
        x = dt.type('NaT')
    elif k in 'Mm':
        x = dt.type(n, spec[1])
    elif k == 'U':
        raise Unspec()
    elif k == 'S':
        x = dt.type(b'x' * spec[1])
    else:
        try:
            x = dt.type(n % 100)
        except TypeError:
            raise Unspec()
    want = ('str', None, 'A') if k == 'S' else N.measure(spec)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if want is None:
            try:
                got = ds.discover(x)
            except (NotImplementedError, ValueError, TypeError):
                return ['np:refused']
            raise Violation('discover(%s) is %s' % (srepr(x), srepr(got)))
        got = ds.discover(x)
    eq(M.abs_d(got), ('D', (), want), 'discover(%s)' % srepr(x))
    return ['np:' + k]


def text(s):
    import datashape as ds
    want = V.text_measure(s)
    got = ds.discover(s)
    eq(M.abs_d(got), ('D', (), want), 'discover(%s)' % srepr(s))
    import numpy as np
    if '\x00' not in s:
        eq(M.abs_d(ds.discover(np.str_(s))), ('D', (), want),
           'discover(np.str_(%s))' % srepr(s))
    return ['text:' + want[0]]


def written(case):
    """Text written from a value of a known type."""
    import datashape as ds
    kind, v, style = case
    if kind == 'int':
        s = str(v)
        if style & 1 and v >= 0:
            s = '+' + s
        if style & 2:
            s = ' %s\n' % s
        want = V.I64
    elif kind == 'float':
        x = float(v)
        s = repr(x)
        if style & 1:
            s = '%.3e' % x
        if style & 2:
            s = ' %s ' % s
        if math.isinf(x) or math.isnan(x):
            s = s.upper() if style & 4 else s
        want = V.F64
    elif kind == 'bool':
        s, want = ('true', 'false', 'True', 'False')[style % 4], V.BOOL
    elif kind == 'delta':
        n, unit, word = v
        words = M.UNIT_SPELLINGS[unit]
        gap = (' ', '  ', '\t', '\n')[style % 4]
        s = '%s%s%s' % ((n, '%d.0' % n, '+%d' % n, '%de0' % n)[style // 4 % 4]
                        if n >= 0 else n, gap, words[word % len(words)])
        want = ('td', unit)
    elif kind == 'time':
        h, m, sec, us = v
        if style & 1:
            s = '%02d:%02d:%02d' % (h, m, sec)
        elif style & 2:
            s = '%d:%d:%d' % (h, m, sec)
        else:
            s = '%02d:%02d:%02d.%06d' % (h, m, sec, us)
        want = V.TIME
    elif kind == 'date':
        d = datetime.date(*v)
        s = (d.isoformat(), d.strftime('%m/%d/') + '%04d' % d.year,
             d.strftime('%B %d, ') + '%04d' % d.year,
             d.strftime('%d %b ') + '%04d' % d.year,
             d.isoformat() + ' 00:00:00',
             d.isoformat() + 'T00:00:00',
             d.isoformat() + ' 00:00')[style % 7]
        want = V.DATE
    else:
        d = datetime.datetime(*v)
        if not (d.hour or d.minute or d.second or d.microsecond):
            raise Unspec()
        if d.microsecond:
            style %= 4
        s = (d.isoformat(), d.isoformat(' '),
             d.isoformat() + 'Z', d.isoformat() + '+02:00',
             '%s %04d %02d:%02d:%02d' % (d.strftime('%d %b'), d.year, d.hour,
                                         d.minute, d.second))[style % 5]
        want = V.DATETIME
    got = ds.discover(s)
    eq(M.abs_d(got), ('D', (), want), 'discover(%s)' % srepr(s))
    return ['written:' + kind]


def written_cases():
    style = st.integers(0, 63)
    years = st.integers(1000, 9999)
    return M.weighted(
        (2, st.tuples(st.just('int'), st.integers(), style)),
        (2, st.tuples(st.just('float'), st.floats().map(repr), style)),
        (1, st.tuples(st.just('bool'), st.none(), style)),
        (3, st.tuples(st.just('delta'), st.tuples(
            st.integers(-1000, 10**6), st.sampled_from(M.UNITS),
            st.integers(0, 3)), style)),
        (2, st.tuples(st.just('time'), st.tuples(
            *_few(23, 59, 59, 999999)), style)),
        (3, st.tuples(st.just('date'), st.tuples(
            years, st.integers(1, 12), st.integers(1, 28)), style)),
        (3, st.tuples(st.just('datetime'), st.tuples(
            years, st.integers(1, 12), st.integers(1, 28),
            *_few(23, 59, 59), st.one_of(
                st.just(0), st.integers(0, 999999),
                st.sampled_from((1, 500, 1000, 999999)))), style)))


def _few(*tops):
    """Parts of a time, often zero."""
    return [M.weighted((2, st.integers(0, n)), (1, st.just(0)))
            for n in tops]


PIECES = ('1', '12', '2014', '-', ':', '/', '.', ' ', 'T', 'Z', '00', '59',
          'day', 'days', 's', 'ns', 'hour', 'hours', 'm', 'minutes', 'M', 'Y',
          'week', 'weeks', 'month', 'Jan', 'January', 'mon', 'monday', 'am',
          'pm', 'UTC', 'GMT', '+', '1e5', 'e', 'inf', 'nan', 'True', 'true',
          'False', 'false', ',', 'x', 'hello', '\t', '\n', '0', '1.5', '1.0',
          '99999999999999999999', '_', '\u0663', '\xa0', 'st', 'th', 'of',
          'date', 'us', 'ms', '%', '(', ')', '13', '31', '30', '\x00',
          '\ud800', 'j', '0x', '9' * 30, 'h', 'None', 'null', 'TRUE', 'yes', "'")


NUMBERS = ('1', '0', '-3', '+7', '1.0', '1.5', '2e3', '1e-3', 'inf', '-inf',
           'nan', '9' * 18, '9' * 19, '-' + '9' * 19, '1e18', '1e19', '1e308',
           '9223372036854775807', '9223372036854774784', '9223372036854775808',
           '-9223372036854775808', '1_0', 'x', '1,000', '', '\u0663', '0x1')
WORDS = tuple(w for ws in M.UNIT_SPELLINGS.values() for w in ws) + (
    'S', 'H', 'Day', 'DAYS', 'sec', 'min', 'hr', 'parsec', 'd', 'y', 'w',
    'fortnight', 'am', 'pm', 'date', 'dates', 'n', 'u', '')


def near_deltas():
    return st.tuples(
        st.sampled_from(('', ' ', '\n')), st.sampled_from(NUMBERS),
        st.sampled_from((' ', '  ', '\t', '\n ', '')),
        M.weighted((3, st.sampled_from(WORDS[:30])),
                   (1, st.sampled_from(WORDS))),
        st.sampled_from(('', '', '', ' ', ' ago', ' 1', 's', 'ss'))).map(
            ''.join)


def near_times():
    def make(h, m, s, us, style):
        f = ('%d:%d:%d', '%02d:%02d:%02d', '%02d:%02d:%02d.', '%02d:%02d',
             ' %02d:%02d:%02d', '%02d:%02d:%02d ', '%02d-%02d-%02d',
             '%d : %d : %d')[style % 8]
        n = f.count('%')
        t = f % (h, m, s)[:n]
        return t + us if t.endswith('.') else t
    return st.builds(make, st.integers(0, 25), st.integers(0, 61),
                     st.integers(0, 62), st.sampled_from(
                         ('', '0', '5', '123', '000000', '123456', '1234567',
                          'x')), st.integers(0, 63))


def soups():
    return M.weighted(
        (4, near_deltas()), (2, near_times()),
        (3, st.lists(st.sampled_from(PIECES), max_size=7).map(''.join)),
        (2, st.lists(st.sampled_from(PIECES), min_size=2, max_size=5).map(
            ' '.join)),
        (2, st.tuples(st.sampled_from(PIECES), st.sampled_from(PIECES)).map(
            ' '.join)),
        (1, st.text(max_size=8)),
        (1, st.sampled_from(V.TEXTS)),
        (1, st.text('0123456789:-. ', max_size=12)))


def scalars():
    return M.weighted(
        (3, V.scalars(V.ALL.replace('s', ''))), (1, V.date_desc()),
        (1, V.datetime_desc()), (1, V.time_desc()),
        (1, st.integers().map(lambda i: ('i', i))),
        (1, st.floats().map(lambda f: ('f', repr(f)))),
        (1, st.integers(-10**15, 10**15).map(lambda i: ('td', i))),
        (1, st.binary(max_size=5).map(lambda b: ('by', b))))


def every_text(tier):
    """Every combination of few pieces."""
    seen = {}
    for a in PIECES:
        seen[a] = None
        for b in PIECES:
            for glue in ('', ' ', ':', '-', '/'):
                seen[a + glue + b] = None
    for n in NUMBERS:
        for w in WORDS:
            for gap in (' ', '', '  ', '\n'):
                t = n + gap + w
                if not t.endswith('ss'):
                    seen[t] = None
                    if gap == ' ':
                        for u in (t + ' ', ' ' + t, t + ' ago'):
                            seen[u] = None
    for h in ('0', '00', '5', '12', '23', '24', '-1', '', 'x', '012'):
        for m in ('0', '30', '59', '60', '', '5', '059'):
            for s in ('0', '07', '59', '60', '61', '62', '', '7.5', '5.',
                      '00.000001', '00.1234567', ' 5', '5 ', '5Z'):
                seen['%s:%s:%s' % (h, m, s)] = None
            seen['%s:%s' % (h, m)] = None
    few = PIECES[:24] if tier == 'quick' else PIECES
    for t in itertools.product(few, repeat=3):
        for glue in ('', ' '):
            seen[glue.join(t)] = None
    return list(seen)


SUBS = [
    Sub('small', None, text, exhaustive=every_text),
    Sub('scalar', scalars, scalar, quick=3000),
    Sub('numpy_scalar', lambda: st.tuples(
        N.specs().filter(lambda s: s[0] not in 'rOV'), st.integers(0, 10**6)),
        numpy_scalar, quick=2000),
    Sub('written', written_cases, written, quick=8000),
    Sub('text', soups, text, quick=16000,
        regress=['1e400 days', '99999999999999999999 days', 'inf days',
                 '1  day', '1 day ', '', '9' * 30 + 'h']),
]
