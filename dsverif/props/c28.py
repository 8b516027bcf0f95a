"""C28: a type tells its parts, in their canonical form."""
from hypothesis import strategies as st

from .. import model as M
from .. import small as S
from ..core import Sub, Unspec, Violation, check, eq, srepr

ID = 'C28'
RULE = ('every part of random datashapes (names, types, dictionary and items '
        'of records, key and value of maps, arguments and result of functions, '
        'sizes of plain types, what sequence operations say of bare measures) '
        'compared with the model; all spellings of time units and string '
        'encodings, with unknown and nearly right ones, through constructors '
        'and text. Non-trivial: a part that is there to be read, or a spelling '
        'which is not the canonical one.')
ASSUMPTIONS = (
    'not spoken about: encodings that are documented but not '
    'implemented or differ only in case',)

UNITS = {'ns': 'nanosecond', 'us': 'microsecond', 'ms': 'millisecond',
         's': 'second', 'm': 'minute', 'h': 'hour', 'D': 'day', 'W': 'week',
         'M': 'month', 'Y': 'year'}
SPELLINGS = {}
for _u, _w in UNITS.items():
    SPELLINGS[_u] = SPELLINGS[_w] = SPELLINGS[_w + 's'] = _u
SPELLINGS['date'] = SPELLINGS['dates'] = 'D'

ENCODINGS = {'A': ('A', 'ascii'), 'U8': ('U8', 'utf8', 'utf-8', 'utf_8'),
             'U16': ('U16', 'utf16', 'utf-16', 'utf_16'),
             'U32': ('U32', 'utf32', 'utf-32', 'utf_32')}
CANONICAL = dict((s, c) for c, ss in ENCODINGS.items() for s in ss)


def raises(excs, f, *args):
    try:
        f(*args)
    except excs:
        return True
    return False


def parts(case):
    import datashape as ds
    from datashape import coretypes as ct
    d, bare = case
    labels = set()
    todo = [(M.build(d), d)]
    while todo:
        x, d = todo.pop()
        if type(x) is ct.DataShape:
            eq(tuple(map(M.abs_dim, x.shape)), d[1], 'shape')
            eq(len(x), len(d[1]) + 1, 'length')
            m = x.measure
        else:
            m = x
            if d[2][0] != 'opt':
                eq(tuple(m.shape), (), 'shape of the measure %s' % srepr(m))
            if d[2][0] not in ('rec',):
                eq(len(m), 1, 'length of the measure %s' % srepr(m))
                check(m[0] is m and m[-1] is m, 'the item of the measure %s',
                      srepr(m))
            check(m.measure is m, 'the measure of the measure %s', srepr(m))
            check(m.subarray(0) is m, 'subarray(0) of the measure %s',
                  srepr(m))
            check(raises(IndexError, m.subarray, 1),
                  'subarray(1) of the measure %s', srepr(m))
        k, t = d[2][0], d[2]
        eq(M.abs_d(m), ('D', (), t), 'the measure')
        if k == 'rec':
            names = [n for n, _ in t[1]]
            kids = [c for _, c in t[1]]
            eq(list(m.names), names, 'names')
            eq(len(m.types), len(kids), 'number of types')
            eq([n for n, _ in m.fields], names, 'fields')
            eq(dict((n, M.abs_d(f)) for n, f in m.dict.items()), dict(t[1]),
               'dict')
            eq([M.abs_d(f) for f in m.types], kids, 'types')
            for n, c in t[1]:
                eq(M.abs_d(m[n]), c, 'item %s' % srepr(n))
            for n in names:
                other = n + 'x'
                if other not in names:
                    check(raises(KeyError, m.__getitem__, other),
                          'there is no field %s', srepr(other))
            # what was given out is not the record itself
            m.names.append('zz')
            del m.types[:]
            m.dict.clear()
            eq(M.abs_d(m), ('D', (), t), 'the record after changing its lists')
            todo += zip(m.types, kids)
        elif k == 'tup':
            eq(len(m.dshapes), len(t[1]), 'items')
            todo += zip(m.dshapes, t[1])
        elif k == 'fun':
            eq(len(m.argtypes), len(t[1]), 'arguments')
            todo += zip(m.argtypes, t[1])
            todo.append((m.restype, t[2]))
        elif k == 'map':
            todo += [(m.key, t[1]), (m.value, t[2])]
        elif k == 'opt':
            todo.append((m.ty, t[1]))
            if t[1][2][0] != 'opt':
                eq(tuple(map(M.abs_dim, m.shape)), t[1][1],
                   'shape of an option')
            if t[1][2][0] == 'p' and not t[1][1]:
                eq(m.itemsize, m.ty.itemsize, 'itemsize of an option')
            elif not hasattr(m.ty, 'itemsize'):
                check(not hasattr(m, 'itemsize'), 'an option of %s has the '
                      'itemsize %s', srepr(m.ty), srepr(
                          getattr(m, 'itemsize', None)))
        elif k == 'units':
            todo.append((m.tp, t[2]))
        elif k == 'p':
            eq(m.itemsize, M.PLAIN_SIZE[t[1]], 'itemsize')
            check(type(m.alignment) is int and m.alignment >= 1 and
                  (m.itemsize == 0 or m.itemsize % m.alignment == 0),
                  'alignment %s of %s', srepr(m.alignment), srepr(m))
            if t[1] not in ('char', 'void'):
                import numpy as np
                dt = {'complex[float32]': 'complex64',
                      'complex[float64]': 'complex128'}.get(t[1], t[1])
                eq(m.itemsize, np.dtype(dt).itemsize, 'itemsize for numpy')
                eq(m.alignment, np.dtype(dt).alignment,
                   'alignment for numpy')
        if k not in ('p', 'null', 'date', 'json', 'bytes'):
            labels.add(k)
    return sorted(labels)


def unit_spelling(case):
    """The time unit written `text` after some noise."""
    import datashape as ds
    import numpy as np
    text, nums = case
    n = M.Noise(nums)
    word = text.strip()
    if word in SPELLINGS:
        want = SPELLINGS[word]
    else:
        want = None
    lit = M.quote(text, n.pick(4))
    routes = [
        lambda: ds.TimeDelta(text), lambda: ds.TimeDelta(unit=text),
        lambda: ds.dshape('timedelta[%s]' % lit).measure,
        lambda: ds.dshape('timedelta[unit=%s]' % lit).measure,
        lambda: ds.dshape('3 * {a: ?timedelta[unit=%s]}' % lit
                          ).measure['a'].ty,
    ]
    for i, route in enumerate(routes):
        try:
            got = route()
        except ValueError as e:
            if want is not None:
                raise Violation('route %d refuses the unit %s: %s' % (
                    i, srepr(text), srepr(e)))
            continue
        if want is None:
            raise Violation('route %d takes the unit %s as %s' % (
                i, srepr(text), srepr(got)))
        eq(M.abs_m(got), ('td', want), 'unit %s' % srepr(text))
        check(got == ds.TimeDelta(want) and hash(got) == hash(
            ds.TimeDelta(want)), 'unit %s makes another type', srepr(text))
        eq(str(got), str(ds.TimeDelta(want)), 'text')
        eq(got.to_numpy_dtype(), np.dtype('timedelta64[%s]' % want),
           'dtype of unit %s' % srepr(text))
    if want is None:
        return ['unknown']
    return None if text == want else ['known', 'unit:' + want]


def encoding_spelling(case):
    import datashape as ds
    text, size, nums = case
    n = M.Noise(nums)
    if text in CANONICAL:
        want = CANONICAL[text]
    else:
        low = text.lower().replace('-', '').replace('_', '')
        if low in ('ascii', 'a', 'u8', 'u16', 'u32', 'utf8', 'utf16', 'utf32',
                   'ucs2', '') or low.startswith('cp'):
            raise Unspec
        want = None
    lit = M.quote(text, n.pick(4))
    if size is None:
        routes = [lambda: ds.String(text), lambda: ds.String(None, text),
                  lambda: ds.dshape('string[%s]' % lit).measure]
    else:
        routes = [lambda: ds.String(size, text),
                  lambda: ds.dshape('string[%d, %s]' % (size, lit)).measure,
                  lambda: ds.dshape('var * (string[%d, %s], int8)' % (
                      size, lit)).measure.dshapes[0].measure]
    for i, route in enumerate(routes):
        try:
            got = route()
        except ValueError as e:
            if want is not None:
                raise Violation('route %d refuses the encoding %s: %s' % (
                    i, srepr(text), srepr(e)))
            continue
        if want is None:
            raise Violation('route %d takes the encoding %s as %s' % (
                i, srepr(text), srepr(got)))
        eq(M.abs_m(got), ('str', size, want), 'encoding %s' % srepr(text))
        twin = ds.String(want) if size is None else ds.String(size, want)
        check(got == twin and hash(got) == hash(twin) and
              str(got) == str(twin), 'encoding %s makes another type',
              srepr(text))
    if want is None:
        return ['unknown']
    return None if text == want else ['known', 'encoding:' + want]


def _near(words):
    """Known words, and others near them."""
    word = st.sampled_from(sorted(words))
    ws = st.text(st.sampled_from(' \t\n'), max_size=2)
    return word, ws


def units_st():
    word, ws = _near(SPELLINGS)
    return M.weighted(
        (4, st.builds(lambda a, w, b: a + w + b, ws, word, ws)),
        (1, word.map(lambda w: w.upper() if len(w) > 1 else w)),
        (1, word.map(lambda w: w[:1].swapcase() + w[1:])),
        (1, st.builds(lambda w, i, c: w[:i % (len(w) + 1)] + c +
                      w[i % (len(w) + 1):], word, st.integers(0, 12),
                      st.sampled_from('as0.-*_'))),
        (1, word.map(lambda w: w[:-1])),
        (1, st.builds(lambda w, a, n, b: w + a + 's' * n + b, word, ws,
                      st.integers(1, 4), ws)),
        (1, M.texts()))


def encodings_st():
    word, ws = _near(CANONICAL)
    return M.weighted(
        (4, word),
        (1, st.builds(lambda w, i, c: w[:i % (len(w) + 1)] + c +
                      w[i % (len(w) + 1):], word, st.integers(0, 12),
                      st.sampled_from('as08 .'))),
        (1, st.builds(lambda a, w: a + w, ws, word)),
        (1, st.sampled_from(('latin1', 'utf7', 'U', '8', 'utf', 'utf-64',
                             'A8', 'U64', 'utf-8-sig', 'utf-16le', 'None'))),
        (1, M.texts()))


SUBS = [
    Sub('small', None, parts, exhaustive=lambda tier: [
        (d, False) for d in S.datashapes(tier)]),
    Sub('parts', lambda: st.tuples(M.datashapes(M.Cfg(long=True), depth=3),
                                   st.booleans()), parts, quick=6000),
    Sub('units', lambda: st.tuples(units_st(), M.noises(2)), unit_spelling,
        quick=3000),
    Sub('encodings', lambda: st.tuples(
        encodings_st(), st.one_of(st.none(), st.integers(1, 30)),
        M.noises(2)), encoding_spelling, quick=3000),
]
