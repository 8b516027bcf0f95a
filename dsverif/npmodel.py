"""Literal descriptions of NumPy dtypes and the tables between them and the
measures of the model."""
from hypothesis import strategies as st

from . import model as M

# spec: ('n', kind, size, order)      bool, ints, floats, complex
#       ('S', n, order) ('U', n, order)
#       ('M', unit, order) ('m', unit, order)   unit None: generic
#       ('O',) ('V', n) ('g', kind)   object, raw bytes, long double
#       ('r', ((name, spec, shape), ...), layout)  record
NUM = {('b', 1): 'bool', ('i', 1): 'int8', ('i', 2): 'int16',
       ('i', 4): 'int32', ('i', 8): 'int64', ('u', 1): 'uint8',
       ('u', 2): 'uint16', ('u', 4): 'uint32', ('u', 8): 'uint64',
       ('f', 2): 'float16', ('f', 4): 'float32', ('f', 8): 'float64',
       ('c', 8): 'complex[float32]', ('c', 16): 'complex[float64]'}
NUMKEYS = tuple(sorted(NUM))
MUNITS = M.UNITS + ('ps', 'fs', 'as')
DATES = ('D', 'W', 'M', 'Y')


def code(unit):
    return '' if unit is None else '[%s]' % unit


def dtype(s):
    import numpy as np
    k = s[0]
    if k == 'n':
        return np.dtype('%s%s%d' % (s[3], '?' if s[1] == 'b' else s[1],
                                    s[2])) if s[1] != 'b' else \
            np.dtype('?')
    if k in 'SU':
        return np.dtype('%s%s%d' % (s[2], k, s[1]))
    if k in 'Mm':
        return np.dtype('%s%s8%s' % (s[2], k, code(s[1])))
    if k == 'O':
        return np.dtype('O')
    if k == 'V':
        return np.dtype('V%d' % s[1])
    if k == 'g':
        return np.dtype(s[1])
    fields = []
    for name, f, shape in s[1]:
        fields.append((name, dtype(f), shape) if shape else
                      (name, dtype(f)))
    if isinstance(s[2], bool):
        return np.dtype(fields, align=s[2])
    if s[2] == 'title':
        return np.dtype([(('T%d' % i, f[0]),) + f[1:] if 'T%d' % i not in
                         dict(x[:2] for x in fields) else f
                         for i, f in enumerate(fields)])
    # laid out by hand, in memory order or against it
    forms = [np.dtype(f[1:]) if len(f) > 2 else f[1] for f in fields]
    order = list(range(len(fields)))
    if s[2] == 'reversed':
        order = order[::-1]
    at, offsets = 8, [0] * len(fields)
    for i in order:
        offsets[i] = at
        at += forms[i].itemsize + 3
    return np.dtype({'names': [f[0] for f in fields], 'formats': forms,
                     'offsets': offsets, 'itemsize': at + 5})


def measure(s):
    """The measure it becomes, or None if it has none."""
    k = s[0]
    if k == 'n':
        return ('p', NUM[s[1], s[2]])
    if k == 'S':
        return ('str', s[1], 'A')
    if k == 'U':
        return ('str', s[1], 'U32')
    if k == 'M':
        return ('date',) if s[1] in DATES else ('datetime', None)
    if k == 'm':
        return ('td', s[1]) if s[1] in M.UNITS else None
    if k == 'O':
        return ('p', 'object')
    if k in 'Vg':
        return None
    fields = []
    for name, f, shape in s[1]:
        m = measure(f)
        if m is None:
            return None
        fields.append((name, ('D', tuple(('fixed', n) for n in shape), m)))
    return ('rec', tuple(fields))


def settled(s):
    """What it comes back as: native order, no padding."""
    k = s[0]
    if k == 'n':
        return s[:3] + ('=',)
    if k in 'SU':
        return s[:2] + ('=',)
    if k == 'M':
        return ('M', 'D' if s[1] in DATES else 'us', '=')
    if k == 'm':
        return s[:2] + ('=',)
    if k == 'r':
        return ('r', tuple((n, settled(f), dims) for n, f, dims in s[1]),
                False)
    return s


def _no_empty(f):
    # NumPy has no sub-arrays of strings of length 0
    return f[:2] + ((),) if f[1][0] in 'SU' and f[1][1] == 0 else f


def specs():
    order = st.sampled_from('=<>')
    leaf = M.weighted(
        (8, st.builds(lambda ks, o: ('n',) + ks + (o,),
                      st.sampled_from(NUMKEYS), order)),
        (2, st.tuples(st.just('S'), st.integers(0, 40), order)),
        (2, st.tuples(st.just('U'), st.integers(0, 40), order)),
        (3, st.tuples(st.just('M'), st.sampled_from(MUNITS + (None,)), order)),
        (3, st.tuples(st.just('m'), st.sampled_from(M.UNITS * 3 + MUNITS +
                                                    (None,)), order)),
        (1, st.just(('O',))))
    bad = st.one_of(st.tuples(st.just('V'), st.integers(1, 9)),
                    st.tuples(st.just('g'), st.sampled_from(
                        ('longdouble', 'clongdouble'))))
    name = M.names().filter(bool)
    sub = M.weighted((3, st.just(())), (1, st.lists(
        st.integers(1, 4), min_size=1, max_size=2).map(tuple)))

    def rec(inner):
        return st.tuples(st.just('r'), st.lists(
            st.tuples(name, inner, sub).map(_no_empty), min_size=1, max_size=4,
            unique_by=lambda f: f[0]).map(tuple), st.sampled_from(
                (False, False, True, 'padded', 'reversed', 'title')))
    mixed = M.weighted((15, leaf), (1, bad))
    one = rec(mixed)
    return M.weighted((4, mixed), (3, one),
                      (2, rec(M.weighted((2, mixed), (1, one)))))


MOST = 2 ** 31 - 1     # NumPy's sizes are C integers


def to_dtype(m):
    """The dtype of a measure, or None if it has none."""
    import numpy as np
    k = m[0]
    if k == 'p':
        if m[1] == 'char':
            return None
        return np.dtype({'complex[float32]': 'c8', 'complex[float64]': 'c16',
                         'void': 'V0', 'object': 'O', 'bool': '?'}.get(
                             m[1], m[1]))
    if k == 'str':
        if m[1] is None:
            return np.dtype('O')
        if m[1] * (1 if m[2] == 'A' else 4) > MOST:
            return None
        return np.dtype('%s%d' % ('S' if m[2] == 'A' else 'U', m[1]))
    if k == 'date':
        return np.dtype('M8[D]')
    if k == 'datetime':
        return np.dtype('M8[us]')
    if k == 'td':
        return np.dtype('m8[%s]' % m[1])
    if k == 'dec':
        if m[2] != 0:
            return np.dtype('f8')
        for top, name in ((2, 'i1'), (4, 'i2'), (9, 'i4'), (18, 'i8')):
            if m[1] <= top:
                return np.dtype(name)
        return None
    if k == 'opt':
        d = m[1]
        if not d[1] and d[2][0] in ('date', 'datetime', 'td'):
            return to_dtype(d[2])
        return None
    if k == 'map':
        return to_dtype(m[1][2])
    if k in ('rec', 'tup'):
        names, formats = [], []
        pairs = m[1] if k == 'rec' else [('f%d' % i, d)
                                         for i, d in enumerate(m[1])]
        for name, d in pairs:
            t = to_dtype(d[2])
            if t is None or any(dim[0] != 'fixed' for dim in d[1]):
                return None
            shape = tuple(dim[1] for dim in d[1])
            if shape:
                # NumPy has no immense sub-arrays, nor any of 'U0'
                try:
                    t = np.dtype((t, shape))
                except ValueError:
                    return None
            names.append(name)
            formats.append(t)
        if sum(t.itemsize for t in formats) > MOST:
            return None
        return np.dtype({'names': names, 'formats': formats})
    return None
