"""C32: predefined names and the registry of names."""
import ctypes
import itertools

import numpy as np
from hypothesis import strategies as st

from .. import model as M
from ..core import Sub, Violation, check, eq, srepr

ID = 'C32'
RULE = ('every predefined name of the library, exhaustively: the type it '
        'names, its size and alignment in C where it is named after a C type, '
        'the name in the registry and the name in a text; and random '
        'histories of names registered for random datashapes, looked up, '
        'registered again, missing, and classes of types defined meanwhile. '
        'Non-trivial: every name; histories with a lookup.')
ASSUMPTIONS = ('the reference is the ctypes module of the same Python',)

P = lambda n: ('p', n)
CNAMES = {'c_byte': 'int8', 'c_short': 'int16', 'c_int': 'int32',
          'c_longlong': 'int64', 'c_ubyte': 'uint8', 'c_ushort': 'uint16',
          'c_ulonglong': 'uint64', 'c_float': 'float32',
          'c_double': 'float64', 'c_ssize_t': 'int64', 'c_size_t': 'uint64',
          'c_long': None, 'c_ulong': None}
ATTRS = {
    'int_': P('int32'), 'real': P('float64'), 'half': P('float16'),
    'single': P('float32'), 'double': P('float64'), 'c_half': P('float16'),
    'complex64': P('complex[float32]'), 'complex128': P('complex[float64]'),
    'complex_float32': P('complex[float32]'),
    'complex_float64': P('complex[float64]'),
    'complex_': P('complex[float64]'), 'bool_': P('bool'), 'char': P('char'),
    'void': P('void'), 'object_': P('object'), 'pyobj': P('object'),
    'date_': ('date',), 'time_': ('time', None),
    'datetime_': ('datetime', None), 'timedelta_': ('td', 'us'),
    'null': ('null',), 'bytes_': ('bytes',), 'string': ('str', None, 'U8'),
    'json': ('json',), 'NullRecord': ('rec', ()),
    'int8': P('int8'), 'int16': P('int16'), 'int32': P('int32'),
    'int64': P('int64'), 'uint8': P('uint8'), 'uint16': P('uint16'),
    'uint32': P('uint32'), 'uint64': P('uint64'), 'float16': P('float16'),
    'float32': P('float32'), 'float64': P('float64'),
    'intptr': P('int%d' % (8 * ctypes.sizeof(ctypes.c_void_p))),
    'uintptr': P('uint%d' % (8 * ctypes.sizeof(ctypes.c_void_p))),
}
REGISTERED = {
    'int': P('int32'), 'real': P('float64'), 'complex64': ATTRS['complex64'],
    'complex128': ATTRS['complex128'], 'date': ('date',),
    'time': ('time', None), 'datetime': ('datetime', None),
    'timedelta': ('td', 'us'), 'null': ('null',), 'bytes': ('bytes',),
    'string': ('str', None, 'U8'), 'float': P('float32'),
    'double': P('float64'), 'intptr': ATTRS['intptr'],
    'uintptr': ATTRS['uintptr'], 'bool': P('bool'), 'char': P('char'),
    'void': P('void'), 'object': P('object'),
    'complex[float32]': ATTRS['complex64'],
    'complex[float64]': ATTRS['complex128'],
}
for _n in ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32',
           'uint64', 'float16', 'float32', 'float64'):
    REGISTERED[_n] = P(_n)
CLASSES = ('Mono', 'Unit', 'Ellipsis', 'Null', 'Date', 'Time', 'DateTime',
           'TimeDelta', 'Units', 'Bytes', 'String', 'Decimal', 'DataShape',
           'Option', 'CType', 'Fixed', 'Var', 'TypeVar', 'Function', 'Map',
           'Record', 'Categorical', 'Tuple', 'JSON')
C_OF = {'int8': ctypes.c_int8, 'int16': ctypes.c_int16,
        'int32': ctypes.c_int32, 'int64': ctypes.c_int64,
        'uint8': ctypes.c_uint8, 'uint16': ctypes.c_uint16,
        'uint32': ctypes.c_uint32, 'uint64': ctypes.c_uint64,
        'float32': ctypes.c_float, 'float64': ctypes.c_double,
        'bool': ctypes.c_bool, 'object': ctypes.py_object,
        'char': ctypes.c_char}


def table():
    for n in sorted(ATTRS):
        yield ('attr', n)
    for n in sorted(CNAMES):
        yield ('c', n)
    for n in sorted(REGISTERED):
        yield ('registered', n)
    for n in CLASSES:
        yield ('class', n)
    for n in sorted(C_OF):
        yield ('layout', n)
    for n in M.PLAIN:
        if n not in ('void', 'char', 'object'):
            yield ('numpy', n)
    yield ('dim', 'var')
    yield ('na', '')


def same(x, y, what):
    check(x == y and y == x and not x != y, '%s: %s is not %s', what,
          srepr(x), srepr(y))
    eq(hash(x), hash(y), what + ': hash')


def name(case):
    import datashape as ds
    from datashape import coretypes as ct
    what, n = case
    if what == 'attr':
        for mod in (ct, ds):
            x = getattr(mod, n)
            eq(M.abs_m(x), ATTRS[n], n)
            same(x, M.build_m(ATTRS[n]), n)
    elif what == 'c':
        x = getattr(ct, n)
        c = getattr(ctypes, n)
        if CNAMES[n]:
            eq(M.abs_m(x), P(CNAMES[n]), n)
        eq(x.itemsize, ctypes.sizeof(c), 'size of ' + n)
        eq(x.alignment, ctypes.alignment(c), 'alignment of ' + n)
        kind = 'float' if n in ('c_float', 'c_double') else (
            'uint' if n.startswith(('c_u', 'c_size')) else 'int')
        eq(x.name, '%s%d' % (kind, 8 * ctypes.sizeof(c)), n)
    elif what == 'registered':
        x = ct.Type.lookup_type(n)
        eq(M.abs_m(x), REGISTERED[n], 'registered ' + n)
        # plain class names are registered too; the class gives the same
        if n not in ('bool', 'object', 'char', 'void') and '[' not in n and \
                n not in ('int', 'float', 'double'):
            y = ds.dshape(n).measure
            same(x, y, 'the text ' + n)
    elif what == 'class':
        check(ct.Type.lookup_type(n) is getattr(ct, n), 'class %s', n)
    elif what == 'layout':
        x = M.build_m(P(n))
        eq((x.itemsize, x.alignment),
           (ctypes.sizeof(C_OF[n]), ctypes.alignment(C_OF[n])), n)
    elif what == 'numpy':
        x = M.build_m(P(n))
        t = np.dtype({'complex[float32]': 'complex64',
                      'complex[float64]': 'complex128'}.get(n, n))
        eq((x.itemsize, x.alignment), (t.itemsize, t.alignment), n)
    elif what == 'dim':
        eq(M.abs_dim(ct.var), ('var',), 'var')
        eq(M.abs_dim(ds.var), ('var',), 'var')
    else:
        check(ct.na is ct.Null, 'na')
    return [what]


_counter = itertools.count()


def history(case):
    """Registering, looking up, missing names."""
    import datashape as ds
    from datashape import coretypes as ct
    fresh = 'dsv%d %%s' % next(_counter)
    model = {}
    labels = set()
    for op, n, d in case:
        key = fresh % n
        if op in ('register', 'typeset'):
            # (a set of types may be empty)
            x = M.build(d) if op == 'register' else ds.TypeSet(
                *[M.build_m(d[2])] * len(d[1]))
            try:
                ct.Type.register(key, x)
                check(key not in model, '%s was registered twice', srepr(n))
                model[key] = x
                labels.add('registered')
            except TypeError:
                check(key in model, '%s could not be registered', srepr(n))
                labels.add('refused')
        elif op in ('class', 'ctype', 'derived') and key in model:
            continue
        elif op == 'class':
            cls = type(ct.Unit)(key, (ct.Unit,), {'__slots__': ()})
            model[key] = cls
            labels.add('class')
        elif op == 'abstract':
            cls = type(ct.Unit)(key, (ct.Unit,), {
                '__slots__': (), 'abstract': True})
            labels.add('abstract')
        elif op == 'derived':
            base = type(ct.Unit)(key + ' base', (ct.Unit,), {
                '__slots__': (), 'abstract': True})
            cls = type(ct.Unit)(key, (base,), {'__slots__': ()})
            model[key] = cls
            labels.add('derived')
        elif op == 'ctype':
            model[key] = ct.CType(key, 8, 8)
            labels.add('ctype')
        elif op == 'named' and n:
            # (that a name already taken is refused is not asked for)
            x = M.build(d)
            try:
                y = ds.DataShape(*x.parameters, name=key)
            except TypeError:
                check(key in model, '%s could not be named', srepr(d))
                labels.add('name refused')
            else:
                model[key] = y
                check(y == x and x == y, 'named %s differs', srepr(d))
                eq((y.name, x.name), (key, None), 'names')
                eq(str(y), key, 'text of what is named')
                eq(M.abs_d(y), d, 'what is named')
                labels.add('named')
        elif op == 'builtin':
            b = sorted(REGISTERED)[len(n) % len(REGISTERED)]
            before = ct.Type.lookup_type(b)
            try:
                ct.Type.register(b, M.build(d))
            except TypeError:
                pass
            else:
                raise Violation('%s was registered again' % b)
            check(ct.Type.lookup_type(b) is before, '%s has changed', b)
            labels.add('builtin')
        for k in sorted(model):
            check(ct.Type.lookup_type(k) is model[k],
                  'lookup of %s after %s', srepr(k), op)
        if key not in model:
            try:
                x = ct.Type.lookup_type(key)
            except KeyError:
                labels.add('missing')
            else:
                raise Violation('%s was never registered, but is %s' % (
                    srepr(n), srepr(x)))
            try:
                x = ds.dshape(n) if n in ('mytype', 'other') else None
            except SyntaxError:
                pass
            else:
                check(x is None, '%s parses', n)
    return sorted(labels)


def ops():
    return st.lists(st.tuples(
        M.weighted((4, st.just('register')), (1, st.just('class')),
                   (1, st.just('abstract')), (1, st.just('derived')),
                   (1, st.just('ctype')), (1, st.just('builtin')),
                   (1, st.just('typeset')), (2, st.just('named')),
                   (3, st.just('lookup'))),
        st.sampled_from(('mytype', 'other', 'A', 'caf\xe9', '', 'x y')),
        M.datashapes(depth=1)), min_size=1, max_size=8)


def few_ops(tier):
    """All histories of up to three (thorough: four) operations."""
    ints = ('D', (), ('p', 'int8'))
    recs = ('D', (('var',),), ('rec', (('a', ints),)))
    one = [(op, n, d) for op in ('register', 'class', 'abstract', 'derived',
                                 'ctype', 'builtin', 'named',
                                 'typeset', 'lookup')
           for n in ('mytype', 'A') for d in (ints, recs)
           if d is ints or op == 'register']
    for k in range(1, 5 if tier == 'thorough' else 4):
        for h in itertools.product(one, repeat=k):
            yield h


SUBS = [
    Sub('small', None, history, exhaustive=few_ops),
    Sub('names', None, name, exhaustive=lambda tier: list(table())),
    Sub('history', ops, history, quick=2000),
]
