"""C09: ill-formed types are refused, however deeply they are nested."""
import re

from hypothesis import strategies as st

from .. import model as M
from .. import refparse as R
from .. import texts
from ..core import Sub, Violation, Unspec, check, eq, srepr

ID = 'C09'
RULE = ('an ill-formed part (two ellipses, a dimension as a type, a type as a '
        'dimension, duplicate field names, negative sizes, wrong parameters, '
        'unknown units, encodings or names, ...) placed at a random place of a '
        'random well-formed type, as text, through the constructors, or as a '
        'list of elements; it must be refused with SyntaxError, TypeError or '
        'ValueError while the same place accepts a well-formed part. '
        'Non-trivial: every case.')

REFUSAL = (SyntaxError, TypeError, ValueError)


# -- as text ----------------------------------------------------------------

FRAGMENTS = [
    ('ellipses', ('... * ... * int32', 'A... * B... * int32',
                  '... * 3 * A... * var * bool', 'ellipsis * ... * int32',
                  'N * ... * M * ... * ?int32', '... * A... * A... * string')),
    ('dimension as type', ('3', 'var', '...', 'ellipsis', 'A...', '3 * 4',
                           '3 * var', 'var * ...', '3 * A...', '?3', '?var',
                           '?...', '3 * ?var', '?', '3 * ?')),
    ('type as dimension', ('int32 * int32', '{x: int32} * int32', '() * int32',
                           '(int32) * int32', 'string * A',
                           'option[int32] * int32', 'string[10] * int32',
                           'map[int32, int32] * int32', 'null * int32',
                           'json * 3 * int32', 'decimal[3] * int32',
                           '(int32) -> int32 * int32' + ' * int32',
                           '3 * int32 * int32', 'date * var * int32')),
    ('sizes', ('-1 * int32', '-3 * var * int32', 'var * -12 * string',
               '01 * int32', '1.5 * int32', '"3" * int32', 'True * int32')),
    ('names', ('{x: int32, x: int32}', '{"a b": A, y: B, "a b": C}',
               'struct[["a", "a"], [int32, bool]]', '{a: A, "a": A}',
               '{x: {y: int32, y: A}}', '{3: int32}', '{True: int32}',
               '{: int32}', '{x}', '{x:}', '{x int32}', '{x: int32 y: A}',
               '{,}', '{x: int32,,}', '{[x]: int32}')),
    ('parameters', (
        'timedelta["parsec"]', 'timedelta["S"]', 'timedelta["US"]',
        'timedelta[3]', 'timedelta[unit=3]', 'timedelta[""]',
        'timedelta["ns", "us"]', 'timedelta[foo="ns"]',
        'string["klingon"]', 'string["u8"]', 'string["UTF-8"]',
        'string[int32]', 'string[1, 2]', 'string[1, "A", 2]',
        'string["A", 3]', 'string[["A"]]', 'string["A", "A"]',
        'decimal["1"]', 'decimal[scale=2]', 'decimal[1, 2, 3]',
        'decimal[1, "2"]', 'decimal[int32]', 'decimal[[1]]',
        'datetime[3]', 'datetime[int32]', 'datetime["a", "b"]',
        'datetime[["a"]]', 'time[3]', 'time[foo="a"]', 'time["a", tz="b"]',
        'units[3]', 'units["a", 3]', 'units["a", "b"]', 'units[int32]',
        'units[tp=int32]', 'units["a", tp=3]', 'units["a", int32, bool]',
        'complex[int32]', 'complex[3 * float32]', 'complex["float32"]',
        'complex[float32, float32]', 'complex[?float64]',
        'categorical[3]', 'categorical[["a"], type=3]',
        'categorical[["a"], type=string, ordered=3]',
        'categorical[["a"], string, ordered="yes"]',
        'categorical[["a", 1], type=string]', 'categorical[type=string]',
        'categorical[["a"], string, True, False]',
        'map[int32]', 'map[1, 2]', 'map[int32, 2]', 'map[int32, var]',
        'map[int32, int32, int32]', 'map[[int32], int32]',
        'option[3]', 'option[int32, int32]', 'option[var]', 'option[[int32]]',
        'option[...]', 'funcproto[int32, int32]', 'funcproto["ab", int32]',
        'funcproto[[int32], 3]', 'funcproto[[int32]]', 'funcproto[[3], int32]',
        'tuple[3]', 'tuple[[3]]', 'tuple[[1, 2]]', 'tuple[[int32], [int32]]',
        'struct[["a"], [int32, int32]]', 'struct[["a", "b"], [int32]]',
        'struct[["a"]]', 'int32[3]', 'bool["a"]', 'date["a"]', 'json[3]',
        'var[3] * int32', 'string[]', 'option[]', 'decimal[10,]',
        'string[10 "A"]', 'datetime[tz "UTC"]', 'datetime[tz=]',
        'decimal[precision=10, 2]', 'decimal[precision=1, precision=2]',
        'decimal[9, scale=1, scale=1]', 'time[tz="a", tz="b"]',
        'datetime[tz="UTC", tz="UTC"]', 'timedelta[unit="s", unit="us"]',
        'units["m", tp=int32, tp=float64]',
        'categorical[["a"], type=string, type=string]',
        'categorical[["a"], ordered=True, type=string, ordered=False]',
        'categorical[[int32], type=string]', 'categorical[[int32, bool]]',
        'categorical[["a", {x: int32}], type=string, ordered=True]')),
    ('symbols', ('foo', 'int128', 'Int32[3]', 'strings', '_x', 'true', 'none',
                 'foo * int32', '_x * int32', 'float', 'double', 'bool_',
                 'foo[3]', '"int32"', 'True', '[int32]', '[]')),
    ('syntax', ('int32 int32', '3 int32', '3 * * int32', '* int32', 'int32 *',
                'var int32', '... int32', '3, int32', '??int32', 'int32?',
                '(int32', 'int32)', '{x: int32', '[int32', '(int32}', '(,)',
                '(int32,,)', '(int32) -> ', '-> int32', 'int32 -> int32',
                '(int32) - > int32', 'A .. * int32', '3 ** int32', '!int32',
                'int32;', '3 * int32 # x\n * ', '(A, B -> C)', '{} {}',
                'int32 = 3', 'x: int32', '<int32>', "'a", 'a"', '\\')),
]
ALL_FRAGMENTS = [(k, f) for k, fs in FRAGMENTS for f in fs]
HOLE = ('tv', 'HOLEzqz')


def contexts():
    """A text with one or more %s where a datashape belongs."""
    def make(d, nums, wraps):
        n = M.Noise(nums)
        paths = list(M._paths(d))
        path = n.of(paths)
        sub = M.at(d, path)
        dims = tuple(x for x in sub[1] if x[0] != 'ell')
        d = M.replace(d, path, ('D', dims, HOLE))
        toks = M.tokens_of(d, n, trailing=False)
        text = ' '.join(toks).replace('%', '%%').replace(HOLE[1], '%s', 1)
        if HOLE[1] in text or '%s' not in text:
            text = '%s'
        for w in wraps:
            text = w.replace('%s', text)
        return text
    return st.builds(make, M.datashapes(depth=2), M.noises(12),
                     st.lists(st.sampled_from(texts.WRAPS[:-1]), max_size=2))


def refused_text(case):
    ctx, frag = case
    return refuse(ctx, dict((f, k) for k, f in ALL_FRAGMENTS)[frag], frag)


def refuse(ctx, kind, frag):
    import datashape
    good = ctx % 'int32'
    bad = ctx % frag
    try:
        R.parse(bad)
    except R.Reject:
        pass
    except Unspec:
        raise
    else:
        if kind == 'dimension as type' or kind == 'type as dimension' \
                or kind == 'syntax':
            raise Unspec()      # the context completes the fragment
        raise RuntimeError('the reference accepts %r' % bad)
    try:
        datashape.dshape(good)
    except REFUSAL as e:
        raise Violation('refuses the well-formed %s: %s' % (
            srepr(good), type(e).__name__))
    try:
        got = datashape.dshape(bad)
    except REFUSAL as e:
        if isinstance(e, UnicodeError):
            raise Violation('%s for %s' % (type(e).__name__, srepr(bad)))
    else:
        raise Violation('accepts %s, with the ill-formed part %s, as %s' % (
            srepr(bad), srepr(frag), srepr(got)))
    return [kind, 'nested' if ctx != '%s' else 'top']


def made(case):
    """An ill-formed part which is itself made at random."""
    ctx, d, kind, nums = case
    n = M.Noise(nums)
    dims = [M.tokens_of(('D', (x,), HOLE), n)[:-2] for x in d[1]
            if x[0] != 'ell']
    dims = [' '.join(x) for x in dims]
    measure = ' '.join(M.tokens_of(('D', (), d[2]), n, trailing=False))
    if kind == 'names':
        names = ['abcdefghijklmnop'[i] * (1 + n.of((0, 0, 1, 7)))
                 for i in range(n.of(range(1, 16)))]
        i = n.of(range(len(names)))
        names.insert(n.of(range(len(names) + 1)), names[i])
        types = [n.of(('int32', 'bool', 'A', '3 * int8')) for _ in names]
        types[n.of(range(len(types)))] = measure
        if n.pick(2):
            frag = 'struct[[%s], [%s]]' % (
                ', '.join('"%s"' % x for x in names), ', '.join(types))
        else:
            frag = '{%s}' % ', '.join(
                n.of(('%s: %s', '"%s": %s', "'%s': %s")) % p
                for p in zip(names, types))
    elif kind == 'ellipses':
        for _ in range(2 + n.of((0, 0, 1))):
            dims.insert(n.of(range(len(dims) + 1)),
                        n.of(('...', 'A...', 'B...', 'ellipsis')))
        frag = ' * '.join(dims + [measure])
    elif kind == 'sizes':
        k = n.of(range(1, 400)) ** n.of((1, 1, 5))
        dims.insert(n.of(range(len(dims) + 1)),
                    n.of(('-%d', '0%d', '%d.0', '+%d', '"%d"', '%d_0')) % k)
        frag = ' * '.join(dims + [measure])
    elif kind == 'symbols':
        name = n.of(KNOWN)
        bad = texts.near(name, n.pick(251) * 7 + n.pick(7), n.of('_013azxs'))
        if bad in KNOWN or not bad or not bad[0].islower() or \
                not bad.isalnum():
            raise Unspec()
        if n.pick(2):
            dims.insert(n.of(range(len(dims) + 1)), bad)
        else:
            measure = n.of((bad, bad, bad + '[3]', bad + "['a']",
                            bad + '[int32]', '?' + bad))
        frag = ' * '.join(dims + [measure])
    elif kind == 'type as dimension':
        dims.insert(n.of(range(len(dims) + 1)), measure)
        if measure[:1].isupper():
            raise Unspec()      # a type variable can be a dimension
        if d[2][0] == 'fun':
            raise Unspec()      # its result has the dimensions
        frag = ' * '.join(dims + [n.of(('int32', 'json', '{x: int32}'))])
    else:
        if not dims or dims[-1][:1].isupper() and '.' not in dims[-1]:
            raise Unspec()
        frag = ' * '.join(dims)
    return refuse(ctx, kind, frag)


KNOWN = ('bool', 'int8', 'int16', 'int32', 'int64', 'intptr', 'int', 'uint8',
         'uint16', 'uint32', 'uint64', 'uintptr', 'float16', 'float32',
         'float64', 'complex64', 'complex128', 'real', 'complex', 'string',
         'bytes', 'char', 'json', 'date', 'time', 'datetime', 'timedelta',
         'null', 'void', 'object', 'struct', 'tuple', 'funcproto', 'typevar',
         'option', 'map', 'units', 'decimal', 'categorical', 'var',
         'ellipsis', 'fixed')


# -- through constructors ---------------------------------------------------

def _bad_children():
    import datashape as ds
    return [ds.Fixed(3), ds.Var(), ds.Ellipsis(), ds.Ellipsis(ds.TypeVar('A')),
            3, 0, 2.5, object(), ('int32',), {'a': 'int32'}, '3', 'var',
            '3 * 4', 'int3', '... * ... * int32', '{a: int32, a: int32}',
            type, int, 'timedelta["eon"]', '']


CHILD_KINDS = ('Fixed', 'Var', 'Ellipsis', 'A...', '3', '0', '2.5', 'object()',
               'tuple', 'dict', "'3'", "'var'", "'3 * 4'", "'int3'",
               'two ellipses', 'duplicates', 'type', 'int', 'eon', "''")


def _containers(bad, good):
    import datashape as ds
    from datashape import coretypes as ct
    return {
        'field': lambda x: ds.Record([('a', good), ('b', x)]),
        'only field': lambda x: ds.Record([('a', x)]),
        'R field': lambda x: ds.R['a':good, 'b':x],
        'option': lambda x: ds.Option(x),
        'map key': lambda x: ds.Map(x, good),
        'map value': lambda x: ds.Map(good, x),
        'tuple item': lambda x: ds.Tuple([good, x]),
        'argument': lambda x: ct.Function(x, good),
        'result': lambda x: ct.Function(good, x),
        'unit type': lambda x: ds.Units('m', x),
        'measure': lambda x: ds.DataShape(ds.Fixed(3), x),
        'lone measure': lambda x: ds.dshape([x]),
        'in a list': lambda x: ds.dshape([ds.var, x]),
        'category type': lambda x: ds.Categorical(['a', 'b'], x),
    }


PLACES = ('field', 'only field', 'R field', 'option', 'map key', 'map value',
          'tuple item', 'argument', 'result', 'unit type', 'measure',
          'lone measure', 'in a list', 'category type')


def refused_child(case):
    place, which, d = case
    good = M.build(d)
    bad = _bad_children()[CHILD_KINDS.index(which)]
    make = _containers(bad, good)[place]
    if place == 'category type':
        good = M.build(('D', (), d[2]))
    if which == '3' and place == 'lone measure':
        pass
    make(good)
    try:
        got = make(bad)
    except REFUSAL:
        return [place, which]
    raise Violation('%s: accepts %s as %s' % (place, which, srepr(got)))


NOT_DIMS = ('int32', 'rec', 'tup', 'opt', 'map', 'fun', 'null', 'json', 'date',
            'string', 'cat', 'dec', 'datashape', 'float', 'text', 'none',
            'negative', 'bytes', 'units', 'td')


def _not_dims(d):
    import datashape as ds
    i = ('D', (), ('p', 'int32'))
    asts = {'int32': ('p', 'int32'), 'rec': ('rec', (('a', i),)),
            'tup': ('tup', (i,)), 'opt': ('opt', i), 'map': ('map', i, i),
            'fun': ('fun', (i,), i), 'null': ('null',), 'json': ('json',),
            'date': ('date',), 'string': ('str', None, 'U8'),
            'cat': ('cat', ('a',), ('str', None, 'U8'), False),
            'dec': ('dec', 3, 1), 'bytes': ('bytes',),
            'units': ('units', 'm', i), 'td': ('td', 'us')}
    out = dict((k, M.build_m(v)) for k, v in asts.items())
    out['datashape'] = ds.DataShape(ds.Fixed(3), ds.int32)
    out['float'] = 3.0
    out['text'] = 'int32'
    out['none'] = None
    out['negative'] = -3
    return out


def refused_dim(case):
    """Only dimensions may precede the measure."""
    import datashape as ds
    d, pos, which, how = case
    good = [M.build_dim(x) for x in d[1] if x[0] != 'ell']
    bad = _not_dims(d)[which]
    m = M.build_m(d[2])
    pos = pos % (len(good) + 1)
    dims = good[:pos] + [bad] + good[pos:]
    if how == 0:
        make = lambda: ds.DataShape(*(dims + [m]))
    elif how == 1:
        make = lambda: ds.dshape(dims + [m])
    elif how == 2:
        if which in ('float', 'none', 'text'):
            raise Unspec()
        make = lambda: bad * ds.DataShape(*(good + [m]))
    else:
        make = lambda: ds.Record([('a', ds.DataShape(*(dims + [m])))])
    try:
        got = make()
    except REFUSAL:
        return ['dim ' + which, 'how:%d' % how]
    raise Violation('%s is accepted as a dimension: %s' % (which, srepr(got)))


def two_ellipses(case):
    """dshape() validates what it is given, at any depth."""
    import datashape as ds
    d, path, e1, e2, mid, as_list = case
    paths = list(M._paths(d))
    path = paths[path % len(paths)]
    sub = M.at(d, path)
    dims = tuple(x for x in sub[1] if x[0] != 'ell')
    k = mid % (len(dims) + 1)
    good = M.replace(d, path, ('D', (('ell', e1),) + dims, sub[2]))
    bad = M.replace(d, path, ('D', (('ell', e1),) + dims[:k] + (('ell', e2),) +
                              dims[k:], sub[2]))

    def make(ast):
        ps = list(M.build(ast).parameters)
        if len(ps) == 1 and not as_list and ast[2][0] in ('rec', 'units'):
            return ds.dshape(ps[0])
        return ds.dshape(ps if as_list else tuple(ps))
    make(good)
    text = M.plain_text(bad)
    for what, f in (('elements', lambda: make(bad)),
                    ('text', lambda: ds.dshape(text))):
        try:
            got = f()
        except REFUSAL:
            continue
        raise Violation('two ellipses in the %s of %s are accepted: %s' % (
            what, srepr(text), srepr(got)))
    return ['in ' + (M.at(d, path[:-1])[2][0] if path else 'top')]


THUNKS = [
    ('Fixed(-1)', lambda ds: ds.Fixed(-1)),
    ('Fixed(2.0)', lambda ds: ds.Fixed(2.0)),
    ("Fixed('3')", lambda ds: ds.Fixed('3')),
    ('Fixed(None)', lambda ds: ds.Fixed(None)),
    ("TypeVar('a')", lambda ds: ds.TypeVar('a')),
    ("TypeVar('_A')", lambda ds: ds.TypeVar('_A')),
    ("TypeVar('1')", lambda ds: ds.TypeVar('1')),
    ('Function()', lambda ds: ds.Function()),
    ('Ellipsis(Fixed(3))', lambda ds: ds.Ellipsis(ds.Fixed(3))),
    ('Ellipsis(Ellipsis())', lambda ds: ds.Ellipsis(ds.Ellipsis())),
    ('DataShape()', lambda ds: ds.DataShape()),
    ("DataShape('int32')", lambda ds: ds.DataShape('int32')),
    ('DataShape(3)', lambda ds: ds.DataShape(3)),
    ('DataShape(var)', lambda ds: ds.DataShape(ds.var)),
    ('DataShape(var, 3)', lambda ds: ds.DataShape(ds.var, 3)),
    ('DataShape(...)', lambda ds: ds.DataShape(ds.Ellipsis())),
    ('dshape(Fixed(3))', lambda ds: ds.dshape(ds.Fixed(3))),
    ('dshape(Var())', lambda ds: ds.dshape(ds.Var())),
    ('dshape(Ellipsis())', lambda ds: ds.dshape(ds.Ellipsis())),
    ('dshape(A...)', lambda ds: ds.dshape(ds.Ellipsis(ds.TypeVar('A')))),
    ('dshapes(int32, ...)', lambda ds: ds.dshapes('int32', ds.Ellipsis())),
    ('dshape(3)', lambda ds: ds.dshape(3)),
    ('dshape(None)', lambda ds: ds.dshape(None)),
    ('dshape(1.5)', lambda ds: ds.dshape(1.5)),
    ('dshape({})', lambda ds: ds.dshape({})),
    ('dshape([])', lambda ds: ds.dshape([])),
    ('dshape([3])', lambda ds: ds.dshape([3])),
    ('dshape(-1)', lambda ds: ds.dshape([-1, ds.int32])),
    ('-1 * int32', lambda ds: -1 * ds.int32),
    ('-1 * ds', lambda ds: -1 * ds.dshape('3 * int32')),
    ('3 * 4', lambda ds: 3 * ds.Fixed(4)),
    ('dup 1', lambda ds: ds.Record([('a', ds.int32), ('a', ds.int32)])),
    ('dup 2', lambda ds: ds.Record([(1, ds.int32), ('1', ds.int32)])),
    ('dup R', lambda ds: ds.R['a':'int32', 'b':'int32', 'a':'int32']),
    ('R 3', lambda ds: ds.R[3:'int32']),
    ('R no type', lambda ds: ds.R['a':]),
    ('R no name', lambda ds: ds.R[:'int32']),
    ('R step', lambda ds: ds.R['a':'int32':'int32']),
    ('R str', lambda ds: ds.R['a']),
    ('R mix', lambda ds: ds.R['a':'int32', 'b']),
    ('Time(3)', lambda ds: ds.Time(3)),
    ('Time(int32)', lambda ds: ds.Time(ds.int32)),
    ('DateTime(3)', lambda ds: ds.DateTime(3)),
    ("DateTime(['a'])", lambda ds: ds.DateTime(['a'])),
    ('Units(3)', lambda ds: ds.Units(3)),
    ('Units(m, int32)', lambda ds: ds.Units('m', ds.int32)),
    ('Units(m, 3)', lambda ds: ds.Units('m', 3)),
    ('String(3 args)', lambda ds: ds.String(1, 'A', 2)),
    ('String(klingon)', lambda ds: ds.String('klingon')),
    ('String(5, klingon)', lambda ds: ds.String(5, 'klingon')),
    ('String(-1)', lambda ds: ds.String(-1)),
    ('String(-3, A)', lambda ds: ds.String(-3, 'A')),
    ("String('')", lambda ds: ds.String('')),
    ("String(5, '')", lambda ds: ds.String(5, '')),
    ("String(5, 0)", lambda ds: ds.String(5, 0)),
    ("String(5, [])", lambda ds: ds.String(5, [])),
    ('String(1.5)', lambda ds: ds.String(1.5)),
    ('String(int32)', lambda ds: ds.String(ds.int32)),
    ('TimeDelta(eon)', lambda ds: ds.TimeDelta('eon')),
    ("TimeDelta('')", lambda ds: ds.TimeDelta('')),
    ("TimeDelta(' ')", lambda ds: ds.TimeDelta(' ')),
    ('TimeDelta(3)', lambda ds: ds.TimeDelta(3)),
    ('TimeDelta(None)', lambda ds: ds.TimeDelta(None)),
    ("Decimal('a')", lambda ds: ds.Decimal('a')),
    ('Decimal(1.5)', lambda ds: ds.Decimal(1.5)),
    ('Decimal(10, 2.5)', lambda ds: ds.Decimal(10, 2.5)),
    ('Decimal()', lambda ds: ds.Decimal()),
    ('Categorical(3)', lambda ds: ds.Categorical(3)),
    ('Categorical(type=3)', lambda ds: ds.Categorical(['a'], 3)),
    ('Categorical(int32)', lambda ds: ds.Categorical([ds.int32])),
    ('Categorical(int32, string)',
     lambda ds: ds.Categorical([ds.int32], ds.string)),
    ('Categorical(a, 3 * int8)', lambda ds: ds.Categorical(
        ['a', 3 * ds.DataShape(ds.int8)], ds.string, True)),
    ('Categorical(ordered=3)',
     lambda ds: ds.Categorical(['a'], ds.string, 3)),
    ('Categorical(type=object())',
     lambda ds: ds.Categorical(['a'], object())),
]


def _wrong():
    """Each parameter of each type, given what it cannot be."""
    any_ = {'None': None, '0': 0, '3': 3, '-1': -1, 'False': False,
            'True': True, '0.0': 0.0, '1.5': 1.5, "''": '', "'eon'": 'eon',
            "b'm'": b'm', '[]': [], '()': (), '{}': {}, "['A']": ['A'],
            'object()': object(), 'int': int, 'complex': 1j}
    numbers = ('0', '3', '-1', 'False', 'True')
    texts = ("''", "'eon'")
    made = [
        ('Time(%s)', lambda ds, x: ds.Time(x), texts + ('None',)),
        ('Time(tz=%s)', lambda ds, x: ds.Time(tz=x), texts + ('None',)),
        ('DateTime(%s)', lambda ds, x: ds.DateTime(x), texts + ('None',)),
        ('DateTime(tz=%s)', lambda ds, x: ds.DateTime(tz=x),
         texts + ('None',)),
        ('Units(%s)', lambda ds, x: ds.Units(x), texts),
        ('Units(%s, int32)', lambda ds, x: ds.Units(x, ds.dshape('int32')),
         texts),
        ('Units(m, %s)', lambda ds, x: ds.Units('m', x), ('None',)),
        ('Units(m, tp=%s)', lambda ds, x: ds.Units('m', tp=x), ('None',)),
        ('TimeDelta(%s)', lambda ds, x: ds.TimeDelta(x), ()),
        ('TimeDelta(unit=%s)', lambda ds, x: ds.TimeDelta(unit=x), ()),
        ('Decimal(%s)', lambda ds, x: ds.Decimal(x), numbers),
        ('Decimal(5, %s)', lambda ds, x: ds.Decimal(5, x), numbers),
        ('Decimal(5, scale=%s)', lambda ds, x: ds.Decimal(5, scale=x),
         numbers),
        ('Fixed(%s)', lambda ds, x: ds.Fixed(x), ('0', '3', 'False', 'True')),
        ('String(%s)', lambda ds, x: ds.String(x),
         ('None', '0', '3', 'False', 'True')),
        ('String(%s, A)', lambda ds, x: ds.String(x, 'A'),
         ('None', '0', '3', 'False', 'True')),
        ('String(5, %s)', lambda ds, x: ds.String(5, x), ('None',)),
        ('Categorical(a, %s)', lambda ds, x: ds.Categorical(['a'], x),
         ('None',)),
        ('Categorical(a, type=%s)',
         lambda ds, x: ds.Categorical(['a'], type=x), ('None',)),
        ('Categorical(a, ordered=%s)',
         lambda ds, x: ds.Categorical(['a'], ordered=x), ('False', 'True')),
        ('Categorical(a, string, %s)',
         lambda ds, x: ds.Categorical(['a'], ds.string, x),
         ('False', 'True')),
        ('TypeVar(%s)', lambda ds, x: ds.TypeVar(x), ()),
        ('Ellipsis(%s)', lambda ds, x: ds.Ellipsis(x), ('None',)),
        ('Ellipsis(typevar=%s)', lambda ds, x: ds.Ellipsis(typevar=x),
         ('None',)),
        ('Option(%s)', lambda ds, x: ds.Option(x), ()),
        ('Map(%s, int32)', lambda ds, x: ds.coretypes.Map(x, ds.int32), ()),
        ('Map(int32, %s)', lambda ds, x: ds.coretypes.Map(ds.int32, x), ()),
        ('Tuple([%s])', lambda ds, x: ds.Tuple([x]), ()),
        ('Function(%s, int32)', lambda ds, x: ds.Function(x, ds.int32), ()),
        ('Function(int32, %s)', lambda ds, x: ds.Function(ds.int32, x), ()),
        ('Record(a: %s)', lambda ds, x: ds.Record([('a', x)]), ()),
        ('R[a: %s]', lambda ds, x: ds.R['a':x], ()),
        ('DataShape(3, %s)', lambda ds, x: ds.DataShape(3, x), ()),
        ('dshape([3, %s])', lambda ds, x: ds.dshape([3, x]), ()),
        ('dshape([%s, int32])', lambda ds, x: ds.dshape([x, ds.int32]),
         ('0', '3', 'False', 'True')),
        ('DataShape(%s, int32)', lambda ds, x: ds.DataShape(x, ds.int32),
         ('0', '3', 'False', 'True')),
    ]
    for name, f, right in made:
        for k, v in any_.items():
            if k not in right:
                yield name % k, lambda ds, f=f, v=v: f(ds, v)


THUNKS += list(_wrong())


def thunk(case):
    import datashape
    name = case
    f = dict(THUNKS)[name]
    try:
        got = f(datashape)
    except REFUSAL:
        return [name]
    raise Violation('%s is accepted: %s' % (name, srepr(got)))


VARIABLE = re.compile(r'[A-Z][A-Za-z0-9_]*\Z')


def variable(case):
    """A type variable is named as it could be in a text."""
    import datashape as ds
    d, name, ell = case
    good = bool(VARIABLE.match(name)) and name not in ('True', 'False')
    try:
        x = ds.TypeVar(name)
    except REFUSAL as e:
        if good or isinstance(e, UnicodeError):
            raise Violation('refuses TypeVar(%s): %s' % (
                srepr(name), type(e).__name__))
        return ['refused']
    check(good, 'accepts TypeVar(%s)', srepr(name))
    dims = tuple(y for y in d[1] if y[0] != 'ell')
    d = ('D', ((('ell', name) if ell else ('tv', name)),) + dims, d[2])
    x = (ds.Ellipsis(x) if ell else x) * M.build(('D', dims, d[2]))
    eq(M.abs_d(x), d, 'dimension in front')
    eq(M.abs_d(ds.dshape(M.plain_text(d))), d, 'from text')
    return ['ellipsis' if ell else 'variable']


def variables():
    return st.one_of(
        M.TYPEVARS, st.text(max_size=4), M.names(),
        st.builds(lambda a, b, c: a + b + c, M.TYPEVARS,
                  st.sampled_from(' \n\0-.,*[]\'"\\\xb2\u0661\u4e00\xc9'),
                  st.one_of(st.just(''), M.TYPEVARS)),
        st.text('AZ\xc9\u0394\u01c5_09az', max_size=3),
        st.sampled_from(('True', 'False', 'TRUE', 'None', 'A' * 500)))


def exhaustive_text(tier):
    ctxs = ['%s', '{x: %s}', '(int32, %s)', '(%s) -> int32', '() -> %s',
            'option[%s]', 'map[%s, int32]', 'map[int32, %s]',
            "units['m', %s]", '3 * {y: int32, x: 4 * {z: (%s, bool)}}',
            'struct[["a", "b"], [int32, %s]]', 'tuple[[%s]]',
            'funcproto[[%s], int32]', '{x: option[(%s) -> bool]}', '?(%s,)']
    return [(c, f) for c in ctxs for k, f in ALL_FRAGMENTS]


def exhaustive_child(tier):
    ds = [('D', (), ('p', 'int32')), ('D', (('fixed', 3),), ('json',))]
    return [(p, c, d) for p in PLACES for c in CHILD_KINDS for d in ds]


_ell = st.one_of(st.none(), st.sampled_from('AB'))

SUBS = [
    Sub('thunks', None, thunk, exhaustive=lambda tier: [n for n, f in THUNKS]),
    Sub('fragments', lambda: st.tuples(
        contexts(), st.sampled_from([f for k, f in ALL_FRAGMENTS])),
        refused_text, quick=5000, exhaustive=exhaustive_text),
    Sub('made', lambda: st.tuples(
        contexts(), M.datashapes(depth=1),
        st.sampled_from(('names', 'ellipses', 'sizes', 'symbols',
                         'type as dimension', 'dimension as type')),
        st.lists(st.integers(0, 10 ** 6), min_size=4, max_size=40)), made,
        quick=4000),
    Sub('children', lambda: st.tuples(
        st.sampled_from(PLACES), st.sampled_from(CHILD_KINDS),
        M.datashapes(M.Cfg(dims=('fixed', 'var', 'tv')), depth=2)),
        refused_child, quick=2000, exhaustive=exhaustive_child),
    Sub('dims', lambda: st.tuples(
        M.datashapes(depth=1), st.integers(0, 3), st.sampled_from(NOT_DIMS),
        st.integers(0, 3)), refused_dim, quick=2000),
    Sub('ellipses', lambda: st.tuples(
        M.datashapes(depth=3), st.integers(0, 30), _ell, _ell,
        st.integers(0, 3), st.booleans()), two_ellipses, quick=3000),
    Sub('variables', lambda: st.tuples(
        M.datashapes(depth=1), variables(), st.booleans()), variable,
        quick=1500),
]
