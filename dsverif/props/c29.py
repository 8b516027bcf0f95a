"""C29: names in a text mean what the symbol table given says."""
from hypothesis import strategies as st

from .. import model as M
from .. import small
from ..core import Sub, Violation, check, eq, srepr

ID = 'C29'
RULE = ('texts of random datashapes parsed with symbol tables of one\'s own: '
        'plain names that stand for other types, entries taken away, added '
        'constructors of types that record the arguments they '
        'are called with (integers, text, booleans, datashapes, lists of '
        'these, by position and by name), and tables without anything. '
        'Non-trivial: the table has something to say about the text.')
ASSUMPTIONS = ('empty lists are not spoken about',)

SIMPLE = ('bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16',
          'uint32', 'uint64', 'float16', 'float32', 'float64', 'date',
          'json', 'bytes', 'null', 'object', 'void', 'char')
SPECIAL = ('date', 'json', 'bytes', 'null')


def meant(name):
    return (name,) if name in SPECIAL else ('p', name)


def swap(d, table):
    """d with its plain types replaced."""
    m = d[2]
    name = m[1] if m[0] == 'p' else m[0]
    if name in table and len(m) <= 2 and m == meant(name):
        return ('D', d[1], table[name])
    cs = M.children(m)
    if cs and m[0] != 'cat':
        return ('D', d[1], M.with_children(m, [swap(c, table) for c in cs]))
    return d


def renamed(case):
    """Plain names stand for other types."""
    import datashape as ds
    from datashape.parser import parse
    d, pairs = case
    text = M.plain_text(d)
    sym = ds.TypeSymbolTable()
    table = {}
    for name, e in pairs:
        table[name] = e
        sym.dtype[name] = M.build_m(e)
    want = swap(d, table)
    got = parse(text, sym)
    eq(M.abs_d(got), want, srepr(text))
    eq(M.abs_d(ds.dshape(text)), d, 'the predefined names')
    if want == d:
        return None
    return ['renamed'] + sorted(k for k in M.kinds_of(d))


def used(d):
    """The entries of a table which the text of d needs."""
    out = set()
    for x in M.walk(d):
        for dim in x[1]:
            if dim[0] == 'fixed':
                out.add(('dim_constr', 'fixed'))
            elif dim[0] == 'var':
                out.add(('dim', 'var'))
            elif dim[0] == 'tv':
                out.add(('dim_constr', 'typevar'))
            elif dim[1] is None:
                out.add(('dim', 'ellipsis'))
            else:
                out.add(('dim_constr', 'ellipsis'))
        m = x[2]
        k = m[0]
        if k == 'p' or k in SPECIAL:
            out.add(('dtype', m[1] if k == 'p' else k))
        elif k == 'opt':
            out.add(('dtype_constr', 'option'))
        elif k == 'rec':
            out.add(('dtype_constr', 'struct'))
        elif k == 'tup':
            out.add(('dtype_constr', 'tuple'))
        elif k == 'fun':
            out.add(('dtype_constr', 'funcproto'))
        elif k == 'tv':
            out.add(('dtype_constr', 'typevar'))
        elif k == 'map':
            out.add(('dtype_constr', 'map'))
    return out


ENTRIES = [('dim_constr', n) for n in ('fixed', 'typevar', 'ellipsis')] + [
    ('dim', n) for n in ('var', 'ellipsis')] + [
    ('dtype', n) for n in SIMPLE] + [('dtype_constr', n) for n in (
        'option', 'struct', 'tuple', 'funcproto', 'typevar', 'map')]


def removed(case):
    """A table that lacks something, or has only what is needed."""
    import datashape as ds
    from datashape.parser import parse
    d, which, bare = case
    text = M.plain_text(d)
    need = used(d)
    known = ds.TypeSymbolTable()
    if bare:
        # only what is needed, but for perhaps one thing
        sym = ds.TypeSymbolTable(bare=True)
        needed = sorted(need)
        gone = needed[which % (len(needed) + 1)] if \
            which % (len(needed) + 1) < len(needed) else None
        for kind, name in needed:
            if (kind, name) != gone:
                getattr(sym, kind)[name] = getattr(known, kind)[name]
    else:
        gone = ENTRIES[which % len(ENTRIES)]
        sym = known
        del getattr(sym, gone[0])[gone[1]]
    try:
        got = parse(text, sym)
    except ds.DataShapeSyntaxError as e:
        if gone not in need:
            raise Violation('%s is refused without %s: %s' % (
                srepr(text), gone, srepr(str(e))))
        return ['refused:%s' % gone[0]]
    if gone in need:
        raise Violation('%s is accepted without %s' % (srepr(text), gone))
    eq(M.abs_d(got), d, srepr(text))
    eq(M.abs_d(ds.dshape(text)), d, 'the predefined names')
    return ['enough'] if bare else None


def seen(v):
    """What a constructor was given, as a literal."""
    import datashape as ds
    if isinstance(v, ds.DataShape):
        return ('ds', M.abs_d(v))
    if isinstance(v, bool):
        return ('b', v)
    if isinstance(v, int):
        return ('i', v)
    if isinstance(v, str):
        return ('s', v)
    if isinstance(v, (list, tuple)):
        return ('l',) + tuple(map(seen, v))
    return ('?', srepr(v))


def written(v):
    if v[0] == 'i':
        return str(v[1])
    if v[0] == 's':
        return M.quote(v[1])
    if v[0] == 'b':
        return str(v[1])
    if v[0] == 'ds':
        return M.plain_text(v[1])
    return '[%s]' % ', '.join(map(written, v[1:]))


def constructed(case):
    """Constructors get the arguments of the text."""
    import datashape as ds
    from datashape.parser import parse
    args, kwargs, before, e, name = case
    calls = []

    def record(*a, **kw):
        calls.append((tuple(map(seen, a)),
                      tuple(sorted((k, seen(v)) for k, v in kw.items()))))
        return M.build_m(e)
    sym = ds.TypeSymbolTable()
    sym.dtype_constr[name] = record
    inner = '%s[%s]' % (name, ', '.join(
        [written(a) for a in args] +
        ['%s=%s' % (k, written(v)) for k, v in kwargs]))
    text, want = inner, ('D', (), e)
    if before == 1:
        text, want = '3 * ' + text, ('D', (('fixed', 3),) + want[1], want[2])
    elif before == 2:
        text, want = '{a: %s}' % text, ('D', (), ('rec', (('a', want),)))
    elif before == 3:
        text, want = '(int8, %s) -> bool' % text, ('D', (), (
            'fun', (('D', (), ('p', 'int8')), want),
            ('D', (), ('p', 'bool'))))
    elif before == 4:
        text, want = '?' + text, ('D', (), ('opt', want))
    got = parse(text, sym)
    eq(M.abs_d(got), want, srepr(text))
    call = (tuple(args), tuple(sorted(kwargs)))
    check(calls and all(c == call for c in calls), 'the constructor of %s '
          'was called with %s, not %s', srepr(text), srepr(calls),
          srepr(call))
    for i in range(len(kwargs)):
        # a name says one thing
        again = [kwargs[i][0], written(kwargs[-1 - i][1])]
        twice = '%s[%s]' % (name, ', '.join(
            [written(a) for a in args] +
            ['%s=%s' % (k, written(v)) for k, v in kwargs] +
            ['%s=%s' % tuple(again)]))
        try:
            got = parse(twice, sym)
        except ds.DataShapeSyntaxError:
            continue
        raise Violation('%s is accepted, which gives %s twice' % (
            srepr(twice), again[0]))
    for f in (lambda: ds.dshape(text),
              lambda: parse(text, ds.TypeSymbolTable())):
        try:
            f()
        except ds.DataShapeSyntaxError:
            continue
        raise Violation('%s is known to others' % srepr(text))
    return ['args:%d' % len(args)] + sorted(
        set('arg:' + a[0] for a in args)) + (['kw'] if kwargs else [])


# what a table of one's own adds to every record and tuple
OWN = ('\u2603 of its own', ('D', (), ('p', 'int8')))


def changed(d, on):
    """What the text of d means when some of the symbols are changed."""
    def dim(x):
        if x[0] == 'fixed' and 'fixed' in on:
            return ('fixed', x[1] + 1)
        if x[0] == 'var' and 'var' in on:
            return ('fixed', 77)
        if x[0] == 'tv' and 'typevar' in on:
            return ('tv', x[1] + 'q')
        if x[0] == 'ell' and x[1] is None and 'ellipsis' in on:
            return ('var',)
        if x[0] == 'ell' and x[1] is not None and 'named' in on:
            return ('tv', x[1])
        return x
    m = d[2]
    k = m[0]
    if k == 'tv' and 'dtypevar' in on:
        m = ('str', len(m[1]), 'U8')
    cs = M.children(m)
    if cs or k in ('rec', 'tup', 'fun'):
        m = M.with_children(m, [changed(c, on) for c in cs])
        if k == 'rec' and 'struct' in on:
            m = ('rec', m[1][::-1] + (OWN,))
        elif k == 'tup' and 'tuple' in on:
            m = ('tup', m[1] + m[1] + (OWN[1],))
        elif k == 'fun' and 'funcproto' in on:
            m = ('fun', (m[2],) + m[1], m[2])
        elif k == 'opt' and 'option' in on:
            m = ('map', m[1], m[1])
        elif k == 'map' and 'map' in on:
            m = ('map', m[2], m[1])
    return ('D', tuple(map(dim, d[1])), m)


SUGAR = ('fixed', 'var', 'typevar', 'ellipsis', 'named', 'dtypevar', 'struct',
         'tuple', 'funcproto', 'option', 'map')


def sugar(case):
    """Integers, braces, question marks and so on stand for symbols."""
    import datashape as ds
    from datashape import coretypes as ct
    from datashape.parser import parse
    d, on = case
    text = M.plain_text(d)
    sym = ds.TypeSymbolTable()
    new = {
        'fixed': (sym.dim_constr, 'fixed', lambda n: ds.Fixed(n + 1)),
        'var': (sym.dim, 'var', ds.Fixed(77)),
        'typevar': (sym.dim_constr, 'typevar', lambda n: ds.TypeVar(n + 'q')),
        'ellipsis': (sym.dim, 'ellipsis', ds.var),
        'named': (sym.dim_constr, 'ellipsis', ds.TypeVar),
        'dtypevar': (sym.dtype_constr, 'typevar',
                     lambda n: ds.String(len(n))),
        'struct': (sym.dtype_constr, 'struct', lambda ns, xs: ds.Record(
            list(zip(ns, xs))[::-1] + [(OWN[0], ds.int8)])),
        'tuple': (sym.dtype_constr, 'tuple',
                  lambda xs: ds.Tuple(list(xs) * 2 + [ds.int8])),
        'funcproto': (sym.dtype_constr, 'funcproto', lambda xs, r:
                      ct.Function(r, *(list(xs) + [r]))),
        'option': (sym.dtype_constr, 'option', lambda x: ds.Map(x, x)),
        'map': (sym.dtype_constr, 'map', lambda a, b: ds.Map(b, a)),
    }
    for k in on:
        table, name, entry = new[k]
        table[name] = entry
    want = changed(d, on)
    eq(M.abs_d(parse(text, sym)), want, '%s with other %s' % (
        srepr(text), ', '.join(sorted(on))))
    eq(M.abs_d(ds.dshape(text)), d, 'the predefined names')
    if want == d:
        return None
    return ['sugar:' + k for k in on]


def empty(case):
    """Nothing is known to an empty table."""
    import datashape as ds
    from datashape.parser import parse
    d = case
    text = M.plain_text(d)
    sym = ds.TypeSymbolTable(bare=True)
    try:
        got = parse(text, sym)
    except ds.DataShapeSyntaxError:
        pass
    else:
        raise Violation('a bare table makes %s of %s' % (srepr(got),
                                                         srepr(text)))
    sym.add_default_types()
    eq(M.abs_d(parse(text, sym)), d, 'after adding the default types')
    return ['empty']


_cfg = M.Cfg(kinds=('p', 'date', 'json', 'bytes', 'null', 'opt', 'rec',
                    'tup', 'fun', 'map', 'tv'), plain=[
                        p for p in M.PLAIN if p in SIMPLE])


PLACES = ('%s', '3 * var * %s', '?%s', '{a: int8, b: %s}', '(2 * %s, bool)',
          '(%s) -> int8', '(int8) -> %s', 'map[%s, int8]', 'A... * ?%s')


def own(case):
    """A name stands for the very type, whatever that is."""
    import datashape as ds
    from datashape.parser import parse
    ms, place, kind, name = case
    members = [M.build_m(m) for m in ms]
    if kind == 'set':
        obj = ds.TypeSet(*members)
    elif kind == 'record':
        obj = ds.Record([('f%d' % i, m) for i, m in enumerate(members)])
    elif kind == 'tuple':
        obj = ds.Tuple(members)
    else:
        obj = sized(len(ms))
    sym = ds.TypeSymbolTable()
    sym.dtype[name] = obj
    got = parse(PLACES[place] % name, sym)
    want = parse(PLACES[place] % 'json', sym)
    found = list(ds.predicates.collect(lambda x: x is obj, got))
    check(len(found) == 1, '%s is not what %s means in %s', srepr(obj), name,
          PLACES[place])
    eq(len(got.shape), len(want.shape), 'dimensions')
    eq(type(got.measure), type(obj if place < 2 else want.measure),
       PLACES[place])
    return ['own:' + kind, 'place:%d' % place] + ([] if ms else ['size:0'])


def dimensions(case):
    """Names stand for dimensions, whether or not they name types, too."""
    import datashape as ds
    from datashape.parser import parse
    table, used, d, place, extra = case
    sym = ds.TypeSymbolTable()
    for name, dim in table:
        sym.dim[name] = M.build_dim(dim)
        if extra and name not in sym.dtype:
            sym.dtype[name] = ds.float32
    meant = dict(table)
    names = [table[i % len(table)][0] for i in used]
    rest = M.plain_text(d)
    text = PLACES[place] % ' * '.join(names + [rest])
    known = PLACES[place] % ' * '.join(
        [str(M.build_dim(meant[n])) for n in names] + [rest])
    eq(M.abs_d(parse(text, sym)), M.abs_d(parse(
        known, ds.TypeSymbolTable())), srepr(text))
    name = names[0]
    text = PLACES[place] % (name + ' * ' + name)
    if extra or name in sym.dtype:
        got = parse(text, sym)
        eq(M.abs_d(got), M.abs_d(parse(PLACES[place] % (
            '%s * %s' % (M.build_dim(meant[name]), sym.dtype[name])),
            ds.TypeSymbolTable())), srepr(text))
    else:
        try:
            got = parse(text, sym)
        except ds.DataShapeSyntaxError:
            pass
        else:
            raise Violation('%s is accepted as %s, though %s is a dimension '
                            'only' % (srepr(text), srepr(got), name))
    return ['dimensions:%d' % len(names), 'place:%d' % place]


def tables_of_dimensions():
    return st.lists(st.tuples(
        st.sampled_from(SIMPLE + ('n', 'rows', 'string', 'option',
                                  'fixed', 'xY_0')),
        M.dim_st(M.Cfg())), min_size=1, max_size=4, unique_by=lambda t: t[0])


def sized(n):
    """A type of one's own that has a length."""
    import datashape as ds

    class Sized(ds.coretypes.Unit):
        cls = ds.coretypes.MEASURE
        __slots__ = 'n',
        abstract = True

        def __init__(self, n):
            self.n = n

        def __len__(self):
            return self.n
    return Sized(n)


def args_st():
    one = st.one_of(
        st.integers(0, 10 ** 20).map(lambda i: ('i', i)),
        M.texts().map(lambda s: ('s', s)), st.booleans().map(
            lambda b: ('b', b)))
    small = M.datashapes(M.Cfg(max_fields=2), depth=1)
    dsx = small.map(lambda d: ('ds', d))

    def lists(x):
        return st.lists(x, min_size=1, max_size=3).map(
            lambda xs: ('l',) + tuple(xs))
    return M.weighted(
        (4, one), (2, dsx), (1, lists(st.integers(0, 99).map(
            lambda i: ('i', i)))), (1, lists(M.texts().map(
                lambda s: ('s', s)))),
        (1, lists(st.booleans().map(lambda b: ('b', b)))),
        (1, lists(dsx)))


KEYWORDS = ('x', 'tz', 'unit', 'aB', 'b1', 'a', 'type', 'int32', 'var', 'z9')
ARGS = (('i', 0), ('s', 'a'), ('b', True), ('l', ('i', 0), ('i', 1)),
        ('ds', ('D', (), ('p', 'int8'))), ('s', ''), ('i', 3),
        ('l', ('s', 'b'), ('s', 'a')), ('b', False))


def every_call(tier):
    """Any number of arguments, by position and by name."""
    for n in range(7):
        for k in range(7):
            for turn in range(9 if tier == 'thorough' else 3):
                a = [ARGS[(turn + i) % 9] for i in range(n)]
                kw = [(KEYWORDS[(turn + i) % 10], ARGS[(turn + n + i) % 9])
                      for i in range(k)]
                if a or kw:
                    yield a, kw, (n + k + turn) % 5, ('p', 'int8'), 'foo'
                    yield a, kw[::-1], turn % 5, ('p', 'int8'), 'aB_'


def plain(d):
    """Made of what the tables speak about only."""
    return all(x[2][0] in _cfg.kinds and (
        x[2][0] != 'p' or x[2][1] in SIMPLE) for x in M.walk(d))


def every_renamed(tier):
    others = (('p', 'int16'), ('str', 5, 'A'), ('rec', ()), ('tv', 'Q'))
    for i, d in enumerate(small.datashapes(tier, keep=plain)):
        names = sorted({x[2][1] if x[2][0] == 'p' else x[2][0]
                        for x in M.walk(d)
                        if x[2][0] in ('p',) + SPECIAL})
        for k, n in enumerate(names):
            yield d, [(n, others[(i + k) % 4])]


def every_sugar(tier):
    for d in small.datashapes(tier, keep=plain):
        for s in SUGAR:
            if changed(d, (s,)) != d:
                yield d, [s]
        yield d, list(SUGAR)


def every_removed(tier):
    for d in small.datashapes(tier, keep=plain):
        for i in range(len(used(d)) + 1):
            yield d, i, True


SUBS = [
    Sub('small_renamed', None, renamed, exhaustive=every_renamed),
    Sub('small_removed', None, removed, exhaustive=every_removed),
    Sub('small_sugar', None, sugar, exhaustive=every_sugar),
    Sub('every_call', None, constructed, exhaustive=every_call),
    Sub('renamed', lambda: st.tuples(
        M.datashapes(_cfg, depth=3), st.lists(st.tuples(
            st.sampled_from(SIMPLE), M.m_st(M.Cfg(max_fields=2), 1)),
            min_size=2, max_size=6, unique_by=lambda p: p[0])), renamed,
        quick=4000),
    Sub('removed', lambda: st.tuples(M.datashapes(_cfg, depth=3),
                                     st.integers(0, 719), st.booleans()),
        removed, quick=4000),
    Sub('sugar', lambda: st.tuples(M.datashapes(_cfg, depth=3), st.lists(
        st.sampled_from(SUGAR), min_size=1, max_size=11, unique=True)),
        sugar, quick=4000),
    Sub('constructed', lambda: st.tuples(
        st.lists(args_st(), max_size=5), st.lists(
            st.tuples(st.sampled_from(KEYWORDS),
                      args_st()), max_size=5, unique_by=lambda p: p[0]),
        st.integers(0, 4), M.m_st(M.Cfg(max_fields=2), 1),
        st.sampled_from(('foo', 'mine', 'aB_', 'int33'))).filter(
            lambda c: c[0] or c[1]), constructed, quick=4000),
    Sub('dimensions', lambda: st.tuples(
        tables_of_dimensions(), st.lists(st.integers(0, 3), min_size=1,
                                         max_size=4),
        M.datashapes(_cfg, depth=2), st.integers(0, len(PLACES) - 1),
        st.booleans()), dimensions, quick=3000),
    Sub('own', lambda: st.tuples(
        st.lists(M.m_st(M.Cfg(max_fields=2), 1), max_size=3),
        st.integers(0, len(PLACES) - 1),
        st.sampled_from(('set', 'record', 'tuple', 'sized')),
        st.sampled_from(('own', 'int8_', 'x'))), own, quick=1500),
    Sub('empty', lambda: M.datashapes(M.Cfg(), depth=2), empty, quick=1000),
]
