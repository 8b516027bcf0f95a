"""C25: pretty printing changes the layout only, by its documented rules."""
from hypothesis import strategies as st

from .. import model as M
from .. import small as S
from .. import refparse as R
from ..core import Sub, Violation, check, eq, srepr

ID = 'C25'
RULE = ('random datashapes, mostly records and tuples nested in each other, '
        'pretty-printed at widths from 0 to 200 and without limit: the tokens '
        'must not depend on the width, what fits into the width is on one '
        'line, what does not has one indented line per field, at every level, '
        'and a larger width never gives more lines. Non-trivial: a record or '
        'tuple that is broken.')
ASSUMPTIONS = (
    'a part has the width that the dimensions and the field name in front of '
    'it leave (with or without the quotes of the name); records inside '
    'options, maps and functions keep one layout',)

WIDE = 10 ** 9


def tokens(text):
    try:
        return [(t[0], t[3]) for t in R.tokenize(text)]
    except R.Reject:
        raise Violation('no tokens: %s' % srepr(text))


def layout(text, d, lo, width, labels):
    """Check the layout of d in a width which is known to be within lo..width."""
    import datashape as ds
    x = M.build(d)
    one = ds.pprint(x, WIDE)
    kids = d[2][1] if d[2][0] in ('rec', 'tup') else None
    if kids is None or not kids:
        eq(tokens(text), tokens(one), 'tokens of a part')
        return
    if text == one and '\n' not in one:
        check(len(one) < width, 'a line of %s characters for width %s: %s',
              len(one), width, srepr(text))
        labels.add('kept')
        return
    if text == one:
        return      # a part inside an option that keeps its one layout
    if '\n' not in one:
        check(len(one) >= lo, '%s could be on one line in width %s',
              srepr(text), lo)
    if '\n' not in text:
        raise Violation('%s is neither broken nor %s' % (srepr(text),
                                                         srepr(one)))
    labels.add('broken:%s' % d[2][0])
    prefix = ''
    if d[1]:
        dims = ds.pprint(M.build(('D', d[1], ('p', 'int32'))), WIDE)
        prefix = dims[:-len('int32')]
    op, cl = ('{', '}') if d[2][0] == 'rec' else ('(', ')')
    lines = text.split('\n')
    eq(lines[0], prefix + op, 'the first line')
    eq(lines[-1], '  ' + cl, 'the last line')
    groups = []
    for line in lines[1:-1]:
        eq(line[:2], '  ', 'the indentation of %s' % srepr(line))
        line = line[2:]
        if line.startswith(' '):
            check(groups, 'a first field that is indented: %s', srepr(text))
            groups[-1].append(line)
        else:
            groups.append([line])
    # the closing bracket of a nested part is indented like its fields
    eq(len(groups), len(kids), 'the number of fields of %s' % srepr(text))
    for i, (group, kid) in enumerate(zip(groups, kids)):
        part = '\n'.join(group)
        if i < len(kids) - 1:
            eq(part[-1:], ',', 'what ends %s' % srepr(part))
            part = part[:-1]
        name = raw = ''
        if d[2][0] == 'rec':
            raw, kid = kid
            only = ds.pprint(ds.Record([(raw, ds.int32)]), WIDE)
            name = only[1:-len('int32}')]
            eq(part[:len(name)], name, 'the name of %s' % srepr(part))
            part = part[len(name):]
        rest = width - len(prefix)
        least = lo - len(prefix)
        if name == raw + ': ':
            layout(part, kid, least - len(raw), rest - len(raw), labels)
        else:
            layout(part, kid, least - len(name), rest - len(raw), labels)


def critical(d, front=0):
    """Widths in which some part of d only just does not fit."""
    import datashape as ds
    one = ds.pprint(M.build(d), WIDE)
    out = [front + len(one)] if '\n' not in one else []
    if d[2][0] in ('rec', 'tup'):
        front += sum(len(M.plain_text(('D', (x,), ('p', 'int8')))) - 4
                     for x in d[1])
        for kid in d[2][1]:
            n = 0
            if d[2][0] == 'rec':
                n, kid = len(kid[0]), kid[1]
            out += critical(kid, front + n)
    return out


def printed(case):
    import datashape as ds
    d, widths, bare = case
    x = M.build(d)
    one = ds.pprint(x, WIDE)
    want = tokens(one)
    labels = set()
    counts = []
    # a negative width is a percentage of the one line
    some = critical(d)
    widths = sorted(set(
        max(0, some[w[0] % len(some)] + w[1]) if isinstance(w, tuple)
        else w if w >= 0 else len(one) * -w // 100
        for w in widths if some or not isinstance(w, tuple)))
    for w in widths:
        text = ds.pprint(x, w)
        eq(tokens(text), want, 'tokens at width %s' % w)
        eq(M.abs_d(ds.dshape(text)), d, 'meaning at width %s' % w)
        if bare and not d[1] and d[2][0] != 'opt':
            eq(ds.pprint(x.measure, w), text, 'a bare measure at width %s' % w)
        eq(ds.pprint(x, width=w), text, 'width by name')
        if d[2][0] in ('rec', 'tup'):
            layout(text, d, w, w, labels)
        else:
            eq(text, one, 'the text at width %s' % w)
        counts.append(text.count('\n'))
        if w == 80:
            eq(ds.pprint(x), text, 'the default width')
    check(counts == sorted(counts, reverse=True), 'lines %s at widths %s for '
          '%s', counts, widths, srepr(one))
    eq(M.abs_d(x), d, 'the argument')
    return sorted(x for x in labels if x != 'kept')


def edge(case):
    """Exactly at the width where the layout changes."""
    import datashape as ds
    d, _ = case
    if d[2][0] not in ('rec', 'tup') or not d[2][1]:
        return None
    x = M.build(d)
    one = ds.pprint(x, WIDE)
    if '\n' in one:
        return None
    n = len(one)
    eq(ds.pprint(x, n + 1), one, 'at width %s' % (n + 1))
    check('\n' in ds.pprint(x, n), '%s characters on one line at width %s: '
          '%s', n, n, srepr(one))
    return ['edge', 'dims:%d' % len(d[1])]


def _widths():
    near = st.tuples(st.integers(0, 59), st.integers(-2, 3))
    return st.lists(st.one_of(st.integers(0, 200), st.integers(-110, -1),
                              st.just(80), near, near),
                    min_size=1, max_size=4)


def topped(cfg, depth):
    """Datashapes whose measure is a record or a tuple."""
    d = M.datashapes(cfg, depth)
    rec = st.lists(st.tuples(M.names_default(), d), min_size=1, max_size=4,
                   unique_by=lambda p: p[0])
    m = st.one_of(rec.map(lambda ps: ('rec', tuple(ps))),
                  st.lists(d, min_size=1, max_size=4).map(
                      lambda ds: ('tup', tuple(ds))))
    return st.builds(lambda x, m: ('D', x[1], m), M.d_st(cfg, 1), m)


_nest = M.Cfg(kinds=('p', 'rec', 'tup', 'opt', 'str', 'datetime'))

SUBS = [
    Sub('small', None, printed, exhaustive=lambda tier: [
        (d, [0, (0, 0), (0, 1), 80], i % 2 == 0) for i, d in enumerate(
            S.datashapes(tier, long=False))]),
    Sub('any', lambda: st.tuples(M.datashapes(M.Cfg(), depth=3),
                                 _widths(), st.booleans()), printed,
        quick=5000),
    Sub('nested', lambda: st.tuples(topped(_nest, 3), _widths(),
                                    st.booleans()), printed, quick=8000),
    Sub('edge', lambda: st.tuples(topped(_nest, 2), st.just(0)),
        edge, quick=4000),
]
