"""C38: the helpers do what they document."""
from hypothesis import strategies as st

from .. import model as M
from .. import small
from .. import texts as T
from ..core import Sub, Unspec, check, eq, srepr

ID = 'C38'
RULE = ('random directed graphs (with and without cycles, as dictionaries of '
        'sets, tuples and lists, of numbers, texts and types) for sorting, '
        'reversing and reachability; random sequences and key functions for '
        'grouping and removing; random texts for quoting and for what is an '
        'identifier; random datashapes for the mapping over their parts. '
        'Non-trivial: a graph with an edge, a sequence, text or datashape '
        'that is not empty.')
ASSUMPTIONS = ('no edge is listed twice',)


def helper(where, name):
    """The helper, unless it has been removed or renamed."""
    import importlib
    try:
        return getattr(importlib.import_module('datashape.' + where), name)
    except (ImportError, AttributeError):
        raise Unspec()


NODES = {
    'number': lambda i: i, 'text': lambda i: 'n%d' % i,
    'pair': lambda i: (i // 3, i % 3),

}


def node(kind, i):
    if kind == 'type':
        from datashape import coretypes as ct
        types = (ct.int8, ct.int64, ct.string, ct.real, ct.date_, ct.null,
                 ct.bool_, ct.Option(ct.int8), ct.TimeDelta('us'))
        return types[i] if i < len(types) else ct.Fixed(i)
    if kind == 'mixed':
        return (i, 'n%d' % i, (i,), 0.5 + i)[i % 4]
    return NODES[kind](i)


def graph(case):
    """The dictionary, and its edges as numbers."""
    kind, form, n, pairs, isolated = case
    make = (set, tuple, list, frozenset)[form]
    edges = sorted(set((a % n, b % n) for a, b in pairs))
    keys = []
    for a, b in edges:
        if a not in keys:
            keys.append(a)
    if isolated:
        for i in range(n):
            if i not in keys:
                keys.insert(i * 5 % (len(keys) + 1), i)
    d = dict((node(kind, k), make(node(kind, b) for a, b in edges if a == k))
             for k in keys)
    return d, edges, keys


def reach(edges, start):
    out, todo = {start}, [start]
    while todo:
        a = todo.pop()
        for x, y in edges:
            if x == a and y not in out:
                out.add(y)
                todo.append(y)
    return out


def graphs(case):
    descendents = helper('discovery', 'descendents')
    toposort = helper('internal_utils', '_toposort')
    reverse_dict = helper('internal_utils', 'reverse_dict')
    kind, n = case[0], case[2]
    d, edges, keys = graph(case)
    before = repr(d)
    nodes = set(keys) | set(b for _, b in edges)
    number = dict((node(kind, i), i) for i in range(n))
    # reversed
    r = reverse_dict(d)
    eq(sorted((number[a], number[b]) for b in r for a in r[b]), edges,
       'reverse_dict(%s)' % srepr(d))
    eq(len(r), len(set(b for _, b in edges)), 'keys of reverse_dict')
    for b in r:
        check(isinstance(r[b], tuple), 'reverse_dict: %s', srepr(r))
    back = reverse_dict(r)
    eq(sorted((number[a], number[b]) for a in back for b in back[a]), edges,
       'reversed twice')
    # reachable
    for i in range(n):
        got = descendents(d, node(kind, i))
        eq(sorted(number[x] for x in got), sorted(reach(edges, i)),
           'descendents(%s, %s)' % (srepr(d), srepr(node(kind, i))))
    # sorted
    cyclic = any(a in reach(edges, b) for a, b in edges)
    try:
        order = toposort(d)
    except ValueError:
        check(cyclic, '_toposort(%s) sees a cycle', srepr(d))
    else:
        check(not cyclic, '_toposort(%s) is %s', srepr(d), srepr(order))
        order = [number[x] for x in order]
        eq(sorted(order), sorted(nodes), 'what _toposort(%s) sorts' % srepr(d))
        for a, b in edges:
            check(order.index(a) < order.index(b),
                  '_toposort(%s) is %s', srepr(d), srepr(order))
    eq(repr(d), before, 'the graph')
    return ['cyclic' if cyclic else 'acyclic', kind] if edges else None


def groups(case):
    groupby = helper('internal_utils', 'groupby')
    remove = helper('internal_utils', 'remove')
    IndexCallable = helper('internal_utils', 'IndexCallable')
    items, n, form, style = case
    seq = (list, tuple, iter, lambda x: (y for y in x))[form](items)
    calls = []

    def of(x):
        k = len(srepr(x)) % n
        return (k, (None, '', (), 'a')[k], k == 1, (k, n), x)[style]

    def key(x):
        calls.append(x)
        return of(x)
    got = groupby(key, seq)
    eq([srepr(x) for x in calls], [srepr(x) for x in items],
       'calls of the key function')
    want = {}
    for x in items:
        want.setdefault(of(x), []).append(x)
    check(list(got) == list(want) and srepr(got) == srepr(want),
          'groupby: %s, not %s', srepr(got), srepr(want))
    odd = lambda x: len(srepr(x)) % n
    eq(srepr(list(remove(odd, items))),
       srepr([x for x in items if not odd(x)]), 'remove')
    for x in items:
        eq(srepr(IndexCallable(lambda y: (y, n))[x]), srepr((x, n)),
           'IndexCallable')
    return ['groups %d' % len(want)] if items else None


def names(s):
    """Quoted texts, and texts which are names."""
    isidentifier = helper('internal_utils', 'isidentifier')
    quote = helper('internal_utils', 'quote')
    from datashape import lexer
    q = quote(s)
    toks = list(lexer.lex(q))
    eq([(t.id, t.val) for t in toks], [(lexer.STRING, s)],
       'tokens of quote(%s)' % srepr(s))
    try:
        toks = [(t.id, t.val, t.span) for t in lexer.lex(s)]
    except Exception:
        toks = []
    want = len(toks) == 1 and toks[0][2] == (0, len(s)) and toks[0][0] in (
        lexer.NAME_LOWER, lexer.NAME_UPPER, lexer.NAME_OTHER)
    eq(bool(isidentifier(s)), want, 'isidentifier(%s)' % srepr(s))
    return ['name' if want else 'no name'] if s else None


def mapped(case):
    """A map over a datashape sees its parts, the inner ones first."""
    from datashape import coretypes as ct
    traverse = helper('validation', 'traverse')
    x = M.build(case)
    seen = []

    def f(t, params):
        seen.append(t)
        eq(len(params), len(t.parameters), 'parameters of %s' % srepr(t))
        for p, q in zip(t.parameters, params):
            whole(p, q)
        return ('mapped', t)

    def whole(p, q):
        if isinstance(p, (list, tuple)):
            eq(len(q), len(p), 'parameters')
            for a, b in zip(p, q):
                whole(a, b)
        elif inner(p):
            check(type(q) is tuple and q[0] == 'mapped' and q[1] is p,
                  'a part of %s is mapped to %s', srepr(p), srepr(q))
        else:
            check(q is p, 'the part %s becomes %s', srepr(p), srepr(q))

    def inner(p):
        return isinstance(p, ct.Units) or (
            isinstance(p, ct.Mono) and not isinstance(p, ct.Unit))

    def count(p):
        if isinstance(p, (list, tuple)):
            return sum(map(count, p))
        return 1 + sum(map(count, p.parameters)) if inner(p) else 0
    whole(x, traverse(f, x))
    eq(len(seen), count(x), 'parts of %s' % srepr(x))
    eq(M.abs_d(x), case, 'the datashape')
    return ['parts %d' % min(len(seen), 10)]


def all_graphs():
    return st.tuples(
        st.sampled_from(('number', 'text', 'mixed', 'pair', 'type')),
        st.integers(0, 3), st.integers(1, 9),
        M.weighted(
            (3, st.lists(st.tuples(st.integers(0, 8), st.integers(0, 8)),
                         max_size=12).map(tuple)),
            # mostly without cycles
            (3, st.lists(st.tuples(st.integers(0, 7), st.integers(1, 4)).map(
                lambda p: (p[0], p[0] + p[1])), max_size=12).map(
                    lambda ps: tuple(p for p in ps if p[1] < 9))),
            (1, st.integers(2, 9).map(lambda n: tuple(
                (i, i + 1) for i in range(n - 1)))),
            (1, st.integers(2, 9).map(lambda n: tuple(
                (i, j) for i in range(n) for j in range(i + 1, n))))),
        st.booleans())


def few_graphs(tier):
    """Every graph of up to three nodes (four in the thorough tier)."""
    top = 3 if tier == 'quick' else 4
    for n in range(1, top + 1):
        every = [(a, b) for a in range(n) for b in range(n)]
        for bits in range(2 ** len(every)):
            pairs = tuple(p for i, p in enumerate(every) if bits >> i & 1)
            yield ('number', bits % 4, n, pairs, bool(bits % 3))


def big_graphs(tier):
    """Long chains, wide fans and full orders."""
    for n in (10, 30, 60) if tier == 'quick' else (10, 30, 60, 150, 250):
        chain = tuple((i, i + 1) for i in range(n - 1))
        for pairs in (chain, chain + ((n - 1, 0),), tuple(
                (0, i) for i in range(1, n)), tuple(
                    (i, n - 1) for i in range(n - 1)),
                tuple((i, j) for i in range(n) for j in (
                    i + 1, i + 2, i + 7) if j < n),
                tuple((a * 7 % n, b * 7 % n) for a, b in chain)):
            for kind in ('number', 'text'):
                yield (kind, 0, n, pairs, False)


def items():
    return st.lists(st.one_of(
        st.integers(-3, 300), st.sampled_from(('', 'a', 'b', 'ab', None, 1.5,
                                               True, ())),
        st.text(max_size=3)), max_size=9).map(tuple)


def words():
    return M.weighted(
        (3, st.text(max_size=6)), (2, st.text(
            '_aAzZ09\'"\\/\n\r\t\b\f \x00\x7f\xa0\xe9{}u', max_size=8)),
        (2, st.text('_abzAZ059', max_size=5)),
        (1, st.sampled_from(('True', 'False', 'true', 'None', 'if', 'class',
                             'int32', '_', '__', 'a\n', 'a b', '1a', 'A1',
                             '\ud800', '\U0001f600', 'True_', 'Truex'))))


def all_words(tier):
    """Every character, alone and within a word."""
    top = 0x3000 if tier == 'quick' else 0x11000
    for i in list(range(top)) + [0xd800, 0xdfff, 0xfeff, 0xffff, 0x1f600]:
        for w in ('%s', 'a%s', '%sa', "'%s\""):
            yield w % chr(i)


SUBS = [
    Sub('small_graphs', None, graphs, exhaustive=few_graphs),
    Sub('big_graphs', None, graphs, exhaustive=big_graphs),
    Sub('characters', None, names, exhaustive=all_words),
    Sub('graphs', all_graphs, graphs, quick=4000),
    Sub('groups', lambda: st.tuples(items(), st.integers(1, 4),
                                    st.integers(0, 3), st.integers(0, 4)),
        groups, quick=3000),
    Sub('names', words, names, quick=4000),
    Sub('mapped', lambda: M.datashapes(M.Cfg(long=True), depth=3), mapped,
        quick=3000),
]
