"""C15: sets of numeric types, super types and widest types."""
import itertools

from hypothesis import strategies as st

from .. import model as M
from ..core import Sub, Violation, Unspec, check, eq, srepr

ID = 'C15'
RULE = ('every named type set against a table of scalar types (optional, in a '
        'datashape, or bare), random type sets built from random types for '
        'membership, union, order and equality, super and widest types of '
        'every scalar type, and random signatures. Non-trivial: every case.')

SETS = {
    'signed': ('int8', 'int16', 'int32', 'int64'),
    'unsigned': ('uint8', 'uint16', 'uint32', 'uint64'),
    'floating': ('float16', 'float32', 'float64'),
    'complexes': ('complex[float32]', 'complex[float64]'),
    'boolean': ('bool',),
}
SETS['integral'] = SETS['signed'] + SETS['unsigned']
SETS['real'] = SETS['integral'] + SETS['floating']
SETS['numeric'] = SETS['real'] + SETS['complexes']
SETS['scalar'] = SETS['boolean'] + SETS['numeric']
WIDEST = {'signed': 'int64', 'unsigned': 'uint64', 'floating': 'float64',
          'complexes': 'complex[float64]', 'boolean': 'bool'}


def typeset(name):
    from datashape import typesets
    return getattr(typesets, name)


def super_of(m):
    if m[0] == 'p':
        for k in WIDEST:
            if m[1] in SETS[k]:
                return k
    return None


def membership(case):
    import datashape as ds
    name, m, how = case
    ts = typeset(name)
    x = M.build_m(m)
    if how:
        x = ds.DataShape(x)
    want = m[0] == 'p' and m[1] in SETS[name]
    eq(x in ts, want, '%s in %s' % (srepr(m), name))
    eq(bool(ds.matches_typeset(x, ts)), want,
       'matches_typeset(%s, %s)' % (srepr(m), name))
    return [name, 'in' if want else 'out']


def named(case):
    import datashape as ds
    from datashape import typesets
    name = case
    ts = typeset(name)
    got = [M.abs_m(x) for x in ts]
    eq(sorted(got), sorted(('p', n) for n in SETS[name]), name)
    eq([M.abs_m(x) for x in ts.types], got, 'types of ' + name)
    eq(len(ts), len(SETS[name]), 'len of ' + name)
    eq(ts.name, name, 'name')
    check(typesets.registry[name] is ts, '%s is not registered', name)
    check(typesets.lookup(name) is ts, '%s is not looked up', name)
    for other in SETS:
        eq(ts == typeset(other), name == other, '%s == %s' % (name, other))
        eq(ts != typeset(other), name != other, '%s != %s' % (name, other))
        u = ts | typeset(other)
        eq(set(M.abs_m(x) for x in u),
           set(('p', n) for n in SETS[name] + SETS[other]),
           '%s | %s' % (name, other))
    check(hash(ts) == hash(typeset(name)), 'hash')
    try:
        typesets.register_typeset(name, ds.TypeSet(ds.int8))
    except TypeError:
        pass
    else:
        raise Violation('%s registered twice' % name)
    check(typesets.lookup(name) is ts, '%s was replaced', name)
    return [name]


def widest(case):
    import datashape as ds
    from datashape import typesets
    m, how = case
    optional = m[0] == 'opt'
    base = m[1][2] if optional and not m[1][1] else m
    x = M.build_m(m)
    if how == 1:
        x = ds.DataShape(x)
    elif how == 2:
        x = ds.DataShape(ds.Fixed(3), ds.var, x)
    sup = super_of(base)
    if sup:
        want = ('p', WIDEST[sup])
    elif base[0] in ('dec', 'td'):
        want = base
    else:
        want = None
    if want is None:
        try:
            got = ds.maxtype(x)
        except TypeError:
            pass
        else:
            raise Violation('maxtype(%s) is %s' % (srepr(m), srepr(got)))
    else:
        if optional:
            want = ('opt', ('D', (), want))
        got = ds.maxtype(x)
        eq(M.abs_d(got), ('D', (), want), 'maxtype(%s)' % srepr(m))
        eq(M.abs_d(ds.maxtype(got)), ('D', (), want), 'maxtype twice')
    eq(M.abs_d(x)[2], m, 'the argument')
    if how == 0:
        if sup:
            check(typesets.supertype(x) is typeset(sup),
                  'supertype(%s) is %s', srepr(m),
                  srepr(typesets.supertype(x)))
        else:
            try:
                got = typesets.supertype(x)
            except (AssertionError, KeyError, TypeError):
                pass
            else:
                raise Violation('supertype(%s) is %s' % (srepr(m),
                                                         srepr(got)))
    return ['max:%s' % base[0]] + (['option'] if optional else [])


_names = itertools.count()


def made(case):
    import datashape as ds
    from datashape import typesets
    asts, bsts, m = case
    a = ds.TypeSet(*[M.build_m(x) for x in asts])
    b = ds.TypeSet(*[M.build_m(x) for x in bsts])
    x = M.build_m(m)
    eq(x in a, m in asts, '%s in %s' % (srepr(m), srepr(asts)))
    eq(bool(ds.matches_typeset(x, a)), m in asts,
       'matches_typeset(%s, %s)' % (srepr(m), srepr(asts)))
    u = a | b
    eq(x in u, m in asts or m in bsts, 'membership of the union')
    eq([M.abs_m(t) for t in a], list(asts), 'iteration')
    eq([M.abs_m(t) for t in u], list(asts) + list(bsts),
       'iteration of a union')
    eq(len(a), len(set(asts)), 'len')
    eq(len(u), len(set(asts + bsts)), 'len of a union')
    eq([M.abs_m(t) for t in b], list(bsts), 'operand')
    same = asts == bsts
    eq(a == b, same, 'equality of %s and %s' % (srepr(asts), srepr(bsts)))
    eq(a != b, not same, 'difference')
    again = ds.TypeSet(*[M.build_m(t) for t in asts])
    check(a == again and hash(a) == hash(again), 'equal sets')
    # with a name, and not twice with the same
    name = 'dsv%d' % next(_names)
    check(typesets.lookup(name) is None, 'lookup of %s', name)
    try:
        got = typesets.registry[name]
    except KeyError:
        pass
    else:
        raise Violation('%s is registered as %s' % (name, srepr(got)))
    c = ds.TypeSet(*[M.build_m(t) for t in asts], name=name)
    eq((c.name, [M.abs_m(t) for t in c], len(c)),
       (name, list(asts), len(set(asts))), 'a type set with a name')
    for again in (bsts, asts):
        for make in (lambda ts: ds.TypeSet(*ts, name=name),
                     lambda ts: typesets.register_typeset(
                         name, ds.TypeSet(*ts))):
            try:
                make([M.build_m(t) for t in again])
            except TypeError:
                pass
            else:
                raise Violation('a type set of the name of one of %s is made '
                                'of %s' % (srepr(asts), srepr(again)))
        check(typesets.lookup(name) is c and typesets.registry[name] is c,
              'another type set took the name of one of %s', srepr(asts))
    return ['in' if m in asts else 'out']


def signature(case):
    """Arguments match a signature when each matches its parameter."""
    import datashape as ds
    args, params = case
    xs = tuple(M.build_m(m) for m in args)
    ps, want = [], len(args) == len(params)
    for i, p in enumerate(params):
        m = args[i] if i < len(args) else None
        if isinstance(p, str):
            ps.append(typeset(p))
            want = want and m[0] == 'p' and m[1] in SETS[p]
        else:
            ps.append(M.build_m(p))
            want = want and m == p
    got = ds.matches_typeset(xs, tuple(ps))
    eq(bool(got), want, 'matches_typeset(%s, %s)' % (srepr(args),
                                                     srepr(params)))
    return ['match' if want else 'mismatch',
            'lengths:%s' % (len(args) == len(params))]


_leaf = [('p', p) for p in M.PLAIN] + [
    ('str', None, 'U8'), ('str', 10, 'A'), ('date',), ('datetime', None),
    ('time', None), ('td', 'us'), ('td', 'D'), ('dec', 11, 2), ('dec', 18, 0),
    ('bytes',), ('json',), ('null',), ('tv', 'A')]
TABLE = _leaf + [('opt', ('D', (), m)) for m in _leaf]


def signatures():
    return st.lists(
        M.weighted((2, st.sampled_from(TABLE[:17]).flatmap(
            lambda m: st.tuples(st.just(m), st.sampled_from(
                [k for k in sorted(SETS) if m[1] in SETS[k]] or [m])))),
            (1, st.sampled_from(TABLE).map(lambda m: (m, m))),
            (1, st.tuples(st.sampled_from(TABLE),
                          st.sampled_from(sorted(SETS) + TABLE)))),
        min_size=1, max_size=3).map(
            lambda ps: (tuple(a for a, _ in ps), tuple(p for _, p in ps)))


def signatures_cut():
    return st.tuples(signatures(), st.integers(0, 8), st.integers(1, 2)).map(
        lambda t: t[0] if t[1] > 1 else (t[0][0], t[0][1][:-t[2]])
        if t[1] else (t[0][0][:-t[2]], t[0][1]))


_any = M.m_st(M.Cfg(), 2)
_few = st.lists(M.weighted((3, st.sampled_from(TABLE)), (1, _any)),
                max_size=5).map(tuple)


def mades():
    return st.tuples(_few, _few, st.integers(0, 3), st.integers(0, 4),
                     st.sampled_from(TABLE)).map(
        lambda t: (t[0], t[0] if t[2] == 0 else t[0][::-1] if t[2] == 1
                   else t[1],
                   (t[0] + t[1])[t[3] % (len(t[0]) + len(t[1]))]
                   if t[3] < 4 and t[0] + t[1] else t[4]))


def few_made(tier):
    """All sets of up to three of a few members."""
    few = [('p', 'int8'), ('p', 'int16'), ('p', 'bool'),
           ('str', None, 'U8'), ('opt', ('D', (), ('p', 'int8'))),
           ('dec', 5, 2), ('date',)]
    lists = [xs for n in range(4 if tier == 'thorough' else 3)
             for xs in itertools.product(few, repeat=n)]
    for i, a in enumerate(lists):
        for j, b in enumerate(lists):
            yield a, b, few[(i + j) % len(few)]
    for a in itertools.product(few, repeat=3):
        for m in few:
            yield a, a[::-1], m
            yield a, a[1:], m


def few_signatures(tier):
    """Every parameter for every argument, alone and beside another."""
    params = sorted(SETS) + TABLE
    for m in TABLE:
        for p in params:
            yield (m,), (p,)
            yield (m, ('p', 'int8')), (p, 'signed')
            yield (('p', 'int8'), m), ('signed', p)
    few = [('p', 'int8'), ('p', 'float32'), ('str', None, 'U8')]
    pf = ['signed', 'floating', 'scalar', ('p', 'int8'), ('str', None, 'U8')]
    for n in range(3):
        for k in range(4):
            for a in itertools.product(few, repeat=n):
                for p in itertools.product(pf, repeat=k):
                    if a and p:
                        yield a, p


SUBS = [
    Sub('small_made', None, made, exhaustive=few_made),
    Sub('small_signatures', None, signature, exhaustive=few_signatures),
    Sub('named', None, named, exhaustive=lambda tier: sorted(SETS)),
    Sub('membership', None, membership, exhaustive=lambda tier: list(
        itertools.product(sorted(SETS), TABLE, (0, 1)))),
    Sub('widest', None, widest, exhaustive=lambda tier: list(
        itertools.product(TABLE, (0, 1, 2)))),
    Sub('widest_random', lambda: st.tuples(M.weighted(
        (1, M.leaf_st(M.Cfg())),
        (1, M.leaf_st(M.Cfg()).map(lambda m: ('opt', ('D', (), m)))),
        (1, M.m_st(M.Cfg(max_fields=2), 1))),
        st.integers(0, 2)), widest, quick=1500),
    Sub('made', mades, made, quick=5000),
    Sub('signature', signatures_cut, signature, quick=4000),
]
