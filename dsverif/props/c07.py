"""C07: pickling, copying and rebuilding from parameters preserve types."""
import copy
import pickle

from hypothesis import strategies as st

from .. import child
from .. import model as M
from .. import small as S
from ..core import Sub, Violation, check, eq, srepr

ID = 'C07'
RULE = ('random datashapes, bare measures and dimensions; every pickle '
        'protocol, copy, deepcopy, reconstruction type(t)(*t.parameters), and '
        'pickles loaded in another process with another hash seed, after the '
        'original has or has not been hashed; the result must have the same '
        'structure, equality, hash and text, and still work. Non-trivial: a '
        'nested type, dimension or parameter.')
ASSUMPTIONS = ['datashapes made with a name= argument are not considered']


def labels(d):
    if not d[1] and d[2][0] in ('p', 'null', 'date', 'json', 'bytes'):
        return None
    return ['k:' + k for k in M.kinds_of(d)]


def same(x, y, ast, how):
    eq(type(y), type(x), 'type after %s' % how)
    eq(M.abs_d(y), ast, 'after %s' % how)
    check(x == y and y == x and not x != y, 'after %s: %s != original', how,
          srepr(ast))
    eq(hash(y), hash(x), 'hash after %s of %s' % (how, srepr(ast)))
    eq(str(y), str(x), 'text after %s' % how)
    eq(repr(y), repr(x), 'repr after %s' % how)


def works(y, ast):
    """The copy is a full datashape, not a husk."""
    import datashape
    eq(y.shape, tuple(map(M.build_dim, ast[1])), 'shape of the copy')
    eq(M.abs_d(y.measure), ('D', (), ast[2]), 'measure of the copy')
    eq(M.abs_d(3 * y), ('D', (('fixed', 3),) + ast[1], ast[2]), '3 * copy')
    if ast[1]:
        eq(M.abs_d(y.subarray(1)), ('D', ast[1][1:], ast[2]), 'subarray')
    datashape.pprint(y, width=10)


def roundtrip(case):
    ast, bare, hashed = case
    if bare:
        ast = ('D', (), ast[2])
        x = M.build_m(ast[2])
    else:
        x = M.build(ast)
    if hashed:
        hash(x)
        for p in x.parameters:
            hash(p)
    for proto in range(pickle.HIGHEST_PROTOCOL + 1):
        y = pickle.loads(pickle.dumps(x, proto))
        same(x, y, ast, 'pickling with protocol %d' % proto)
        if not bare:
            works(y, ast)
    for how in (copy.copy, copy.deepcopy):
        y = how(x)
        same(x, y, ast, how.__name__)
        if not bare:
            works(y, ast)
    # twice over
    y = pickle.loads(pickle.dumps(copy.deepcopy(pickle.loads(
        pickle.dumps(x, 2))), 5))
    same(x, y, ast, 'pickling twice')
    return labels(ast)


def rebuilt(case):
    import datashape
    ast = case
    todo = [M.build(ast)]
    n = 0
    while todo:
        t = todo.pop()
        if isinstance(t, datashape.CType):
            continue
        y = type(t)(*t.parameters)
        how = 'rebuilding %s from its parameters' % type(t).__name__
        eq(type(y), type(t), how)
        check(y == t and not y != t, '%s: %s != %s', how, srepr(y), srepr(t))
        eq(hash(y), hash(t), how)
        eq(str(y), str(t), how)
        eq(y.parameters, t.parameters, how)
        n += 1
        stack = list(t.parameters)
        while stack:
            p = stack.pop()
            if isinstance(p, datashape.Mono):
                todo.append(p)
            elif isinstance(p, tuple):
                stack.extend(p)
    if n < 2:
        return None
    return labels(ast)


def dims(case):
    import datashape
    d = case
    x = M.build_dim(d)
    outs = [pickle.loads(pickle.dumps(x, p)) for p in range(6)]
    outs += [copy.copy(x), copy.deepcopy(x), type(x)(*x.parameters)]
    for y in outs:
        eq(type(y), type(x), 'type')
        check(x == y and y == x and not x != y, 'copy of %s differs', srepr(d))
        eq(hash(x), hash(y), 'hash')
        eq((str(x), repr(x)), (str(y), repr(y)), 'text')
        eq(M.abs_dim(y), d, 'structure')
        eq(M.abs_d(y * datashape.int32), ('D', (d,), ('p', 'int32')),
           'product')
    return [d[0]]


def elsewhere(case):
    asts, proto, hashed = case
    objs = [M.build(a) for a in asts]
    if hashed:
        for o in objs:
            hash(o)
            for p in o.parameters:
                hash(p)
    data = pickle.dumps(objs, proto)
    kind, res = child.child(4242).call('unpickle', (data, tuple(asts)))
    if kind == 'bad' or res:
        raise Violation('in another process: %s' % res)
    return ['hashed' if hashed else 'unhashed', 'proto:%d' % proto]


REGRESS = [
    (('D', (), ('null',)), True, False), (('D', (), ('null',)), False, True),
    (('D', (), ('rec', (('a', ('D', (), ('null',))),))), False, True),
    (('D', (), ('p', 'int32')), True, True),
]

SUBS = [
    Sub('small', None, roundtrip, exhaustive=lambda tier: [
        (d, i % 2 == 0 and not d[1], i % 3 == 0) for i, d in enumerate(
            S.datashapes(tier))]),
    Sub('small_rebuilt', None, rebuilt, exhaustive=S.datashapes),
    Sub('roundtrip', lambda: st.tuples(M.datashapes(M.Cfg(long=True), depth=2), st.booleans(),
                                       st.booleans()), roundtrip, quick=3000,
        regress=REGRESS),
    Sub('rebuilt', lambda: M.datashapes(M.Cfg(long=True), depth=3), rebuilt, quick=4000),
    Sub('dims', lambda: st.one_of(M.dim_st(M.Cfg()), st.tuples(
        st.just('ell'), st.one_of(st.none(), M.TYPEVARS))), dims, quick=500),
    Sub('elsewhere', lambda: st.tuples(
        st.lists(M.datashapes(depth=2), min_size=1, max_size=3),
        st.integers(0, 5), st.booleans()), elsewhere, quick=1500),
]
