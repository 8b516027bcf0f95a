"""C01: what a datashape prints parses back to the same datashape."""
from hypothesis import strategies as st

from .. import model as M
from .. import small as S
from ..core import Sub, check, srepr, Violation

ID = 'C01'
RULE = ('random datashape ASTs over every dimension and measure kind (records '
        'with awkward field names, nested options, functions, units, '
        'categoricals up to 10 categories), built through the constructors; '
        'str, repr and pprint output is parsed/evaluated and abstracted back. '
        'Non-trivial: at least one nested type, dimension or parameter.')


def labels(d):
    out = set('k:' + k for k in M.kinds_of(d))
    if len(d[1]) == 0 and not M.children(d[2]) and len(d[2]) <= 2 \
            and d[2][0] in ('p', 'null', 'date', 'json', 'bytes'):
        return None
    out.add('depth:%d' % M.depth_of(d))
    return out


def same(ast, obj, how):
    got = M.abs_d(obj)
    if got != ast:
        raise Violation('%s gives %s, not %s' % (how, srepr(got), srepr(ast)))


def roundtrip(case):
    import datashape
    d, width = case
    obj = M.build(d)
    same(d, obj, 'construction')
    text = str(obj)
    back = datashape.dshape(text)
    same(d, back, 'dshape(%s)' % srepr(text))
    check(back == obj, 'dshape(str(x)) != x for %s', srepr(text))
    check(str(back) == text, 'printing is not stable: %s then %s',
          srepr(text), srepr(str(back)))
    r = repr(obj)
    ev = eval(r, {'dshape': datashape.dshape})
    same(d, ev, 'eval(%s)' % srepr(r))
    pp = datashape.pprint(obj, width=width)
    same(d, datashape.dshape(pp), 'dshape(%s)' % srepr(pp))
    return labels(d)


def measures(case):
    """Bare measures (not wrapped in a datashape) print the same way."""
    import datashape
    m = case
    obj = M.build_m(m)
    d = ('D', (), m)
    same(d, datashape.dshape(str(obj)), 'dshape(str(measure))')
    same(d, datashape.dshape(datashape.pprint(obj)), 'dshape(pprint(measure))')
    if m[0] in ('rec', 'tup'):
        same(d, eval(repr(obj), {'dshape': datashape.dshape}),
             'eval(repr(measure))')
    return labels(d)


def _strat():
    return st.tuples(M.datashapes(depth=3),
                     st.one_of(st.just(80), st.integers(1, 200)))


def _i(name='int32'):
    return ('D', (), ('p', name))


REGRESS = [
    (('D', (), ('rec', (('a\n', _i()),))), 80),
    (('D', (), ('rec', (('True', _i()),))), 80),
    (('D', (), ('rec', (('a"\'b', _i()),))), 80),
    (('D', (), ('rec', (('back\\slash', _i()),))), 80),
    (('D', (), ('rec', (('\x01\x85\u2028\ud800\U0001f600', _i()),))), 80),
    (('D', (), ('bytes',)), 80),
    (('D', (), ('p', 'char')), 80),
    (('D', (), ('opt', ('D', (), ('opt', _i())))), 80),
    (('D', (), ('datetime', 'a"b')), 80),
    (('D', (('tv', 'Trueness'),), ('p', 'int32')), 80),
]

SUBS = [
    Sub('small', None, roundtrip, exhaustive=lambda tier: [
        (d, w) for w in (80, 12) for d in S.datashapes(tier, long=False)]),
    Sub('small_measures', None, measures, exhaustive=lambda tier: [
        d[2] for d in S.datashapes(tier, long=False) if not d[1]]),
    Sub('datashape', _strat, roundtrip, quick=9000, regress=REGRESS),
    Sub('measure', lambda: M.m_st(M.Cfg(), 2), measures, quick=4000),
]
