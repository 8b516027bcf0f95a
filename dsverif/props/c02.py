"""C02: the parser accepts exactly the documented grammar, with its meaning."""
from hypothesis import strategies as st

from .. import model as M
from .. import small as S
from .. import refparse as R
from .. import texts
from ..core import Sub, Violation, srepr

ID = 'C02'
RULE = ('texts rendered from random ASTs with noise and alternative spellings '
        '(valid), token-level mutations of such texts, and token soup; each is '
        'parsed by dshape and by an independent reference parser and the '
        'results compared. Non-trivial: more than two tokens, or rejected.')

DOCUMENTED = (SyntaxError, TypeError, ValueError, NotImplementedError)


def differential(case):
    import datashape
    text = case
    try:
        want = R.parse(text)
    except R.Reject as e:
        want = None
        why = e
    try:
        got = datashape.dshape(text)
    except DOCUMENTED as e:
        if want is not None:
            raise Violation('rejects %s (%s: %s), which is %s' % (
                srepr(text), type(e).__name__, srepr(str(e)), srepr(want)))
        if isinstance(e, UnicodeError):
            raise Violation('%s for %s' % (type(e).__name__, srepr(text)))
        return ('reject', 'len:%d' % min(len(text) // 20, 6))
    if want is None:
        raise Violation('accepts %s as %s, but it is no datashape: %s' % (
            srepr(text), srepr(got), why))
    ast = M.abs_d(got)
    if R.erase_inferred(ast, want) != want:
        raise Violation('parses %s as %s, not as %s' % (
            srepr(text), srepr(ast), srepr(want)))
    if len(text.split()) <= 1 and len(text) < 8:
        return None
    return ['accept', 'accept:depth%d' % M.depth_of(ast)] + \
        ['k:' + k for k in M.kinds_of(ast)]


def valid(case):
    import datashape
    d, nums = case
    n = M.Noise(nums)
    text = M.layout(M.tokens_of(d, n), n)
    if R.erase_inferred(d, R.parse(text)) != R.parse(text):
        raise RuntimeError('reference parser is wrong on %r' % text)
    got = M.abs_d(datashape.dshape(text))
    want = R.parse(text)
    if R.erase_inferred(got, want) != want:
        raise Violation('parses %s as %s, not as %s' % (
            srepr(text), srepr(got), srepr(want)))
    return ['valid', 'depth:%d' % M.depth_of(d)] + \
        ['k:' + k for k in M.kinds_of(d)]


REGRESS = ['(int32, ?)', 'string[?10]', 'option[?3]', 'string[10,?]',
           'string[10,]', 'var int32', '... int32', 'ellipsis int32',
           '{x: var int32}', '{x: ... * A... * int32}',
           '(... * ... * int32)', "units['a', ... * ... * int32]",
           'Trueness * int32', 'struct[["a", "b"], [int32]]',
           'string[int32]', 'string[1, 2, 3]', 'timedelta[""]',
           'decimal["a"]', 'decimal[10, "a"]', 'categorical[["a"], type=3]',
           'funcproto["abc", int32]', 'option[3]', 'map[1, 2]', 'bytes',
           'char', '3 * bytes', 'timedelta["minutes"]', 'timedelta["month"]',
           '-0 * int32', 'decimal[-0]', 'string[-0]', '00 * int32',
           'decimal[5, _scale=2]', 'decimal[5, Scale=2]',
           'decimal[5, scale_=2]', 'decimal[5, "scale"=2]',
           '', ' ', '#', '?', '3', '3 *', '{x: 3}', '()', '{}', '(,)', '{,}']

def keywords(tier):
    """Every keyword there is, in every case, with every constructor."""
    calls = (('time', ('"UTC"',)), ('datetime', ('"UTC"',)),
             ('timedelta', ('"ms"',)), ('units', ('"m"', 'int32')),
             ('decimal', ('10', '2')),
             ('categorical', ('["a", "b"]', 'string', 'True')),
             ('complex', ('float32',)), ('string', ('10', '"A"')),
             ('struct', ('["a"]', '[int32]')), ('tuple', ('[int32]',)),
             ('funcproto', ('[int32]', 'bool')), ('option', ('int32',)),
             ('map', ('int32', 'bool')))
    known = ('tz', 'unit', 'tp', 'precision', 'scale', 'categories', 'type',
             'ordered')
    names = set(known) | set(('foo', 'order', 'tzinfo', 'timezone', 'units',
                              'prec', 'categorie', 'x'))
    for k in known:
        names |= set((k.upper(), k.capitalize(), k[:-1] + k[-1].upper(),
                      k + 's', k[:-1], k + '_', k + '2', '_' + k))
    names = sorted(n for n in names if n and n[0] != '_')
    out = []
    for f, args in calls:
        for i in range(len(args) + 1):
            out.append('%s[%s]' % (f, ', '.join(args[:i])))
            for k in names:
                for v in sorted(set(args[max(i - 1, 0):] + ('2',))):
                    out.append('%s[%s]' % (f, ', '.join(
                        args[:i] + ('%s=%s' % (k, v),))))
                    if tier != 'quick' or k in known:
                        for k2 in known:
                            for v2 in args[i:]:
                                out.append('%s[%s]' % (f, ', '.join(
                                    args[:i] + ('%s=%s' % (k, v),
                                                '%s=%s' % (k2, v2)))))
    return out


SUBS = [
    Sub('keywords', None, differential, exhaustive=keywords),
    Sub('small', None, valid, exhaustive=lambda tier: [
        (d, (i, i * 7 % 720, i * 31 % 720)) for i, d in enumerate(
            S.datashapes(tier, long=False))]),
    Sub('valid', lambda: st.tuples(M.datashapes(depth=3), M.noises()), valid,
        quick=5000),
    Sub('mutated', texts.mutated_text, differential, quick=11000,
        regress=REGRESS),
    Sub('chars', texts.char_mutated, differential, quick=4000),
    Sub('neighbours', None, differential, exhaustive=texts.all_neighbours),
    Sub('soup', texts.soup, differential, quick=2500),
]
