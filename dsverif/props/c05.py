"""C05: layout, comments and alternative spellings do not change the meaning."""
from hypothesis import strategies as st

from .. import model as M
from .. import texts
from .. import small
from ..core import Sub, Violation, check, eq, srepr

ID = 'C05'
RULE = ('random datashapes written twice: canonically, and with random '
        'whitespace, comments, trailing commas, type aliases, quoting styles, '
        'constructor forms (struct[], tuple[], funcproto[], option[]) and '
        'keyword/positional arguments; both texts must parse to the same type. '
        'Token sequences, valid or not, laid out in two ways must get the same '
        'verdict. Non-trivial: the two texts differ.')


REMARK = list('abz019 \t"\'#*,=:[]{}()?.->\\\xe9\u4e2d\U0001f40d')


def remarks():
    """A comment, up to the end of its line."""
    return st.one_of(
        st.text(st.sampled_from(REMARK), max_size=8),
        st.sampled_from(('', '"', "'", '}', ' int32', '##', ' a "b" ', '...',
                         '\\', ' * '))).map(lambda s: '#' + s)


def tails():
    """What may follow a datashape; nothing ends the last line."""
    return st.one_of(
        st.just(''), remarks(), remarks().map(lambda s: '\n' + s),
        st.tuples(remarks(), remarks()).map(lambda p: ' %s\n  %s' % p))


def seps():
    return st.one_of(st.sampled_from(SEPS), st.sampled_from(SEPS),
                     remarks().map(lambda s: ' %s\n' % s))


def spellings(case):
    import datashape
    d, nums1, nums2 = case[:3]
    tail = case[3] if len(case) > 3 else ''
    base = M.plain_text(d)
    want = datashape.dshape(base)
    w = M.abs_d(want)
    eq(w, d, 'dshape(%s)' % srepr(base))
    labels = set('k:' + k for k in M.kinds_of(d))
    n = 0
    for i, nums in enumerate((nums1, nums2)):
        noise = M.Noise(nums)
        text = M.layout(M.tokens_of(d, noise, sugar=bool(i)), noise) + tail
        if text == base:
            continue
        n += 1
        got = datashape.dshape(text)
        eq(M.abs_d(got), d, 'dshape(%s)' % srepr(text))
        check(got == want and hash(got) == hash(want) and str(got) == str(want),
              '%s and %s give different datashapes', srepr(text), srepr(base))
    return labels if n else None


def verdict(text):
    import datashape
    try:
        return ('ok', M.abs_d(datashape.dshape(text)))
    except datashape.DataShapeSyntaxError:
        return ('syntax',)
    except (TypeError, ValueError, NotImplementedError) as e:
        return (type(e).__name__,)


def relaid(case):
    toks, seps = case[:2]
    tail = case[2] if len(case) > 2 else ''
    toks = [t for t in toks if t != '#']
    a = ' '.join(toks)
    b = ''.join(seps[i % len(seps)] + t for i, t in enumerate(toks)) + \
        seps[-1] + tail
    va, vb = verdict(a), verdict(b)
    if va != vb:
        raise Violation('%s is %s but %s is %s' % (
            srepr(a), srepr(va), srepr(b), srepr(vb)))
    return [va[0]] if toks else None


SEPS = (' ', '  ', '\n', '\t', '\r\n', '\n    ', ' # comment\n', '#\n',
        '# "x" * {[( ?\n', '\x0b', '\x0c', '\n\n', ' # a\n # b\n ', '\xa0',
        '\u2003', '\x1c')

_i = ('D', (), ('p', 'int32'))
REGRESS = [
    (('D', (), ('tup', (_i,))), [2] * 9, [2] * 9),
    (('D', (), ('rec', (('a', _i),))), [2] * 9, [5] * 9),
]

def relayouts(tier):
    """Every separator between every two tokens, and everywhere."""
    for i, toks in enumerate(texts.SEEDS + texts.MORE_SEEDS):
        toks = tuple(t for t in toks)
        n = len(toks) + 1
        for j, sep in enumerate(SEPS):
            yield toks, (sep,), ''
            for k in range(n):
                yield toks, (' ',) * k + (sep,) + (' ',) * (n - k - 1), ''
        for tail in ('#', '\n#', '# x', '#"', '\n', ' \n #a\n\n#b'):
            yield toks, (' ',), tail
        for k in range(len(toks)):
            yield toks[:k], (' ', '\n'), '#'
            yield toks[k:], ('\t', ' #\n'), ''


SUBS = [
    Sub('small', None, spellings, exhaustive=lambda tier: [
        (d, (i, i * 7, i * 31 + 1), (i + 1, i * 11, i * 13 + 2, i * 3),
         ('', '', '#x', '\n# y\n')[i % 4]) for i, d in enumerate(
             small.datashapes(tier, long=False))]),
    Sub('small_relaid', None, relaid, exhaustive=relayouts),
    Sub('spellings', lambda: st.tuples(M.datashapes(depth=3), M.noises(),
                                       M.noises(), tails()), spellings, quick=7000,
        regress=REGRESS),
    Sub('relaid', lambda: st.tuples(
        texts.mutated_tokens(), st.lists(seps(), min_size=1, max_size=5),
        tails()), relaid, quick=5000),
]
