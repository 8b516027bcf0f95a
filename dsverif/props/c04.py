"""C04: the lexer tiles text with the documented tokens."""
import itertools

from hypothesis import strategies as st

from .. import model as M
from .. import refparse as R
from .. import texts
from ..core import Sub, Violation, Unspec, check, eq, srepr

ID = 'C04'
RULE = ('text from token soup with arbitrary layout, character-level '
        'mutations of valid datashapes, character soup, and string literals '
        'written from random text, all texts one edit from the seeds, all short '
        'texts of the significant characters and all pairs of tokens; lex() is compared token by token (kind, '
        'id, span, value) with an independent tokenizer, and the error '
        'position of untokenizable text with its. Non-trivial: a token, or '
        'an error.')


def tokens(case):
    from datashape import lexer
    import datashape
    text = case
    want = []
    bad = None
    try:
        R.tokenize(text, want)
    except R.Reject as e:
        bad = e.pos
    got = []
    try:
        for t in lexer.lex(text):
            got.append(t)
    except datashape.DataShapeSyntaxError as e:
        check(bad is not None, 'lex(%s) fails at %s', srepr(text),
              srepr(e.lexpos))
        eq(e.lexpos, bad, 'position of the error in %s' % srepr(text))
    else:
        check(bad is None, 'lex(%s) accepts the text, which is wrong at %s',
              srepr(text), bad)
    flat = [(t.name, t.span[0], t.span[1], t.val) for t in got]
    if flat != want or [type(a[3]) for a in flat] != [type(b[3])
                                                      for b in want]:
        raise Violation('lex(%s) gives %s, not %s' % (
            srepr(text), srepr(flat), srepr(want)))
    for t in got:
        eq(t.id, getattr(lexer, t.name), 'id of a %s token' % t.name)
        check(tuple(t) == (t.id, t.name, t.span, t.val), 'token fields')
    labels = set(t.name for t in got)
    if bad is not None:
        labels.add('error')
    return labels


def literal(case):
    """A string token stands for the text it was written from."""
    from datashape import lexer
    text, style, pad = case
    lit = M.quote(text, style)
    src = pad + lit + pad
    toks = list(lexer.lex(src))
    check(len(toks) == 1, '%s lexes as %s', srepr(src), srepr(toks))
    eq(toks[0].name, 'STRING', 'token of %s' % srepr(src))
    eq(toks[0].val, text, 'value of %s' % srepr(src))
    eq(toks[0].span, (len(pad), len(pad) + len(lit)), 'span')
    if not text:
        return None
    return ['string', 'string:escaped' if '\\' in lit else 'string:plain']


def escape(case):
    """Every character after a backslash, in both kinds of literals."""
    c, delim, before, after = case
    tokens('%s%s\\%s%s%s' % (delim, before, c, after, delim))
    return ['escape']


def separated(case):
    """Tokens keep their kind and value whatever separates them."""
    from datashape import lexer
    toks, seps = case
    spaced = [(t.name, t.val) for t in lexer.lex(' '.join(toks))]
    text = ''.join(seps[i % len(seps)] + t for i, t in enumerate(toks))
    noisy = [(t.name, t.val) for t in lexer.lex(text)]
    eq(noisy, spaced, 'tokens of %s' % srepr(text))
    eq(len(spaced), len(toks), 'number of tokens of %s' % srepr(toks))
    return ['separated'] if toks else None


def _soup():
    return st.builds(lambda t, n: M.layout(t, M.Noise(n)) if n
                     else ''.join(t), st.lists(texts.token(), max_size=10),
                     M.noises(12))


_TEXT = st.one_of(M.names(), st.text(M.TEXT_ALPHABET, max_size=10),
                  st.text(max_size=10))
_WORDS = [w for w in texts.VOCAB]

REGRESS = ['Trueness', 'False_', 'Truex', 'True', 'True1', '"\x00"', "'\ud800'",
           '"\\ud800"', '00', '01', '-0', '-01', '-1', '0', '0a', '1a', '1-1',
           '1--1', '->-1', '.....', '......', '..', '"\\u00e9\\n"', "'\\\"'",
           "'\\''", '"\\\\"', '"a\rb"', '"a\u2028b"', '#a\r*', '#\n#\n',
           '\u3000a', 'a\x1c', '"\\', '"\\u1', '_1', '_', 'a.b', 'a...']

def layouts(tier):
    """Texts one edit away from the seeds, with spaces and without; every
    text of up to four significant characters."""
    for t in texts.all_neighbours():
        yield t
        yield t.replace(' ', '')


SIGNIFICANT = 'aTz_01-.>"\'\\# \n\t*['


def short(tier):
    for n in range(6 if tier == 'thorough' else 5):
        for cs in itertools.product(SIGNIFICANT, repeat=n):
            yield ''.join(cs)


def three(tier):
    """Every pair of tokens, with every separator or none, in a frame."""
    words = sorted(set(texts.VOCAB + texts.RARE))
    for a in words:
        for b in words:
            for s in ('', ' ', '\n', '#\n', '\t', '\r', '.', '-', '_', '0'):
                yield a + s + b


SUBS = [
    Sub('neighbours', None, tokens, exhaustive=layouts),
    Sub('short', None, tokens, exhaustive=short),
    Sub('pairs', None, tokens, exhaustive=three),
    Sub('soup', _soup, tokens, quick=8000, regress=REGRESS),
    Sub('chars', texts.char_mutated, tokens, quick=5000),
    Sub('charsoup', texts.char_soup, tokens, quick=8000),
    Sub('literal', lambda: st.tuples(_TEXT, st.integers(0, 3),
                                     st.sampled_from(('', ' ', '\n'))),
        literal, quick=5000),
    Sub('escape', None, escape, exhaustive=lambda tier: [
        (chr(i), d, b, a) for i in list(range(256)) + [0x100, 0x2028, 0x1f600]
        for d in '"\'' for b, a in (('', ''), ('x', '0041'), ('\\n', 'y'))]),
    Sub('separated', lambda: st.tuples(
        st.lists(st.sampled_from(_WORDS), max_size=8),
        st.lists(st.sampled_from(
            (' ', '\n', '\t', '\r\n', ' # c\n', '#"\n', '\n\n', '\x0c',
             '\xa0', '\u3000', '\x85', '#\r#\n')),
            min_size=1, max_size=4)),
        separated, quick=2000),
]
