"""C03: any text is parsed or refused with a documented, located error."""
from .. import model as M
from .. import refparse as R
from .. import texts
from ..core import Sub, Violation, Unspec, check, eq, srepr

ID = 'C03'
RULE = ('text from five generators: token-level mutations of valid datashapes, '
        'token soup, character-level mutations, character soup over all of '
        'Unicode, and deep nesting (15-40 levels). Each is given to dshape: '
        'the outcome must be a usable datashape or a documented exception '
        'whose location is right. Non-trivial: at least one token.')

OTHER = (TypeError, ValueError, NotImplementedError)


def quoted(text):
    """The texts within a text, and within these."""
    found, todo = set(), [text]
    while todo:
        toks = []
        try:
            R.tokenize(todo.pop(), toks)
        except (R.Reject, Unspec):
            pass
        for t in toks:
            if t[0] == 'STRING' and t[3] not in found:
                found.add(t[3])
                todo.append(t[3])
    return found


def location(e, text, unspec):
    src = e.text
    if src != text:
        # (the text of a type, as the argument of a constructor, is parsed by
        # itself: categorical["a", "int"])
        check(unspec or src in quoted(text), 'the error of %s is about '
              'another text %s', srepr(text), srepr(src))
    pos = e.lexpos
    check(type(pos) is int and 0 <= pos <= len(src),
          'error position %s outside of %s', pos, srepr(src))
    before = src[:pos]
    lines = src.split('\n')
    lineno = before.count('\n') + 1
    eq(e.lineno, lineno, 'line number of the error at %d in %s' % (
        pos, srepr(src)))
    eq(e.line, lines[lineno - 1], 'line of the error at %d in %s' % (
        pos, srepr(src)))
    eq(e.col_offset, pos - (before.rfind('\n') + 1),
       'column of the error at %d in %s' % (pos, srepr(src)))
    toks = []
    places = set()
    try:
        R.tokenize(src, toks)
    except R.Reject as r:
        places.add(r.pos)
    except Unspec:
        return
    places.update(t[1] for t in toks)
    places.add(toks[-1][2] if toks else 0)
    check(pos in places, 'the error in %s is located at %d, which is not where '
          'a token begins or the text ends', srepr(src), pos)
    msg = str(e)
    check(lines[lineno - 1] in msg, 'the message %s does not show the line',
          srepr(msg))
    check(isinstance(repr(e), str) and e.msg, 'no message')
    if '\t' in e.line:
        return              # (how wide it looks is another matter)
    shown = msg.split('\n')
    for a, b in zip(shown, shown[1:]):
        indent = len(a) - len(e.line)
        if indent >= 0 and a == ' ' * indent + e.line and \
                b.rstrip() == ' ' * (indent + e.col_offset) + '^':
            break
    else:
        raise Violation('the message %s has no pointer under column %d of '
                        'the line' % (srepr(msg, 400), e.col_offset))


def total(case):
    import datashape
    text = case
    unspec = False
    try:
        want = R.parse(text)
    except R.Reject:
        want = None
    except Unspec:
        want = None
        unspec = True
    try:
        got = datashape.dshape(text)
    except datashape.DataShapeSyntaxError as e:
        location(e, text, unspec)
        kind = 'syntax error'
    except OTHER as e:
        if isinstance(e, UnicodeError) or isinstance(e, SyntaxError):
            raise Violation('%s for %s' % (type(e).__name__, srepr(text)))
        kind = type(e).__name__
    else:
        kind = 'accepted'
        check(type(got) is datashape.DataShape, 'dshape(%s) is %s',
              srepr(text), type(got).__name__)
        s = str(got)
        r, p = repr(got), datashape.pprint(got, width=20)
        hash(got)
        if not unspec and not big_categorical(got):
            again = datashape.dshape(s)
            check(again == got, '%s parses as %s, which parses differently',
                  srepr(text), srepr(s))
            eq(hash(again), hash(got), 'hash after printing and parsing')
            check(eval(r, {'dshape': datashape.dshape}) == got, 'repr')
            check(datashape.dshape(p) == got, 'pprint')
    if want is not None and kind != 'accepted':
        raise Violation('%s for %s, which is the datashape %s' % (
            kind, srepr(text), srepr(want)))
    if not text.strip():
        return None
    return [kind, 'len:%d' % min(len(text) // 25, 8)]


def big_categorical(x):
    return any(d[2][0] == 'cat' and len(d[2][1]) > 10
               for d in M.walk(M.abs_d(x)))


REGRESS = ['categorical [ "a" , "b" ]pe = string , o"rdered = True ]',
           'map["int32", "3 *"] $', 'categorical["a", "categorical[\'a\', \'b\']"] *',
           '"\\ud800"', "{'\x00': int32}", '{"\ud800": int32}', 'timedelta[""]',
           '', '#', '\n\n', 'int32\n', '\nint3\n', '{\nx: int32,\n y: \n}',
           '3 *\n', "'a", '{x: int32} $', '(' * 30 + ')' * 30,
           'datetime[tz=\n', 'string[10, "klingon"]', '3 * 4', 'bytes',
           'Truex * int32', 'timedelta["s' + 's' * 40 + '"]']

SUBS = [
    Sub('neighbours', None, total, exhaustive=texts.all_neighbours),
    Sub('mutated', texts.mutated_text, total, quick=7000, regress=REGRESS),
    Sub('soup', texts.soup, total, quick=3000),
    Sub('chars', texts.char_mutated, total, quick=7000),
    Sub('charsoup', texts.char_soup, total, quick=5000),
    Sub('deep', texts.deep, total, quick=1500),
]
