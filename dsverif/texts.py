"""Generators of datashape-like text: valid, nearly valid, and soup."""
from hypothesis import strategies as st

from . import model as M

VOCAB = ['*', ',', '=', ':', '[', ']', '{', '}', '(', ')', '...', '->', '?',
         '0', '1', '3', '10', '-2', '12345678901234567890', 'int32', 'int',
         'float32', 'float64', 'real', 'bool', 'string', 'complex', 'var',
         'ellipsis', 'date', 'time', 'datetime', 'timedelta', 'units',
         'decimal', 'categorical', 'option', 'map', 'struct', 'tuple',
         'funcproto', 'bytes', 'char', 'json', 'null', 'void', 'object',
         'A', 'B', 'M', 'N', 'Trueish', 'True', 'False', '_x', 'x', 'y',
         'tz', 'unit', 'tp', 'type', 'ordered', 'precision', 'scale', 'foo',
         '"A"', "'x'", "'ascii'", '"utf16"', "'ms'", '"days"', '""',
         '"\\u0041"', 'typevar', 'fixed', 'int128', 'uint8', 'complex64']
RARE = ['..', '.', '-', '>', '+', '!', '@', '$', '\\', '"', "'", '01', '-0',
        '"\\x"', '"\\\'"', '\'\\"\'', '#', '"a\nb"', '<', '/', '`', '~', '%',
        '&', ';', '\x00', '\xe9', 'int3 2', '1.5', '0x1', '"\\u12"', '-']

GROUPS = (
    ('int32', 'bool', 'string', 'A', 'bytes', 'char', 'json', 'null', 'int',
     'date', 'datetime', 'time', 'timedelta', 'void', 'object', 'complex',
     'float64', 'N', 'var', 'uintptr', 'int128', 'fixed'),
    ('3', '0', '1', '12', '-2', 'var', '...', 'ellipsis', 'N', 'True'),
    ('[', '{', '('), (']', '}', ')'), (',', ':', '=', '*', '->', '...'),
    ('tz', 'unit', 'tp', 'type', 'ordered', 'precision', 'scale', 'foo'),
    ('datetime', 'time', 'units', 'timedelta', 'decimal', 'string',
     'categorical', 'option', 'map', 'struct', 'tuple', 'funcproto'),
)

SEEDS = (
    ('3', '*', 'int32'), ('A', '...', '*', 'int32'), ('?', 'int32'),
    ('{', 'x', ':', 'int32', ',', '"y z"', ':', 'var', '*', 'string', '}'),
    ('(', 'int32', ',', '3', '*', 'A', ')', '->', 'A'),
    ('string', '[', '10', ',', "'ascii'", ']'),
    ('struct', '[', '[', '"a"', ',', '"b"', ']', ',', '[', 'int32', ',',
     'bool', ']', ']'),
    ('tuple', '[', '[', 'int32', ',', '3', '*', 'bool', ']', ']'),
    ('funcproto', '[', '[', 'int32', ']', ',', 'bool', ']'),
    ('categorical', '[', '[', '"a"', ',', '"b"', ']', ',', 'type', '=',
     'string', ',', 'ordered', '=', 'True', ']'),
    ('datetime', '[', 'tz', '=', '"UTC"', ']'),
    ('decimal', '[', '10', ',', 'scale', '=', '2', ']'),
    ('units', '[', '"m"', ',', 'int32', ']'),
    ('timedelta', '[', 'unit', '=', '"ms"', ']'),
    ('map', '[', 'int32', ',', '3', '*', '?', 'string', ']'),
    ('option', '[', '3', '*', 'int32', ']'), ('complex', '[', 'float32', ']'),
    ('(', ')',), ('{', '}'), ('(', 'int32', ',', ')'),
    ('var', '*', '...', '*', '3', '*', '?', '{', 'a', ':', 'B', '}'),
)

MORE_SEEDS = (
    ('categorical', '[', '[', ']', ']'), ('decimal', '[', '-0', ']'),
    ('time', '[', '"UTC"', ']'), ('timedelta', '[', "'minutes'", ']'),
    ('units', '[', '"m"', ',', 'tp', '=', '3', '*', 'int32', ']'),
    ('categorical', '[', '[', '1', ',', '2', ']', ']'),
    ('categorical', '[', '[', 'True', ',', 'False', ']', ']'),
    ('{', 'x', ':', '{', 'y', ':', '?', 'A', '}', ',', 'z', ':', '(', ')',
     ',', '}'),
    ('(', ')', '->', '(', ')', '->', 'A'),
    ('A', '*', 'B', '...', '*', 'var', '*', 'C'),
    ('(', '...', '*', 'int32', ',', '...', '*', 'A', ',', ')'),
    ('fixed', '[', '3', ']', '*', 'int32'), ('typevar', '[', '"A"', ']'),
    ('string', '[', '0', ']'), ('bytes', '[', '3', ']'),
    ('map', '[', 'map', '[', 'A', ',', 'B', ']', ',', '{', '}', ']'),
    ('3', '*', '(', '3', '*', '?', 'int32', ')', '->', 'real'),
)


def token():
    return M.weighted((12, st.sampled_from(VOCAB)), (1, st.sampled_from(RARE)))


def near(tok, k, c):
    """A token which differs from tok by one character, more or less."""
    i = k % (len(tok) + 1)
    j = k % max(len(tok), 1)
    return (tok[:i] + c + tok[i:], tok[:j] + c + tok[j + 1:],
            tok[:j] + tok[j + 1:], tok.swapcase(), c + tok, tok + c,
            tok[:j] + tok[j:j + 1].swapcase() + tok[j + 1:])[k % 7]


NEAR = list('_-0130aAzZsS')


@st.composite
def mutated_tokens(draw):
    """The tokens of a valid datashape with a few token-level edits."""
    if draw(st.booleans()):
        toks = list(draw(st.sampled_from(SEEDS)))
    else:
        d = draw(M.datashapes(depth=2))
        toks = M.tokens_of(d, M.Noise(draw(M.noises(12))))
    for _ in range(draw(st.sampled_from((1, 1, 1, 2, 2, 3)))):
        op = draw(st.sampled_from((0, 1, 2, 3, 4, 5, 6, 6, 8, 8, 8) +
                                  (7,) * 8))
        if not toks:
            op = 1
        i = draw(st.integers(0, max(len(toks) - 1, 0)))
        if op == 0:
            del toks[i]
        elif op == 1:
            toks.insert(draw(st.integers(0, len(toks))), draw(token()))
        elif op == 2:
            toks[i] = draw(token())
        elif op == 3:
            toks.insert(i, toks[i])
        elif op == 4:
            j = draw(st.integers(0, len(toks) - 1))
            toks[i], toks[j] = toks[j], toks[i]
        elif op == 5:
            j = draw(st.integers(i, min(len(toks), i + 4)))
            part = toks[i:j]
            k = draw(st.integers(0, len(toks)))
            toks[k:k] = part
        elif op == 8:
            k = draw(st.integers(0, 200))
            toks[i] = near(toks[i], k, draw(st.sampled_from(NEAR)))
        elif op == 7:
            # exchange a type for a type, a dimension for a dimension, ...
            for group in GROUPS:
                if toks[i] in group:
                    toks[i] = draw(st.sampled_from(group))
                    break
        else:
            # exchange for a token of the same sort
            same = [t for t in VOCAB if t[:1].isalpha() == toks[i][:1].isalpha()
                    and t[:1].isdigit() == toks[i][:1].isdigit()]
            toks[i] = draw(st.sampled_from(same))
    return toks


def neighbours(toks):
    """Every list of tokens one edit away from this one."""
    toks = list(toks)
    n = len(toks)
    vocab = VOCAB + RARE
    for i in range(n):
        yield toks[:i] + toks[i + 1:]
        yield toks[:i] + [toks[i]] + toks[i:]
        for j in range(i + 1, n):
            yield toks[:i] + [toks[j]] + toks[i + 1:j] + [toks[i]] + \
                toks[j + 1:]
        for v in vocab:
            if v != toks[i]:
                yield toks[:i] + [v] + toks[i + 1:]
        for v in NEAR:
            yield toks[:i] + [toks[i] + v] + toks[i + 1:]
            yield toks[:i] + [v + toks[i]] + toks[i + 1:]
        for v in set((toks[i].swapcase(), toks[i].capitalize(),
                      toks[i][:-1] + toks[i][-1:].swapcase())):
            yield toks[:i] + [v] + toks[i + 1:]
    for i in range(n + 1):
        for v in vocab:
            yield toks[:i] + [v] + toks[i:]
        yield toks[:i]
        yield toks[i:]


def all_neighbours(tier='quick'):
    """The texts one edit away from the seeds (thorough: or two edits)."""
    seen = set()
    for s in SEEDS + MORE_SEEDS:
        seen.add(' '.join(s))
        for toks in neighbours(s):
            seen.add(' '.join(toks))
    if tier == 'thorough':
        for s in SEEDS + MORE_SEEDS:
            if len(s) < 4:
                for toks in neighbours(s):
                    for two in neighbours(toks):
                        seen.add(' '.join(two))
    return sorted(seen)


def join(toks, nums):
    """One space between tokens, or sometimes noisy layout."""
    if nums and nums[0] % 3 == 0:
        return M.layout(toks, M.Noise(nums))
    return ' '.join(toks)


def mutated_text():
    return st.builds(join, mutated_tokens(), M.noises(8))


def soup():
    return st.builds(join, st.lists(token(), max_size=12), M.noises(8))


def valid_text():
    def make(d, nums):
        n = M.Noise(nums)
        return M.layout(M.tokens_of(d, n), n)
    return st.builds(make, M.datashapes(depth=2), M.noises())


CHARS = (list('abcxyzABCXYZ_019 \t\n\r#*,=:[]{}()?.->\'"\\u') +
         ['\x00', '\x0b', '\x0c', '\x1c', '\x85', '\xa0', '\xe9', '\u0660',
          '\u2028', '\u3000', '\ud800', '\U0001f600', '...', '->', '\\n',
          '\\u0041', '\\u12', 'True', 'False', '0', '00', '-1', '!', '$',
          '\ufeff'])


def _edit(text, edits):
    for op, i, c, k in edits:
        n = len(text)
        i = i % (n + 1)
        if op == 0:
            text = text[:i] + c + text[i:]
        elif op == 1:
            text = text[:i] + text[i + 1 + k:]
        elif op == 2:
            text = text[:i] + c + text[i + 1:]
        elif op == 3:
            text = text[:i]
        elif op == 4:
            text = text[i:]
        else:
            text = text[:i] + text[i:i + 1 + k] * 2 + text[i + 1 + k:]
    return text


def char_mutated():
    """Valid text with a few character-level edits."""
    edit = st.tuples(st.sampled_from((0, 0, 0, 1, 1, 2, 2, 3, 4, 5)),
                     st.integers(0, 200), st.sampled_from(CHARS),
                     st.integers(0, 4))
    return st.builds(_edit, st.one_of(
        valid_text(), st.sampled_from(SEEDS).map(' '.join)),
        st.lists(edit, min_size=1, max_size=3))


def char_soup():
    return st.one_of(
        st.lists(st.sampled_from(CHARS), max_size=25).map(''.join),
        st.text(max_size=12))


def nest(case):
    """Text nested as deeply as the list of wrappers is long."""
    wraps, leaf = case
    text = leaf
    for w in wraps:
        text = WRAPS[w % len(WRAPS)] % text
    return text


WRAPS = ('{x: %s}', '(%s)', '(%s, int32)', '(int32) -> %s', '(%s) -> bool',
         'option[%s]', '3 * %s', 'var * %s', 'map[int32, %s]',
         'map[%s, int32]', "struct[['x'], [%s]]", 'tuple[[%s]]',
         'funcproto[[%s], int32]', "units['a', %s]", 'A * %s',
         "categorical[['a'], type=(%s)]", '{x: int32, y: %s}', '(? {z: %s})',
         'units[tp=%s, unit="m"]', 'M... * (%s)')


def deep():
    """Deeply nested text, with perhaps one wrapper repeated throughout."""
    leaf = st.sampled_from(('int32', 'A', '?string', '3 * bool', 'int3', '',
                            '3', 'var', '{', ')', '10 * {a: "', ']'))
    n = len(WRAPS) - 1
    same = st.tuples(st.integers(0, n), st.integers(15, 40)).map(
        lambda t: [t[0]] * t[1])
    pair = st.tuples(st.integers(0, n), st.integers(0, n),
                     st.integers(8, 20)).map(lambda t: [t[0], t[1]] * t[2])
    return st.tuples(st.one_of(same, pair, st.lists(
        st.integers(0, n), min_size=10, max_size=40)), leaf).map(nest)
