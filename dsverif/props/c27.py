"""C27: results do not depend on the process that computes them."""
from hypothesis import strategies as st

from .. import child
from .. import model as M
from .. import remote
from .. import small
from .. import texts as T
from .. import values as V
from ..core import Sub, Violation, eq, srepr

ID = 'C27'
RULE = ('two random datashapes, a text (good or bad) and a nested value; what '
        'can be seen of them - text, structure, parse result or position of '
        'the error, discovered and promoted types, type sets, fields, '
        'conversions, predicates, or the kind of error - is computed here and '
        'in two other processes with other hash seeds, one of which works '
        'through all cases in one go, and must be the same. Sequences of two to five such cases '
        'that are easily taken for one another are worked through by one '
        'process, and each by a process of its own, with the same results. '
        'Non-trivial: every case.')
ASSUMPTIONS = ('values with sets are not spoken about, nor hash values',)

SEEDS = (4242, 1)


def everywhere(case):
    here = remote.observe(case)
    labels = set()
    for seed in SEEDS:
        kind, there = child.child(seed).call('observe', case)
        if kind == 'bad':
            raise Violation('with hash seed %d: %s' % (seed, there))
        eq(len(there), len(here), 'number of observations')
        for (what, a), (_, b) in zip(here, there):
            if a != b:
                raise Violation('%s: %s here, %s with hash seed %d' % (
                    what, srepr(a), srepr(b), seed))
    again = remote.observe(case)
    for (what, a), (_, b) in zip(here, again):
        if a != b:
            raise Violation('%s: %s first, then %s' % (what, srepr(a),
                                                       srepr(b)))
    for what, a in here:
        labels.add(what + (':error' if (
            a.isidentifier() and a not in ('True', 'False', 'None')) or
                           a.startswith('SyntaxError') else ''))
    return sorted(labels)


WORDS = ('true', 'false', 'none', 'nan', 'inf', '1 day', '2 hours', 'monday',
         '12:30', 'jan 1 2014', '2014-01-01', '12:30:00', '1e5', '7', 'abc')
SCALARS = (('b', True), ('i', 1), ('f', '1.0'), ('np', 'i1', 1), ('i', 0),
           ('b', False), ('f', '0.0'), ('f', '-0.0'), ('np', 'i8', 0),
           ('s', '1'), ('s', '1.0'), ('by', b'1'), ('s', ''), ('n',),
           ('c', '1+0j'), ('np', 'f4', 1), ('i', 2**53), ('i', 2**63),
           ('dt', 2014, 1, 2, 0, 0, 0, 0), ('d', 2014, 1, 2))


def respelt(s, n):
    """Almost the same text."""
    return (s, s.swapcase(), s.upper(), s.title(), ' ' + s, s + ' ', s + '\n',
            s.lower(), s[:-1], s + s[-1:], s.replace('1', '2'),
            s.replace(' ', '  '), s.replace('*', ','), s.replace('int', 'uint'),
            s.replace("'", '"'), s[1:])[n % 16]


@st.composite
def alike(draw):
    """Cases that are easily taken for one another."""
    a, b = draw(M.pairs(depth=2))
    text = draw(st.one_of(T.valid_text(), T.mutated_text(), st.just('int32'),
                          st.sampled_from(WORDS)))
    v = draw(st.one_of(
        st.sampled_from(WORDS).map(lambda s: ('s', s)),
        st.sampled_from(SCALARS), V.values(), V.table(2)))
    frames = draw(st.integers(0, 3))
    out = []
    for _ in range(draw(st.integers(2, 5))):
        w = v
        how = draw(st.integers(0, 3))
        if v[0] == 's':
            w = ('s', respelt(v[1], draw(st.integers(0, 15))))
        elif v in SCALARS:
            w = draw(st.sampled_from(SCALARS))
        elif how:
            w = draw(V.similar(v, V.ALL, 4))
        if frames == 1:
            w = ('L', (w,))
        elif frames == 2:
            w = ('D', (('a', w),))
        elif frames == 3:
            w = ('L', (('i', 1), w))
        out.append((draw(st.sampled_from((a, b))),
                    draw(st.sampled_from((a, b))),
                    respelt(text, draw(st.integers(0, 15))), w))
    return tuple(out)


def history(cases):
    """What came before does not matter."""
    kind, res = child.child(77).call('history', cases)
    if kind == 'bad':
        raise RuntimeError(res)
    alone, after = res
    for k, (p, q) in enumerate(zip(alone, after)):
        eq(len(p), len(q), 'number of observations')
        for (what, a), (_, b) in zip(p, q):
            if a != b:
                raise Violation('%s of case %d: %s alone, %s after the cases '
                                'before it' % (what, k, srepr(a), srepr(b)))
    return ['cases %d' % len(cases)]


def few_everywhere(tier):
    """Small datashapes, small values and texts near the seeds, each once."""
    ds = small.datashapes()
    vs = [v for v in small.values() if b'S' not in _kinds(v)]
    ts = T.all_neighbours()
    n = 5000 if tier == 'quick' else 60000
    # steps that share no factor with the lengths visit everything in turn
    for i in range(n):
        yield (ds[i * 7919 % len(ds)], ds[i * 104729 % len(ds)],
               ts[i * 15485863 % len(ts)], vs[i * 1299709 % len(vs)])


def wide_everywhere(tier):
    ds = [d for three in small.wides(tier) for d in three[:2]]
    vs = [v for v in V.wide_dicts(tier)]
    if tier == 'quick':
        vs = vs[::3]
    for i in range(max(len(ds), len(vs))):
        d = ds[i % len(ds)]
        yield (d, ds[(i * 7 + 1) % len(ds)], M.plain_text(d),
               vs[i * 127 % len(vs)])


FAMILIES = (
    ['timedelta["%s"]' % u for u in M.UNITS] +
    ['timedelta["%s"]' % u for u in (
        'd', 'w', 'y', 'H', 'S', 'US', 'Ms', 'mS', 'NS', 'Day', 'days',
        'second', 'Seconds', 'MINUTE', 'minutes', 'hours', 'hour', 'x')],
    ['string["%s"]' % e for e in (
        'A', 'ascii', 'U8', 'utf8', 'utf-8', 'utf_8', 'U16', 'U32', 'utf-32',
        'a', 'ASCII', 'u8', 'UTF8', 'UTF-8', 'Utf_16', 'u32', 'latin1')],
    ['datetime[tz="%s"]' % z for z in (
        'UTC', 'utc', 'Utc', ' UTC', '', 'None', 'Europe/Berlin',
        'europe/berlin', 'EST', 'est')],
    ['int', 'Int', 'int32', 'Int32', 'INT32', 'real', 'Real', 'bool', 'Bool',
     'true', 'True', 'string', 'String', 'var', 'Var * int32',
     'var * int32', 'VAR * int32', 'complex', 'complex64', 'Complex',
     'complex[float32]', 'complex[Float32]', 'complex[float16]', 'int33',
     'decimal[5]', 'decimal[5, 0]', 'decimal[5, 2]', 'decimal[5, scale=2]',
     'decimal[5, Scale=2]', 'decimal'],
    ['N * int32', 'n * int32', 'N * N', 'N... * N', '... * N', '{n: N}',
     '{N: N}', '{_n: N}', '{"n": N}', "{'N': n}", '{n: N, n: N}',
     '{n: N, N: N}', '{1: N}', '{True: N}', '(N,)', '(N)', '(n,)', '()', '(,)',
     '?N', '??N', '?n', 'option[N]', 'option[?N]', '(N) -> N', '(N) -> n',
     'map[N, N]', 'map[N]', 'map[n, N]', '3 * N', '03 * N', '-3 * N', '3 * 3'],
    ["categorical[['a', 'b']]", "categorical[['b', 'a']]",
     "categorical[['a', 'b'], ordered=True]", "categorical[['A', 'b']]",
     "categorical[['a', 'b'], string]", "categorical[['1', '2']]",
     'categorical[[1, 2]]', 'categorical[[2, 1]]', 'categorical[[1, 1]]',
     'categorical[[True, False]]', "categorical[['a', 1]]",
     "categorical['a']", 'categorical[[int32]]'],
    ["units['m']", "units['M']", "units['m', float64]", "units['m', float32]",
     "units['m', 2 * float64]", "units['']", 'units[m]', 'units[1]'])


def families(tier):
    """Texts of one kind, one after the other in several orders."""
    e = ('D', (), ('p', 'int32'))
    for texts in FAMILIES:
        n = len(texts)
        orders = [texts, texts[::-1], texts[::2] + texts[1::2],
                  texts[n // 2:] + texts[:n // 2], sorted(texts)]
        for o in orders:
            yield tuple((e, e, t, ('s', t)) for t in o)
            if tier != 'quick':
                for i in range(n):
                    for j in range(n):
                        yield tuple((e, e, t, ('s', t))
                                    for t in (o[i], o[j], o[i]))
        for t in texts:
            yield tuple((e, e, u, ('i', 1)) for u in (t, t))


def _kinds(v):
    out = {v[0].encode()}
    if v[0] in ('L', 'T', 'S'):
        for x in v[1]:
            out |= _kinds(x)
    elif v[0] in ('D', 'OD', 'MP'):
        for _, x in v[1]:
            out |= _kinds(x)
    return out


SUBS = [
    Sub('families', None, history, exhaustive=families),
    Sub('wide', None, everywhere, exhaustive=wide_everywhere),
    Sub('small', None, everywhere, exhaustive=few_everywhere),
    Sub('history', alike, history, quick=1000),
    Sub('everywhere', lambda: st.tuples(
        M.datashapes(M.Cfg(long=True), depth=3), M.datashapes(depth=2),
        st.one_of(T.valid_text(), T.mutated_text()), V.values()), everywhere, quick=4000),
]
