"""C37: results do not depend on the day, the place or the settings."""
import atexit
import os
import shutil
import subprocess
import tempfile

from hypothesis import strategies as st

from .. import child
from .. import model as M
from .. import remote
from .. import small
from .. import texts as T
from .. import values as V
from ..core import Sub, Violation, eq, srepr

ID = 'C37'
RULE = ('texts put together from days, months, years, weekdays, times, zones '
        'and separators, and random datashapes, texts and values: what can be '
        'seen of them is computed here and in six processes whose clocks '
        'show other days (the last of a month of 28, 29, 30 and 31 days, '
        'other years), which are in other time zones and locales, have other '
        'hash seeds, environment variables and NumPy settings, run '
        'optimised, without docstrings, strict about bytes or about warnings; '
        'all must see the same. Non-trivial: every case.')
ASSUMPTIONS = ('years from 2001 to 2049', 'POSIX time zones; the C locales',
               'under -O, no assertion fails: `supertype` of types that are '
               'not numeric and `assert_dshape_equal` are not spoken about')

# the clock, the time zone and locale, the hash seed, the interpreter's flags,
# whether NumPy is told to raise errors and print little
PLACES = (
    ((2023, 1, 31), 'UTC0', 'C', 3, (), False),
    ((2023, 2, 28), 'EST5EDT', 'POSIX', 1, (), True),
    ((2024, 2, 29), 'XYZ-13', 'C.UTF-8', 2, ('-O',), False),
    ((2048, 4, 30), 'AAA11', 'C', 0, ('-OO',), True),
    ((2001, 9, 1), 'CET-1CEST', 'xx_XX.UTF-8', 4, ('-bb',), False),
    ((2034, 12, 30), 'NZST-12NZDT', 'C.UTF-8', 5, ('-X', 'utf8=0'), True),
)

# other things that an environment says or does not
ENVIRONS = (
    (), (('COLUMNS', '7'), ('LINES', '2'), ('TERM', 'dumb'), ('CI', '1')),
    (('HOME', None), ('USER', None), ('PATH', None), ('DEBUG', '1')),
    (('COLUMNS', '300'), ('HOME', '/nonexistent'), ('NO_COLOR', '1')),
    (('COLUMNS', '0'), ('TERM', None), ('DATESTYLE', 'DMY')),
    (('COLUMNS', 'x'), ('USER', '\xe9'), ('PYTHONIOENCODING', 'ascii')),
)

CLOCK = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>

static time_t shift;
static int known;

static int really(clockid_t c, struct timespec *t)
{
    static int (*f)(clockid_t, struct timespec *);
    if (!f)
        f = dlsym(RTLD_NEXT, "clock_gettime");
    return f(c, t);
}

static void know(void)
{
    struct timespec t;
    const char *s = getenv("DSV_FAKE_NOW");
    if (!known) {
        known = 1;
        really(CLOCK_REALTIME, &t);
        shift = s ? atoll(s) - t.tv_sec : 0;
    }
}

int clock_gettime(clockid_t c, struct timespec *t)
{
    int r = really(c, t);
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
        know();
        t->tv_sec += shift;
    }
    return r;
}

time_t time(time_t *p)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p)
        *p = t.tv_sec;
    return t.tv_sec;
}

int gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
'''

_clock = {}


def prepare():
    """Compile the clock; once, before there are any workers."""
    if 'lib' not in _clock:
        tmp = tempfile.mkdtemp(prefix='dsv-clock-')
        me = os.getpid()
        atexit.register(lambda: os.getpid() == me and
                        shutil.rmtree(tmp, ignore_errors=True))
        src = os.path.join(tmp, 'clock.c')
        lib = os.path.join(tmp, 'clock.so')
        with open(src, 'w') as f:
            f.write(CLOCK)
        subprocess.check_call(['gcc', '-O1', '-fPIC', '-shared', '-o', lib,
                               src, '-ldl'])
        _clock['lib'] = lib
    return _clock['lib']


def processes():
    """The six processes of this worker."""
    key = os.getpid()
    if key in _clock:
        return _clock[key]
    import calendar
    lib = prepare()
    out = []
    for (day, tz, lc, seed, flags, errs), env in zip(PLACES, ENVIRONS):
        noon = calendar.timegm(day + (12, 0, 0))
        extra = (('LD_PRELOAD', lib), ('DSV_FAKE_NOW', str(noon)), ('TZ', tz),
                 ('LC_ALL', lc), ('LANG', lc), ('LANGUAGE', None),
                 ('PYTHONCOERCECLOCALE', '0')) + env
        if flags[:1] == ('-X',):
            extra += (('DSV_STRICT', '1'),)
        c = child.child(seed, extra, flags)
        kind, got = c.call('setting', errs)
        if kind == 'bad':
            raise Violation('where warnings are errors: %s' % got)
        if got[0] != day[0] or abs(
                (got[1] - day[1]) * 31 + got[2] - day[2]) > 3:
            raise RuntimeError('the clock of the child shows %r, not %r' % (
                got, day))
        if got[4] == bool(flags and flags[0].startswith('-O')):
            raise RuntimeError('flags %r had no effect' % (flags,))
        out.append((c, 'on %d-%02d-%02d' % day + ', TZ=%s, LC_ALL=%s, hash '
                    'seed %d, flags %s%s' % (
                        tz, lc, seed, ' '.join(flags) or 'none',
                        ', NumPy raising' if errs else '') +
                    ''.join(', %s=%s' % kv for kv in env), flags))
    _clock[key] = out
    return out


def said(texts):
    """Discovery of texts."""
    vs = [('s', t) for t in texts]
    here = remote.discover_all(vs)
    for c, where, _ in processes():
        kind, there = c.call('discover_all', vs)
        if kind == 'bad':
            raise Violation('%s: %s' % (where, there))
        for t, a, b in zip(texts, here, there):
            if a != b:
                raise Violation('discover(%s): %s here, %s %s' % (
                    srepr(t), a, b, where))
    return sorted(set(here))


def seen(case):
    here = remote.observe(case)
    for c, where, flags in processes():
        kind, there = c.call('observe', case)
        if kind == 'bad':
            raise Violation('%s: %s' % (where, there))
        eq(len(there), len(here), 'number of observations')
        for (what, a), (_, b) in zip(here, there):
            if a != b and not (
                    flags[:1] in (('-O',), ('-OO',)) and a == 'AssertionError'):
                raise Violation('%s: %s here, %s %s' % (
                    what, srepr(a), srepr(b), where))
    return sorted(set(what for what, _ in here))


DAYS = ('1', '2', '28', '29', '30', '31', '32', '0', '12', '13', '29th',
        '30th', '31st', '1st', '29.', '31,')
MONTHS = ('Jan', 'Feb', 'February', 'feb', 'FEB', 'Apr', 'June', 'Sept', 'Nov',
          'December', 'Mai', 'Jänner', '2', '02', '11')
YEARS = ('2014', '2015', '2000', '2016', '00', '99', '96', '1900', "'16",
         '1', '9999', '0', '50', '73', '74', '78')
WEEK = ('Mon', 'monday', 'Tues', 'Fri', 'Sunday', 'Sa', 'today', 'now',
        'tomorrow', 'noon', 'yesterday')
TIMES = ('10:00', '00:00', '10', '10 PM', '10am', '12 am', '10:30:15',
         '10:30:15.25', '24:00', '10h', '10h30m', '36 min', '23:59:59',
         '23:59:60', 'T10', 'T1030', '0:00:00.000000', '1030', 'am', 'pm')
ZONES = ('UTC', 'Z', 'EST', 'EDT', '+05:00', '-0300', 'CET', 'AAA', 'XYZ',
         'GMT+3', 'UTC+3', '(CET)', 'NZST', 'BST')
AMOUNTS = ('inf', 'nan', '-inf', '1e400', '1e308', '1.5', '-1', '0', '1e18',
           '9' * 19, '9' * 18, '1_0', '-0.0', '1e-320')
WORDS = ('days', 'day', 'D', 'ns', 'seconds', 'Y', 'weeks', 'month', 'parsec')
SEPS = (' ', '-', '/', '.', ', ', '', ' of ', 'T', ' at ', ' and ', '  ', ';')


def fragments():
    one = st.one_of(*[st.sampled_from(x) for x in (
        DAYS, MONTHS, YEARS, WEEK, TIMES, ZONES, DAYS, MONTHS, TIMES, AMOUNTS, WORDS)])

    @st.composite
    def text(draw):
        parts = draw(st.lists(one, min_size=1, max_size=4))
        out = parts[0]
        for p in parts[1:]:
            out += draw(st.sampled_from(SEPS)) + p
        return out
    free = st.text('0123456789:-/. TZ+,\'abdeflmnoprstuvyJFMASOND',
                   min_size=1, max_size=14)
    return st.lists(st.one_of(text(), text(), text(), free), min_size=1,
                    max_size=12).map(tuple)


def all_fragments(tier):
    every = DAYS + MONTHS + YEARS + WEEK + TIMES + ZONES
    yield tuple(a + ' ' + w for a in AMOUNTS + DAYS for w in WORDS)
    yield AMOUNTS + WORDS
    yield every
    for a in every:
        for sep in SEPS:
            yield tuple(a + sep + b for b in every)
    if tier != 'quick':
        for a in every:
            for b in every:
                for s, t in ((' ', ' '), ('-', '-'), ('/', '/'), (' ', ', ')):
                    yield tuple(a + s + b + t + c for c in every)


def values():
    """Values full of texts and moments."""
    return st.one_of(V.values(), V.values(), V.table(3))


def few(tier):
    ds = small.datashapes()
    vs = small.values()
    vs = [v for v in vs if not _sets(v)]
    ts = T.all_neighbours()
    for i in range(2500 if tier == 'quick' else 40000):
        yield (ds[i * 6007 % len(ds)], ds[i * 104917 % len(ds)],
               ts[i * 15486367 % len(ts)], vs[i * 1300021 % len(vs)])


def _sets(v):
    if v[0] in ('S', 'FS'):
        return True
    if v[0] in ('L', 'T'):
        return any(map(_sets, v[1]))
    if v[0] in ('D', 'OD', 'MP'):
        return any(_sets(x) for _, x in v[1])
    return False


def cases():
    return st.tuples(
        M.datashapes(M.Cfg(long=True), depth=3), M.datashapes(depth=2),
        st.one_of(T.valid_text(), T.mutated_text()),
        values().filter(lambda v: not _sets(v)))


SUBS = [
    Sub('pairs', None, said, exhaustive=all_fragments),
    Sub('small', None, seen, exhaustive=few),
    Sub('texts', fragments, said, quick=4000),
    Sub('seen', cases, seen, quick=2500),
]
