"""C33: threads do not disturb each other."""
import copy
import pickle
import sys
import threading

from hypothesis import strategies as st

from .. import model as M
from .. import remote
from .. import texts as T
from .. import values as V
from ..core import Sub, Violation, check, eq, srepr

ID = 'C33'
RULE = ('two to four jobs, each on random datashapes, a text and a value, are '
        'first done one after the other and then in two to six threads at '
        'once, which start together and are made to switch every few '
        'instructions; every thread must see what was seen before. '
        'Freshly made datashapes are shared by all threads, which hash, '
        'compare, print, pickle, index and search them for the first time '
        'together, and their parts must stay as they are. Non-trivial: every '
        'case.')
ASSUMPTIONS = ('schedules are those CPython gives with a switch interval of a '
               'microsecond', 'registering types or symbols while other '
               'threads work is not spoken about')


def together(jobs):
    """Run the jobs in threads at once; give what they return."""
    out = [None] * len(jobs)
    start = threading.Barrier(len(jobs))

    def run(i):
        try:
            start.wait()
            out[i] = ('ok', jobs[i]())
        except BaseException as e:
            out[i] = ('bad', '%s: %s' % (type(e).__name__, e))
    threads = [threading.Thread(target=run, args=(i,))
               for i in range(len(jobs))]
    before = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(before)
    for kind, what in out:
        if kind == 'bad':
            raise Violation('in a thread: %s' % what)
    return [what for _, what in out]


def same(got, want, k):
    for (what, a), (_, b) in zip(got, want):
        if a != b:
            raise Violation('%s: %s in thread %d, %s alone' % (
                what, srepr(a), k, srepr(b)))


def apart(case):
    """Threads with work of their own."""
    cases, n = case
    want = [remote.observe(c) for c in cases]
    order = [[(k + i) % len(cases) for i in range(len(cases))]
             for k in range(n)]

    def job(k):
        return lambda: [remote.observe(cases[i]) for i in order[k]]
    got = together([job(k) for k in range(n)])
    for k in range(n):
        eq(len(got[k]), len(cases), 'jobs done')
        for i, res in zip(order[k], got[k]):
            same(res, want[i], k)
    return ['threads %d' % n]


def look(x, y, z, order):
    """Everything that may be computed late and kept."""
    import datashape as ds

    def seen(f):
        try:
            return f()
        except Exception as e:
            return type(e).__name__
    todo = [
        lambda: hash(x) == hash(y),
        lambda: (x == y, y == x, x != y, x == z, x != z),
        lambda: (str(x), repr(x), ds.pprint(x, 20)),
        lambda: M.abs_d(x),
        lambda: M.abs_d(pickle.loads(pickle.dumps(x, 2))),
        lambda: M.abs_d(copy.deepcopy(x)),
        lambda: x in {y: 1} and x in {y},
        lambda: [repr(p) for p in x.parameters] + [repr(x.shape)],
        lambda: M.abs_d(x.measure),
        lambda: [(n, M.abs_d(t)) for n, t in x.measure.dict.items()],
        lambda: [M.abs_d(t) for t in x.measure.types],
        lambda: M.abs_d(x.subshape[0]),
        lambda: M.abs_d(x.subarray(1)),
        lambda: repr(ds.to_numpy(x)),
        lambda: repr(ds.promote(x.measure, y.measure)),
        lambda: (ds.has_var_dim(x), ds.isscalar(x), ds.isrecord(x),
                 ds.isfixed(x)),
        lambda: M.abs_d(ds.dshape([x, y][0])),
        lambda: M.abs_d(3 * x),
    ]
    out = [None] * len(todo)
    for i in range(len(todo)):
        j = (i * order[0] + order[1]) % len(todo)
        out[j] = seen(todo[j])
    return out


def shared(case):
    """Threads that look at the same fresh datashapes."""
    a, b, orders = case
    steps = (1, 5, 7, 11, 13, 17)        # none has a factor of 18
    orders = [(steps[p % 6], q) for p, q in orders]
    want = look(M.build(a), M.build(a), M.build(b), (1, 0))
    x, y, z = M.build(a), M.build(a), M.build(b)
    got = together([lambda o=o: look(x, y, z, o) for o in orders])
    for k, g in enumerate(got):
        for i, (p, q) in enumerate(zip(g, want)):
            check(p == q, 'look %d: %s in thread %d, %s alone', i, srepr(p),
                  k, srepr(q))
    check(want[0] is True, 'hash')
    eq(want[1], (True, True, False, a == b, a != b), 'equality')
    eq(M.abs_d(x), a, 'the datashape')
    eq(M.abs_d(z), b, 'the other datashape')
    return ['threads %d' % len(orders)]


def jobs():
    one = st.tuples(M.datashapes(depth=2), M.datashapes(depth=2),
                    st.one_of(T.valid_text(), T.mutated_text()), V.values())
    return st.tuples(st.lists(one, min_size=2, max_size=4),
                     st.integers(2, 6))


SUBS = [
    Sub('apart', jobs, apart, quick=600),
    Sub('shared', lambda: st.tuples(
        M.datashapes(M.Cfg(long=True), depth=3), M.datashapes(depth=2),
        st.lists(st.tuples(st.integers(0, 5), st.integers(0, 17)),
                 min_size=2, max_size=6)), shared, quick=3000),
]
