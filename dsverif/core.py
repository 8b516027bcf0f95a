"""What a property module is made of."""


class Violation(Exception):
    """The code under test broke the property on this case."""


class Unspec(Exception):
    """The case lies outside what the property speaks about."""


class Sub(object):
    """One sub-check of a property.

    name      identifies it in replay files
    strategy  callable returning a Hypothesis strategy of *literal* cases
              (what repr writes and ast.literal_eval reads back)
    fn        fn(case): raises Violation, or returns the labels of the case.
              No labels (None or empty) means the case is trivial.
    quick     how many cases the quick tier generates over all its workers
    regress   literal cases that are always run first
    """

    def __init__(self, name, strategy, fn, quick=2000, regress=(), mult=20,
                 exhaustive=None, setup=None):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.regress = regress
        self.mult = mult
        self.exhaustive = exhaustive
        self.setup = setup


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def eq(got, want, what):
    if not (got == want):
        raise Violation('%s: got %s, expected %s' % (what, srepr(got),
                                                     srepr(want)))


def srepr(x, n=400):
    try:
        s = ascii(x)
    except Exception as e:  # a broken repr must not hide the finding
        s = '<%s: repr raised %s>' % (type(x).__name__, type(e).__name__)
    return s if len(s) <= n else s[:n] + '...'
