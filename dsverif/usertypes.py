"""Types as a user of the library may define them (C34)."""
from datashape import coretypes as ct


class Money(ct.Unit):
    cls = ct.MEASURE
    __slots__ = ('currency', 'digits')

    def __init__(self, currency, digits=2):
        self.currency = currency
        self.digits = digits

    def __str__(self):
        return 'money[%r, %d]' % (str(self.currency), self.digits)


class Cash(ct.Unit):
    """The same slots as Money."""
    cls = ct.MEASURE
    __slots__ = ('currency', 'digits')

    def __init__(self, currency, digits=2):
        self.currency = currency
        self.digits = digits

    def __str__(self):
        return 'money[%r, %d]' % (str(self.currency), self.digits)


class Coin(Money):
    """Adds nothing to its base class, not even slots."""


class Label(ct.String):
    """Derived from a built-in type."""


class Uuid(ct.Unit):
    cls = ct.MEASURE
    __slots__ = ()


class Guid(ct.Unit):
    cls = ct.MEASURE
    __slots__ = ()


class Guid4(Guid):
    __slots__ = ()


class Uuid5(Guid4):
    """Derived twice."""


class Sparse(ct.Mono):
    """Made of another type."""
    cls = ct.MEASURE
    __slots__ = ('ty', 'fill')

    def __init__(self, ty, fill=0):
        self.ty = ty
        self.fill = fill

    def __str__(self):
        return 'sparse[%s, %s]' % (self.ty, self.fill)


class Loose(ct.Mono):
    """Has no slots of its own: its parameters are its arguments."""
    cls = ct.MEASURE

    def __str__(self):
        return 'loose[%s]' % ', '.join(map(str, self.parameters))


class Mark(ct.Unit):
    cls = ct.MEASURE
    __slots__ = ()


class other:
    class Mark(ct.Unit):
        """Another class of the same name."""
        cls = ct.MEASURE
        __slots__ = ()


class Stream(ct.Unit):
    """A dimension."""
    cls = ct.DIMENSION
    __slots__ = ('rate',)

    def __init__(self, rate):
        self.rate = rate

    def __str__(self):
        return 'stream[%d]' % self.rate


# Kinds of what there is already, which add nothing to it

class Table(ct.Record):
    pass


class Pair(ct.Tuple):
    pass


class Maybe(ct.Option):
    pass


class Day(ct.Date):
    pass


class Stamp(ct.DateTime):
    pass


class Clock(ct.Time):
    pass


class Number(ct.Decimal):
    pass


class Span(ct.TimeDelta):
    pass


class Proto(ct.Function):
    pass


class Mapping(ct.Map):
    pass


class Choice(ct.Categorical):
    pass


class Size(ct.Fixed):
    pass


class Many(ct.Var):
    pass


class Wild(ct.Ellipsis):
    pass
