"""An independent reference parser for the datashape grammar.

Follows docs/source/grammar.rst (with the type tables of the package).
parse(text) returns an AST, or raises Reject when the text is no datashape,
or Unspec when neither the documentation nor the tests settle the question.
In the result a categorical whose type has to be inferred has type None.
"""
from .core import Unspec
from .model import PLAIN, UNITS, F64


class Reject(Exception):
    """The text is no datashape; pos is where tokenizing fails, if it does."""
    pos = None


def _reject_at(pos, msg):
    e = Reject('%s at %d' % (msg, pos))
    e.pos = pos
    return e


LOWER = set('abcdefghijklmnopqrstuvwxyz')
UPPER = set('ABCDEFGHIJKLMNOPQRSTUVWXYZ')
DIGIT = set('0123456789')
HEX = set('0123456789abcdefABCDEF')
NAMECH = LOWER | UPPER | DIGIT | {'_'}
PUNCT = {'*': 'ASTERISK', ',': 'COMMA', '=': 'EQUAL', ':': 'COLON',
         '[': 'LBRACKET', ']': 'RBRACKET', '{': 'LBRACE', '}': 'RBRACE',
         '(': 'LPAREN', ')': 'RPAREN', '?': 'QUESTIONMARK'}
ESC = {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}


def tokenize(s, out=None):
    """-> list of (kind, start, end, value); raises Reject.

    When `out` is given the tokens before a failure are found in it."""
    out = [] if out is None else out
    i, n = 0, len(s)
    while True:
        while i < n:
            if s[i].isspace():
                i += 1
            elif s[i] == '#':
                while i < n and s[i] != '\n':
                    i += 1
            else:
                break
        if i >= n:
            return out
        c = s[i]
        j = i + 1
        if c in LOWER or c in UPPER or c == '_':
            while j < n and s[j] in NAMECH:
                j += 1
            w = s[i:j]
            if w in ('True', 'False'):
                out.append(('BOOLEAN', i, j, w == 'True'))
            else:
                kind = ('NAME_LOWER' if c in LOWER else
                        'NAME_UPPER' if c in UPPER else 'NAME_OTHER')
                out.append((kind, i, j, w))
        elif s.startswith('...', i):
            j = i + 3
            out.append(('ELLIPSIS', i, j, None))
        elif s.startswith('->', i):
            j = i + 2
            out.append(('RARROW', i, j, None))
        elif c in PUNCT:
            out.append((PUNCT[c], i, j, None))
        elif c == '0':
            if j < n and s[j] in DIGIT:
                raise _reject_at(i, 'leading zero')
            if j < n and s[j].isdigit():
                raise Unspec()
            out.append(('INTEGER', i, j, 0))
        elif c in DIGIT or (c == '-' and j < n and s[j] in DIGIT and
                            s[j] != '0'):
            while j < n and s[j] in DIGIT:
                j += 1
            out.append(('INTEGER', i, j, int(s[i:j])))
        elif c in '\'"':
            val = []
            while True:
                if j >= n or s[j] in '\r\n':
                    raise _reject_at(i, 'unterminated string')
                d = s[j]
                if d == c:
                    j += 1
                    break
                if d == '\\':
                    e = s[j + 1:j + 2]
                    if e == 'u':
                        h = s[j + 2:j + 6]
                        if len(h) != 4 or not all(x in HEX for x in h):
                            raise _reject_at(i, 'bad escape')
                        val.append(chr(int(h, 16)))
                        j += 6
                    elif e == c:
                        val.append(c)
                        j += 2
                    elif e and e in ESC:
                        val.append(ESC[e])
                        j += 2
                    else:
                        raise _reject_at(i, 'bad escape')
                else:
                    val.append(d)
                    j += 1
            out.append(('STRING', i, j, ''.join(val)))
        else:
            raise _reject_at(i, 'no token')
        i = j


DTYPES = {n: ('p', n) for n in PLAIN if '[' not in n}
DTYPES.update({
    'int': ('p', 'int32'), 'real': ('p', 'float64'),
    'intptr': ('p', 'int64'), 'uintptr': ('p', 'uint64'),
    'complex64': ('p', 'complex[float32]'),
    'complex128': ('p', 'complex[float64]'),
    'complex': ('p', 'complex[float64]'),
    'string': ('str', None, 'U8'), 'bytes': ('bytes',), 'json': ('json',),
    'date': ('date',), 'time': ('time', None), 'datetime': ('datetime', None),
    'timedelta': ('td', 'us'), 'null': ('null',)})
ENCODINGS = {'A': 'A', 'ascii': 'A'}
for _w in ('8', '16', '32'):
    for _p in ('U', 'utf', 'utf-', 'utf_'):
        ENCODINGS[_p + _w] = 'U' + _w
UNIT_NAMES = dict((u, u) for u in UNITS)
for _n, _u in (('year', 'Y'), ('month', 'M'), ('week', 'W'), ('day', 'D'),
               ('date', 'D'), ('hour', 'h'), ('minute', 'm'), ('second', 's'),
               ('millisecond', 'ms'), ('microsecond', 'us'),
               ('nanosecond', 'ns')):
    UNIT_NAMES[_n] = UNIT_NAMES[_n + 's'] = _u

CONSTRUCTORS = ('complex', 'string', 'struct', 'tuple', 'funcproto', 'option',
                'map', 'time', 'datetime', 'timedelta', 'units', 'decimal',
                'categorical')
UNSETTLED = ('fixed', 'typevar', 'ellipsis')


def is_d(x):
    return isinstance(x, tuple) and len(x) == 3 and x[0] == 'D'


def is_i(x):
    return isinstance(x, int) and not isinstance(x, bool)


def all_d(x):
    return isinstance(x, list) and all(map(is_d, x))


def all_s(x):
    return isinstance(x, list) and all(isinstance(i, str) for i in x)


def unit_of(s):
    t = s.strip()
    if t in UNIT_NAMES:
        return UNIT_NAMES[t]
    raise Reject('time unit %r' % s)


def record(names, types):
    if len(set(names)) != len(names):
        raise Reject('duplicate field names')
    return ('rec', tuple(zip(names, types)))


# the constructors whose arguments have no documented names
BARE = ('complex', 'string', 'struct', 'tuple', 'funcproto', 'option', 'map')


def bind(args, kwargs, params, required):
    """Positional and keyword arguments by parameter name."""
    if len(args) > len(params):
        raise Reject('too many arguments')
    out = dict(zip(params, args))
    for k, v in kwargs:
        if k not in params:
            raise Reject('unknown keyword')
        if k in out:
            # given twice
            raise Reject('argument twice')
        out[k] = v
    for p in params[:required]:
        if p not in out:
            raise Reject('missing argument')
    return out


def construct(name, args, kwargs):
    n = len(args)
    if len(set(k for k, _ in kwargs)) != len(kwargs):
        raise Reject('argument twice')
    if name in BARE and any(k == 'foo' or k != k.lower() for k, _ in kwargs):
        # no constructor has an argument of that name
        raise Reject('unknown keyword')
    if name == 'complex':
        if kwargs:
            raise Unspec()
        if n != 1 or not is_d(args[0]):
            raise Reject('complex')
        if args[0] == ('D', (), ('p', 'float32')):
            return ('p', 'complex[float32]')
        if args[0] == F64:
            return ('p', 'complex[float64]')
        raise Reject('complex of that')
    if name == 'string':
        if kwargs:
            raise Unspec()
        if any(isinstance(a, bool) for a in args):
            raise Unspec()
        if n == 1 and isinstance(args[0], str):
            length, enc = None, args[0]
        elif n == 1 and is_i(args[0]):
            length, enc = args[0], 'U8'
        elif n == 2 and is_i(args[0]) and isinstance(args[1], str):
            length, enc = args
        else:
            raise Reject('string parameters')
        if length is not None and length < 0:
            raise Reject('string length')
        if enc not in ENCODINGS:
            raise Reject('encoding')
        return ('str', length, ENCODINGS[enc])
    if name == 'struct':
        if kwargs:
            raise Unspec()
        if n != 2:
            raise Reject('struct')
        if all_s(args[0]) and all_d(args[1]):
            if len(args[0]) != len(args[1]):
                raise Reject('struct lengths')
            return record(args[0], args[1])
        raise Unspec()
    if name == 'tuple':
        if kwargs:
            raise Unspec()
        if n != 1:
            raise Reject('tuple')
        if all_d(args[0]):
            return ('tup', tuple(args[0]))
        if is_i(args[0]) or (isinstance(args[0], list) and
                             all(map(is_i, args[0]))):
            raise Reject('tuple of integers')
        raise Unspec()
    if name == 'funcproto':
        if kwargs:
            raise Unspec()
        if n != 2:
            raise Reject('funcproto')
        if all_d(args[0]) and is_d(args[1]):
            return ('fun', tuple(args[0]), args[1])
        if not isinstance(args[0], list) or is_i(args[1]):
            raise Reject('funcproto')
        raise Unspec()
    if name == 'option':
        if kwargs:
            raise Unspec()
        if n != 1 or isinstance(args[0], (int, list)):
            raise Reject('option')
        if is_d(args[0]):
            return ('opt', args[0])
        raise Unspec()
    if name == 'map':
        if kwargs:
            raise Unspec()
        if n != 2 or any(isinstance(a, (int, list)) for a in args):
            raise Reject('map')
        if is_d(args[0]) and is_d(args[1]):
            return ('map', args[0], args[1])
        raise Unspec()
    if name in ('time', 'datetime'):
        b = bind(args, kwargs, ('tz',), 1)
        if not isinstance(b['tz'], str):
            raise Reject('tz')
        return (name, b['tz'])
    if name == 'timedelta':
        b = bind(args, kwargs, ('unit',), 1)
        if is_d(b['unit']):
            raise Unspec()
        if not isinstance(b['unit'], str):
            raise Reject('unit')
        return ('td', unit_of(b['unit']))
    if name == 'units':
        b = bind(args, kwargs, ('unit', 'tp'), 1)
        if not isinstance(b['unit'], str):
            raise Reject('unit')
        if not is_d(b.get('tp', F64)):
            raise Reject('tp')
        return ('units', b['unit'], b.get('tp', F64))
    if name == 'decimal':
        b = bind(args, kwargs, ('precision', 'scale'), 1)
        vs = (b['precision'], b.get('scale', 0))
        if any(isinstance(v, bool) for v in vs):
            raise Unspec()
        if not all(map(is_i, vs)):
            raise Reject('decimal')
        return ('dec',) + vs
    if name == 'categorical':
        b = bind(args, kwargs, ('categories', 'type', 'ordered'), 1)
        cats = b['categories']
        if isinstance(cats, int):
            raise Reject('categories')
        if not isinstance(cats, list) or not cats:
            raise Unspec()
        if any(map(is_d, cats)):
            raise Reject('categories')
        ordered = b.get('ordered', False)
        if not isinstance(ordered, bool):
            raise Reject('ordered')
        ty = None
        if 'type' in b:
            ty = b['type']
            if is_i(ty):
                raise Reject('type')
            if not is_d(ty) or ty[1]:
                raise Unspec()
            ty = ty[2]
        return ('cat', tuple(cats), ty, ordered)
    raise AssertionError(name)


class Parser(object):
    def __init__(self, text):
        self.toks = tokenize(text) + [('EOF', len(text), len(text), None)]
        self.i = 0

    def kind(self, k=0):
        j = self.i + k
        return self.toks[j][0] if j < len(self.toks) else 'EOF'

    def next(self):
        t = self.toks[self.i]
        self.i += 1
        return t

    def expect(self, kind):
        if self.kind() != kind:
            raise Reject('expected %s at token %d' % (kind, self.i))
        return self.next()

    def starts_datashape(self):
        """Could a datashape begin here?  (Otherwise it is not attempted.)"""
        k = self.kind()
        if k == 'INTEGER':
            return self.kind(1) == 'ASTERISK'
        if k == 'NAME_LOWER':
            return self.kind(1) != 'EQUAL'
        return k in ('QUESTIONMARK', 'NAME_UPPER', 'ELLIPSIS', 'LBRACE',
                     'LPAREN')

    def datashape(self):
        if self.kind() == 'QUESTIONMARK':
            self.next()
            return ('D', (), ('opt', self.nooption()))
        return self.nooption()

    def nooption(self):
        dim = None
        k, k1 = self.kind(), self.kind(1)
        if k == 'INTEGER':
            if k1 != 'ASTERISK':
                raise Reject('integer is no type')
            v = self.next()[3]
            if v < 0:
                raise Reject('negative dimension')
            dim = ('fixed', v)
        elif k == 'ELLIPSIS':
            self.next()
            dim = ('ell', None)
        elif k == 'NAME_UPPER' and k1 == 'ELLIPSIS':
            dim = ('ell', self.next()[3])
            self.next()
        elif k == 'NAME_UPPER' and k1 == 'ASTERISK':
            dim = ('tv', self.next()[3])
        elif k == 'NAME_LOWER':
            w = self.toks[self.i][3]
            if k1 == 'LBRACKET' and w in UNSETTLED:
                raise Unspec()
            if k1 != 'LBRACKET' and w in ('var', 'ellipsis'):
                self.next()
                dim = ('var',) if w == 'var' else ('ell', None)
        if dim is not None:
            self.expect('ASTERISK')
            inner = self.datashape()
            return ('D', (dim,) + inner[1], inner[2])
        return ('D', (), self.dtype())

    def dtype(self):
        k = self.kind()
        if k == 'NAME_UPPER':
            return ('tv', self.next()[3])
        if k == 'NAME_LOWER':
            w = self.next()[3]
            if self.kind() == 'LBRACKET':
                if w not in CONSTRUCTORS:
                    raise Reject('%s takes no parameters' % w)
                self.next()
                args, kwargs = self.args()
                self.expect('RBRACKET')
                if not args and not kwargs:
                    raise Reject('no parameters')
                return construct(w, args, kwargs)
            if w not in DTYPES:
                raise Reject('no type %s' % w)
            return DTYPES[w]
        if k == 'LBRACE':
            self.next()
            names, types = [], []
            while self.kind() != 'RBRACE':
                if self.kind() not in ('NAME_LOWER', 'NAME_UPPER',
                                       'NAME_OTHER', 'STRING'):
                    raise Reject('field name')
                names.append(self.next()[3])
                self.expect('COLON')
                types.append(self.datashape())
                if self.kind() != 'COMMA':
                    break
                self.next()
            self.expect('RBRACE')
            return record(names, types)
        if k == 'LPAREN':
            self.next()
            items = []
            while self.kind() != 'RPAREN':
                items.append(self.datashape())
                if self.kind() != 'COMMA':
                    break
                self.next()
            self.expect('RPAREN')
            if self.kind() == 'RARROW':
                self.next()
                return ('fun', tuple(items), self.datashape())
            return ('tup', tuple(items))
        raise Reject('no type at token %d' % self.i)

    def args(self):
        args, kwargs = [], []
        if self.kind() == 'RBRACKET':
            return args, kwargs
        while True:
            if self.kind() == 'NAME_LOWER' and self.kind(1) == 'EQUAL':
                k = self.next()[3]
                if k in DTYPES or k in UNSETTLED or k == 'var':
                    raise Unspec()
                self.next()
                kwargs.append((k, self.arg()))
            elif kwargs:
                raise Reject('positional after keyword')
            else:
                args.append(self.arg())
            if self.kind() != 'COMMA':
                return args, kwargs
            self.next()

    def arg(self):
        if self.starts_datashape():
            return self.datashape()
        k = self.kind()
        if k in ('INTEGER', 'STRING', 'BOOLEAN'):
            return self.next()[3]
        if k == 'LBRACKET':
            self.next()
            out = []
            if self.kind() == 'RBRACKET':
                self.next()
                return out
            if self.starts_datashape():
                get = self.datashape
            elif self.kind() in ('INTEGER', 'STRING', 'BOOLEAN'):
                kind = self.kind()

                def get():
                    return self.expect(kind)[3]
            else:
                raise Reject('list item')
            out.append(get())
            while self.kind() == 'COMMA':
                self.next()
                out.append(get())
            self.expect('RBRACKET')
            return out
        raise Reject('argument')


def one_wildcard(d):
    from .model import walk
    for x in walk(wildcard_free(d)):
        if sum(1 for dim in x[1] if dim[0] == 'ell') > 1:
            raise Reject('two ellipses')


def wildcard_free(d):
    """The same datashape with inferred categorical types filled in."""
    k = d[2][0]
    m = d[2]
    if k == 'cat' and m[2] is None:
        m = ('cat', m[1], ('null',), m[3])
    elif k == 'rec':
        m = ('rec', tuple((n, wildcard_free(x)) for n, x in m[1]))
    elif k == 'tup':
        m = ('tup', tuple(map(wildcard_free, m[1])))
    elif k == 'fun':
        m = ('fun', tuple(map(wildcard_free, m[1])), wildcard_free(m[2]))
    elif k == 'map':
        m = ('map', wildcard_free(m[1]), wildcard_free(m[2]))
    elif k == 'opt':
        m = ('opt', wildcard_free(m[1]))
    elif k == 'units':
        m = ('units', m[1], wildcard_free(m[2]))
    elif k == 'cat':
        m = ('cat', m[1], wildcard_free(('D', (), m[2]))[2], m[3])
    return ('D', d[1], m)


def erase_inferred(d, like):
    """Replace the type of each categorical of d whose counterpart in `like`
    has no stated type, so that the two can be compared."""
    if not (is_d(d) and is_d(like)):
        return d
    m, l = d[2], like[2]
    if m[0] != l[0]:
        return d
    k = m[0]
    if k == 'cat':
        ty = None if l[2] is None else \
            erase_inferred(('D', (), m[2]), ('D', (), l[2]))[2]
        m = ('cat', m[1], ty, m[3])
    elif k == 'rec' and len(m[1]) == len(l[1]):
        m = ('rec', tuple((a[0], erase_inferred(a[1], b[1]))
                          for a, b in zip(m[1], l[1])))
    elif k == 'tup' and len(m[1]) == len(l[1]):
        m = ('tup', tuple(map(erase_inferred, m[1], l[1])))
    elif k == 'fun' and len(m[1]) == len(l[1]):
        m = ('fun', tuple(map(erase_inferred, m[1], l[1])),
             erase_inferred(m[2], l[2]))
    elif k == 'map':
        m = ('map', erase_inferred(m[1], l[1]), erase_inferred(m[2], l[2]))
    elif k == 'opt':
        m = ('opt', erase_inferred(m[1], l[1]))
    elif k == 'units':
        m = ('units', m[1], erase_inferred(m[2], l[2]))
    return ('D', d[1], m)


def parse(text):
    p = Parser(text)
    d = p.datashape()
    if p.kind() != 'EOF':
        raise Reject('trailing tokens')
    one_wildcard(d)
    return d
