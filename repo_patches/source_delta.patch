From 237e7b1ffc6705e7c8be0ffb5f39c631267f0476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 01/72] fix: lex names that merely start with True or False as
 names

---
 datashape/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/lexer.py b/datashape/lexer.py
index b3e1935..d88704d 100644
--- a/datashape/lexer.py
+++ b/datashape/lexer.py
@@ -21,7 +21,7 @@ def _str_val(s):
 
 # A list of the token names, corresponding regex, and value extraction function
 _tokens = [
-    ('BOOLEAN',    r'True|False', ast.literal_eval),
+    ('BOOLEAN',    r'(?:True|False)(?![a-zA-Z0-9_])', ast.literal_eval),
     ('NAME_LOWER', r'[a-z][a-zA-Z0-9_]*', lambda x : x),
     ('NAME_UPPER', r'[A-Z][a-zA-Z0-9_]*', lambda x : x),
     ('NAME_OTHER', r'_[a-zA-Z0-9_]*', lambda x : x),
-- 
2.43.0


From 54930e04abeee95ec5c31cd9eb1820736d8dcd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 02/72] fix: decode string tokens containing NUL or surrogate
 characters

---
 datashape/lexer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/datashape/lexer.py b/datashape/lexer.py
index d88704d..530b093 100644
--- a/datashape/lexer.py
+++ b/datashape/lexer.py
@@ -14,10 +14,15 @@ from . import error
 # where e.g. _tokens[NAME_LOWER-1] is the entry for NAME_LOWER
 __all__ = ['lex', 'Token']
 
+_escape_re = re.compile(r'\\(u[0-9a-fA-F]{4}|.)')
+
+
 def _str_val(s):
-    # Use the Python parser via the ast module to parse the string,
-    # since the string_escape and unicode_escape codecs do the wrong thing
-    return ast.parse('u' + s).body[0].value.s
+    # Decode only the (ASCII) escape sequences. Running the whole string
+    # through the unicode_escape codec does the wrong thing for non-ASCII text,
+    # and Python's own parser rejects NUL and surrogate characters.
+    return _escape_re.sub(
+        lambda m: m.group().encode('ascii').decode('unicode_escape'), s[1:-1])
 
 # A list of the token names, corresponding regex, and value extraction function
 _tokens = [
-- 
2.43.0


From ee7f4e361c4e482b59faf66e4720b1e90b0e023b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 03/72] fix: print field names, timezones, units and categories
 as literals that parse back

---
 datashape/coretypes.py      | 15 +++++++-------
 datashape/internal_utils.py | 40 ++++++++++++++++++++++++++++++++++---
 2 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index ea28b82..12c51f8 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -25,7 +25,7 @@ from .py2help import (
     unicode,
     with_metaclass,
 )
-from .internal_utils import IndexCallable, isidentifier
+from .internal_utils import IndexCallable, isidentifier, quote
 
 
 # Classes of unit types.
@@ -238,7 +238,7 @@ class Time(Unit):
         if self.tz is None:
             return basename
         else:
-            return '%s[tz=%r]' % (basename, str(self.tz))
+            return '%s[tz=%s]' % (basename, quote(str(self.tz)))
 
 
 class DateTime(Unit):
@@ -259,7 +259,7 @@ class DateTime(Unit):
         if self.tz is None:
             return basename
         else:
-            return '%s[tz=%r]' % (basename, str(self.tz))
+            return '%s[tz=%s]' % (basename, quote(str(self.tz)))
 
     def to_numpy_dtype(self):
         return np.dtype('datetime64[us]')
@@ -338,9 +338,9 @@ class Units(Unit):
 
     def __str__(self):
         if self.tp == DataShape(float64):
-            return 'units[%r]' % (self.unit)
+            return 'units[%s]' % quote(self.unit)
         else:
-            return 'units[%r, %s]' % (self.unit, self.tp)
+            return 'units[%s, %s]' % (quote(self.unit), self.tp)
 
 
 class Bytes(Unit):
@@ -1095,7 +1095,8 @@ R = Record  # Alias for record literals
 
 def _format_categories(cats, n=10):
     return '[%s%s]' % (
-        ', '.join(map(repr, cats[:n])),
+        ', '.join(quote(c) if isinstance(c, _strtypes) else repr(c)
+                  for c in cats[:n]),
         ', ...' if len(cats) > n else ''
     )
 
@@ -1421,7 +1422,7 @@ def pprint(ds, width=80):
 
     if isinstance(ds, Record):
         pairs = ['%s: %s' % (name if isidentifier(name) else
-                             repr(print_unicode_string(name)),
+                             quote(print_unicode_string(name)),
                              pprint(typ, width - len(result) - len(name)))
                  for name, typ in zip(ds.names, ds.types)]
         short = '{%s}' % ', '.join(pairs)
diff --git a/datashape/internal_utils.py b/datashape/internal_utils.py
index 701d2a9..3942bdb 100644
--- a/datashape/internal_utils.py
+++ b/datashape/internal_utils.py
@@ -6,7 +6,6 @@ Do not import datashape modules into this module.  See util.py in that case
 
 from __future__ import print_function, division, absolute_import
 
-import keyword
 import re
 
 
@@ -119,5 +118,40 @@ def groupby(func, seq):
 
 
 def isidentifier(s):
-    return (keyword.iskeyword(s) or
-            re.match(r'^[_a-zA-Z][_a-zA-Z0-9]*$', s) is not None)
+    # True and False are booleans in the datashape grammar, not names
+    return (s not in ('True', 'False') and
+            re.match(r'[_a-zA-Z][_a-zA-Z0-9]*\Z', s) is not None)
+
+
+_escapes = {
+    '\b': '\\b',
+    '\f': '\\f',
+    '\n': '\\n',
+    '\r': '\\r',
+    '\t': '\\t',
+    '\\': '\\u005c',  # the grammar has no escaped backslash
+}
+
+
+def quote(s):
+    r""" Write a string as a string literal of the datashape grammar
+
+    >>> print(quote('a b'))
+    'a b'
+    >>> print(quote("it's"))
+    "it's"
+    >>> print(quote('a\\b'))
+    'a\u005cb'
+    """
+    delim = '"' if "'" in s and '"' not in s else "'"
+
+    def escape(c):
+        if c == delim:
+            return '\\' + c
+        if c in _escapes:
+            return _escapes[c]
+        if repr(c)[1:-1] != c and c != '"' and c != "'" and ord(c) <= 0xffff:
+            return '\\u%04x' % ord(c)
+        return c
+
+    return delim + ''.join(map(escape, s)) + delim
-- 
2.43.0


From 16ec55968cc069fc9f00d590a726dbabf8687a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 04/72] fix: escape quotes and backslashes in the repr of a
 datashape

---
 datashape/coretypes.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 12c51f8..6b50eed 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -506,6 +506,12 @@ class Decimal(Unit):
             return np.dtype(np.float64)
 
 
+def _dshape_literal(s):
+    """ The Python expression which builds a datashape from its text """
+    s = s.replace('\\', '\\\\').replace('"', '\\"')
+    return ('dshape("""%s""")' if '\n' in s else 'dshape("%s")') % s
+
+
 class DataShape(Mono):
 
     """
@@ -575,11 +581,7 @@ class DataShape(Mono):
         return self.name or ' * '.join(map(str, self.parameters))
 
     def __repr__(self):
-        s = pprint(self)
-        if '\n' in s:
-            return 'dshape("""%s""")' % s
-        else:
-            return 'dshape("%s")' % s
+        return _dshape_literal(pprint(self))
 
     @property
     def shape(self):
@@ -941,9 +943,7 @@ def _launder(x):
 class CollectionPrinter(object):
 
     def __repr__(self):
-        s = str(self)
-        strs = ('"""%s"""' if '\n' in s else '"%s"') % s
-        return 'dshape(%s)' % strs
+        return _dshape_literal(str(self))
 
 
 class RecordMeta(Type):
-- 
2.43.0


From 0e081e2486525321480bff300eb37e35052cc551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 05/72] fix: parse the documented bytes and char types

---
 datashape/type_symbol_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/type_symbol_table.py b/datashape/type_symbol_table.py
index 1032100..14f3cf6 100644
--- a/datashape/type_symbol_table.py
+++ b/datashape/type_symbol_table.py
@@ -72,6 +72,8 @@ no_constructor_types = [
     ('real', ct.float64),
     ('complex', ct.complex_float64),
     ('string', ct.string),
+    ('bytes', ct.bytes_),
+    ('char', ct.char),
     ('json', ct.json),
     ('date', ct.date_),
     ('time', ct.time_),
-- 
2.43.0


From 882ce29da49b8f16ab49a747d7f6406c4d90688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 06/72] fix: print an option of an option in a form that parses

---
 datashape/coretypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 6b50eed..9cdd8d3 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -740,6 +740,9 @@ class Option(Mono):
         return self.ty.itemsize
 
     def __str__(self):
+        if isinstance(self.ty, Option):
+            # ?? is not in the grammar
+            return 'option[%s]' % self.ty
         return '?%s' % self.ty
 
     def to_numpy_dtype(self):
-- 
2.43.0


From f7f907c6d4f382a82f9433bfba223d157ce07562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 07/72] fix: do not compare an option by the dimensions of the
 type inside it

---
 datashape/coretypes.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 9cdd8d3..813dd77 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -87,9 +87,7 @@ class Mono(with_metaclass(Type, object)):
         return type(self), self.parameters
 
     def __eq__(self, other):
-        return (isinstance(other, Mono) and
-                self.shape == other.shape and
-                self.measure.info() == other.measure.info())
+        return isinstance(other, Mono) and self._key() == other._key()
 
     def __ne__(self, other):
         return not self.__eq__(other)
@@ -98,9 +96,14 @@ class Mono(with_metaclass(Type, object)):
         try:
             h = self._hash
         except AttributeError:
-            h = self._hash = hash(self.shape) ^ hash(self.measure.info())
+            h = self._hash = hash(self._key())
         return h
 
+    def _key(self):
+        # What identifies this type in comparisons: its dimensions and measure.
+        # (Option.shape is that of the type inside it, so it is not used here)
+        return (), self.info()
+
     @property
     def shape(self):
         return ()
@@ -583,6 +586,9 @@ class DataShape(Mono):
     def __repr__(self):
         return _dshape_literal(pprint(self))
 
+    def _key(self):
+        return self.shape, self.measure.info()
+
     @property
     def shape(self):
         return self.parameters[:-1]
-- 
2.43.0


From ece44fa258835a9dcd23238a7dcba5302953e4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 08/72] fix: hash a fixed dimension like the integer it equals

---
 datashape/coretypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 813dd77..5a28e03 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -860,7 +860,9 @@ class Fixed(Unit):
         return (type(other) is Fixed and self.val == other.val or
                 isinstance(other, _inttypes) and self.val == other)
 
-    __hash__ = Mono.__hash__
+    def __hash__(self):
+        # equal to the integer it stands for, so it hashes like it
+        return hash(self.val)
 
     def __str__(self):
         return str(self.val)
-- 
2.43.0


From 3c1c286040d51e306e8509b59b263d91b83f987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 09/72] fix: let null be pickled with every protocol

---
 datashape/coretypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 5a28e03..10ff07a 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -211,7 +211,7 @@ class Ellipsis(Mono):
 class Null(Unit):
 
     """The null datashape."""
-    pass
+    __slots__ = ()
 
 
 class Date(Unit):
-- 
2.43.0


From 98dc10851a2c65fdfe47e43ff1c976e20c128708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 10/72] fix: require the asterisk between a dimension and what
 follows it

---
 datashape/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index 2cd5080..84a2ef9 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -166,6 +166,8 @@ class DataShapeParser(object):
                     self.pos = saved_pos
                     self.raise_error('Expected a dim or a dtype')
                 return coretypes.DataShape(dim, *dshape.parameters)
+            # A dim without an ASTERISK is not part of a datashape
+            self.pos = saved_pos
         # Try dtype
         dtype = self.parse_dtype()
         if dtype:
-- 
2.43.0


From 6d8ab7a556dd5e2e11c84bb2a767b81a32480134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 11/72] fix: reject an option mark with nothing behind it

---
 datashape/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index 84a2ef9..12bfdb5 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -143,6 +143,8 @@ class DataShapeParser(object):
                                               constructors[tok.id],
                                               saved_pos - 1)
                 return coretypes.DataShape(option(ds))
+            self.pos = saved_pos - 1
+            return None
         else:
             return self.parse_datashape_nooption()
 
-- 
2.43.0


From 34bc445c2d7e75f42dafc65d9fddd15ab4a4318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 12/72] fix: reject a comma after the last type constructor
 argument

---
 datashape/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index 12bfdb5..493c2a9 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -353,6 +353,9 @@ class DataShapeParser(object):
                                            'Expected another keyword argument, ' +
                                            'positional arguments cannot follow ' +
                                            'keyword arguments')
+        if kwargs is None and args:
+            # There was a comma after the last argument
+            self.raise_error('Expected another type constructor argument')
         return (args, dict(kwargs) if kwargs else {})
 
     def parse_type_arg(self):
-- 
2.43.0


From 62901565ca23c6c235a068ad29c8fc7e24a52f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 13/72] fix: refuse string parameters that are not a length and
 an encoding

---
 datashape/coretypes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 10ff07a..676a747 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -389,10 +389,17 @@ class String(Unit):
         if len(args) == 1:
             if isinstance(args[0], _strtypes):
                 fixlen, encoding = None, args[0]
-            if isinstance(args[0], _inttypes):
+            else:
                 fixlen, encoding = args[0], None
         if len(args) == 2:
             fixlen, encoding = args
+        if len(args) > 2:
+            raise TypeError('string datashape takes at most 2 parameters, '
+                            'got %d' % len(args))
+
+        if fixlen is not None:
+            # raises TypeError for anything but an integer
+            fixlen = operator.index(fixlen)
 
         encoding = encoding or 'U8'
         if isinstance(encoding, str):
-- 
2.43.0


From 3ddbeaa280a6accf378a550627a1461520f8be0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 14/72] fix: raise ValueError, not IndexError, for an empty
 time unit

---
 datashape/coretypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 676a747..3ebc539 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -302,7 +302,7 @@ def normalize_time_unit(s):
         return s
     if s in _unit_aliases:
         return _unit_aliases[s]
-    if s[-1] == 's' and len(s) > 2:
+    if s.endswith('s') and len(s) > 2:
         return normalize_time_unit(s.rstrip('s'))
 
     raise ValueError("Do not understand time unit %s" % s)
-- 
2.43.0


From 158f4b72187ea44bef4f9b19f1fd868a8e1cf61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 15/72] fix: understand the minute and month time unit names

---
 datashape/coretypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 3ebc539..c38ad01 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -273,10 +273,12 @@ _units = set(['ns', 'us', 'ms', 's', 'm', 'h', 'D', 'W', 'M', 'Y'])
 
 _unit_aliases = {
     'year': 'Y',
+    'month': 'M',
     'week': 'W',
     'day': 'D',
     'date': 'D',
     'hour': 'h',
+    'minute': 'm',
     'second': 's',
     'millisecond': 'ms',
     'microsecond': 'us',
-- 
2.43.0


From 79ca05bf2db8899f02c5a8d9b6eb9127e3601959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 16/72] fix: refuse options, maps, functions, null and
 datashapes as dimensions

---
 datashape/coretypes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index c38ad01..cfe632d 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -196,6 +196,7 @@ class Ellipsis(Mono):
         A... * float32   # float32 array w/ any number of dimensions,
                         # associated with type variable A
     """
+    cls = DIMENSION
     __slots__ = 'typevar',
 
     def __init__(self, typevar=None):
@@ -211,6 +212,7 @@ class Ellipsis(Mono):
 class Null(Unit):
 
     """The null datashape."""
+    cls = MEASURE
     __slots__ = ()
 
 
@@ -555,6 +557,7 @@ class DataShape(Mono):
     --------
     datashape.dshape
     """
+    cls = MEASURE
     composite = False
 
     def __init__(self, *parameters, **kwds):
@@ -741,6 +744,7 @@ class Option(Mono):
     Measure types which may or may not hold data. Makes no
     indication of how this is implemented in memory.
     """
+    cls = MEASURE
     __slots__ = 'ty',
 
     def __init__(self, ds):
@@ -905,6 +909,8 @@ class TypeVar(Unit):
 class Function(Mono):
     """Function signature type
     """
+    cls = MEASURE
+
     @property
     def restype(self):
         return self.parameters[-1]
@@ -920,6 +926,7 @@ class Function(Mono):
 
 
 class Map(Mono):
+    cls = MEASURE
     __slots__ = 'key', 'value'
 
     def __init__(self, key, value):
-- 
2.43.0


From 55a0fce73162e51db308ad7b299960c1340ff435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 17/72] fix: refuse a bare dimension inside an option, map or
 record

---
 datashape/coretypes.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index cfe632d..db7d564 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -748,7 +748,7 @@ class Option(Mono):
     __slots__ = 'ty',
 
     def __init__(self, ds):
-        self.ty = _launder(ds)
+        self.ty = _launder_measure(ds)
 
     @property
     def shape(self):
@@ -930,8 +930,8 @@ class Map(Mono):
     __slots__ = 'key', 'value'
 
     def __init__(self, key, value):
-        self.key = _launder(key)
-        self.value = _launder(value)
+        self.key = _launder_measure(key)
+        self.value = _launder_measure(value)
 
     def __str__(self):
         return '%s[%s, %s]' % (type(self).__name__.lower(),
@@ -967,6 +967,22 @@ def _launder(x):
     raise TypeError("Received unsupported type {}".format(x))
 
 
+def _launder_measure(x):
+    """ Clean up a type nested in another one, which cannot be a dimension
+
+    >>> _launder_measure('int32')
+    ctype("int32")
+    >>> _launder_measure(5)  # doctest: +IGNORE_EXCEPTION_DETAIL
+    Traceback (most recent call last):
+        ...
+    TypeError: Expected a datashape, not the dimension Fixed(val=5)
+    """
+    x = _launder(x)
+    if getattr(x, 'cls', MEASURE) != MEASURE:
+        raise TypeError('Expected a datashape, not the dimension %r' % x)
+    return x
+
+
 class CollectionPrinter(object):
 
     def __repr__(self):
@@ -1078,7 +1094,7 @@ class Record(with_metaclass(RecordMeta, CollectionPrinter, Mono)):
             str(name) if not isinstance(name, _strtypes) else name
             for name, _ in fields
         ])
-        types = [_launder(v) for _, v in fields]
+        types = [_launder_measure(v) for _, v in fields]
 
         if len(set(names)) != len(names):
             for name in set(names):
-- 
2.43.0


From a08e124f56db06d98d42bc5a2b7536936ef8de0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 18/72] fix: flatten a datashape in the last position of a
 datashape

---
 datashape/coretypes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index db7d564..9db4763 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -568,6 +568,10 @@ class DataShape(Mono):
                             % parameters[0])
         if len(parameters) > 0:
             self._parameters = tuple(map(_launder, parameters))
+            if isinstance(self._parameters[-1], DataShape):
+                # flatten: 3 * (4 * int32) is 3 * 4 * int32
+                self._parameters = (self._parameters[:-1] +
+                                    self._parameters[-1].parameters)
             if getattr(self._parameters[-1], 'cls', MEASURE) != MEASURE:
                 raise TypeError(('Only a measure can appear on the'
                                  ' last position of a datashape, not %s') %
-- 
2.43.0


From 6bd705f7324eee9800c9540831da60d6b9ab9d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 19/72] fix: refuse function prototypes made of anything but
 datashapes

---
 datashape/coretypes.py         | 6 ++++++
 datashape/type_symbol_table.py | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 9db4763..0b0d22b 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -915,6 +915,12 @@ class Function(Mono):
     """
     cls = MEASURE
 
+    def __init__(self, *params):
+        super(Function, self).__init__(*[
+            DataShape(p) if not isinstance(p, DataShape) else p
+            for p in params
+        ])
+
     @property
     def restype(self):
         return self.parameters[-1]
diff --git a/datashape/type_symbol_table.py b/datashape/type_symbol_table.py
index 14f3cf6..97ac58b 100644
--- a/datashape/type_symbol_table.py
+++ b/datashape/type_symbol_table.py
@@ -32,6 +32,9 @@ def _struct(names, dshapes):
 
 def _funcproto(args, ret):
     """Simple temporary type constructor for funcproto"""
+    if not isinstance(args, (list, tuple)):
+        raise TypeError('funcproto needs a list of argument types, got %r' %
+                        (args,))
     return ct.Function(*chain(args, (ret,)))
 
 
-- 
2.43.0


From 3e24c6b5a8891bc1b4ddae6a781475d9a2e2e5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 20/72] fix: refuse a struct with unequal numbers of names and
 types

---
 datashape/type_symbol_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/type_symbol_table.py b/datashape/type_symbol_table.py
index 97ac58b..68791d7 100644
--- a/datashape/type_symbol_table.py
+++ b/datashape/type_symbol_table.py
@@ -27,6 +27,9 @@ def _complex(tp):
 
 def _struct(names, dshapes):
     """Simple temporary type constructor for struct"""
+    if len(names) != len(dshapes):
+        raise TypeError('struct needs as many names as types, got %d and %d' %
+                        (len(names), len(dshapes)))
     return ct.Record(list(zip(names, dshapes)))
 
 
-- 
2.43.0


From 113476de3382aa2e076ca889c3cce1141a0c5b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 21/72] fix: refuse a categorical type that is not a datashape

---
 datashape/coretypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 0b0d22b..46e9959 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1163,7 +1163,8 @@ class Categorical(Mono):
 
     def __init__(self, categories, type=None, ordered=False):
         self.categories = tuple(categories)
-        self.type = (type or datashape.discover(self.categories)).measure
+        self.type = DataShape(_launder(
+            type or datashape.discover(self.categories))).measure
         self.ordered = ordered
 
     def __str__(self):
-- 
2.43.0


From 39dda444df4281a116286d9e69d69405ee20c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 22/72] fix: refuse decimal parameters that are not integers

---
 datashape/coretypes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 46e9959..7cdce49 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -482,8 +482,9 @@ class Decimal(Unit):
     __slots__ = 'precision', 'scale'
 
     def __init__(self, precision, scale=0):
-        self.precision = precision
-        self.scale = scale
+        # raises TypeError for anything but an integer
+        self.precision = operator.index(precision)
+        self.scale = operator.index(scale)
 
     def __str__(self):
         return 'decimal[precision={precision}, scale={scale}]'.format(
-- 
2.43.0


From 81460369d57376ca9969a4f521e3ec3f938e3fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 23/72] fix: validate the datashapes inside records, tuples and
 units

---
 datashape/validation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datashape/validation.py b/datashape/validation.py
index 4339b40..3249353 100644
--- a/datashape/validation.py
+++ b/datashape/validation.py
@@ -21,7 +21,11 @@ def traverse(f, t):
     -------
     DataShape
     """
-    if isinstance(t, T.Mono) and not isinstance(t, T.Unit):
+    if isinstance(t, (list, tuple)):
+        # e.g. the fields of a record
+        return [traverse(f, p) for p in t]
+    if isinstance(t, T.Units) or (isinstance(t, T.Mono) and
+                                  not isinstance(t, T.Unit)):
         return f(t, [traverse(f, p) for p in t.parameters])
     return t
 
-- 
2.43.0


From 4f989aa025cafe9028f2b1bfd63252dbae697ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 24/72] fix: discover strings that look like an overly large
 timedelta

---
 datashape/discovery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 602cffa..358188f 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -180,8 +180,8 @@ def discover(s):
     for f in string_coercions:
         try:
             return discover(f(s))
-        except (ValueError, KeyError):
-            pass
+        except (ValueError, KeyError, OverflowError):
+            pass  # OverflowError for timedeltas that do not fit
 
     # don't let dateutil parse things like sunday, monday etc into dates
     if s.isalpha() or s.isspace():
-- 
2.43.0


From c8790a2ee4b46d74e50b2bb63b16f03e485e9a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 25/72] fix: discover sequences of empty sequences as such, not
 as empty tuples

---
 datashape/discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 358188f..252c526 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -204,7 +204,7 @@ def discover(seq):
     unite = do_one([unite_identical, unite_base, unite_merge_dimensions])
     # [(a, b), (a, c)]
     if (all(isinstance(item, (tuple, list)) for item in seq) and
-            len(set(map(len, seq))) == 1):
+            len(set(map(len, seq))) == 1 and any(seq)):
         columns = list(zip(*seq))
         try:
             types = [unite([discover(data) for data in column]).subshape[0]
-- 
2.43.0


From 385a1c32601e9399d30a6bffe476bef64aa6e9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 26/72] fix: unite discovered columns of records with all their
 fields, and of ragged lists

---
 datashape/discovery.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 252c526..af49e12 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -294,11 +294,14 @@ def unite_base(dshapes):
         good_dshapes = bynull[False]
     except KeyError:
         return len(dshapes) * null
+    base = None
     if all(isinstance(ds, Unit) for ds in good_dshapes):
         base = lowest_common_dshape(good_dshapes)
-    elif (all(isinstance(ds, Record) for ds in good_dshapes) and
-          ds.names == dshapes[0].names for ds in good_dshapes):
+    elif all(isinstance(ds, Record) for ds in good_dshapes):
         names = good_dshapes[0].names
+        if any(ds.names != names for ds in good_dshapes):
+            names = sorted(set(chain.from_iterable(ds.names
+                                                   for ds in good_dshapes)))
         base = Record([[name,
                         unite_base([ds.dict.get(name, null) for ds in good_dshapes]).subshape[0]]
                        for name in names])
-- 
2.43.0


From 683868b9857476d87ad095aeacf2f2e5f57dd8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 27/72] fix: discover columns whose types have no known common
 type

---
 datashape/discovery.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index af49e12..6185041 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -296,7 +296,13 @@ def unite_base(dshapes):
         return len(dshapes) * null
     base = None
     if all(isinstance(ds, Unit) for ds in good_dshapes):
-        base = lowest_common_dshape(good_dshapes)
+        if len(set(good_dshapes)) == 1:
+            base = good_dshapes[0]
+        else:
+            try:
+                base = lowest_common_dshape(good_dshapes)
+            except ValueError:  # no common dshape
+                pass
     elif all(isinstance(ds, Record) for ds in good_dshapes):
         names = good_dshapes[0].names
         if any(ds.names != names for ds in good_dshapes):
-- 
2.43.0


From 1b68fb1ed30f85461a927492c57f101efd8d411e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 28/72] fix: count float16 among the floating types

---
 datashape/typesets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index bfcec97..b74a138 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -112,7 +112,7 @@ signed = TypeSet(int8, int16, int32, int64, name='signed')
 unsigned = TypeSet(uint8, uint16, uint32, uint64, name='unsigned')
 integral = TypeSet(*[x for t in zip(signed, unsigned) for x in t],
                    name='integral')
-floating = TypeSet(float32, float64, name='floating')
+floating = TypeSet(float16, float32, float64, name='floating')
 complexes = TypeSet(complex64, complex128, name='complexes')
 boolean = TypeSet(bool_, name='boolean')
 
-- 
2.43.0


From 9479ec8669b24e6875434603ad9db863154c5021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 29/72] fix: collect nothing from type parameters that are not
 types

---
 datashape/util/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datashape/util/__init__.py b/datashape/util/__init__.py
index 9af40a8..37820f5 100644
--- a/datashape/util/__init__.py
+++ b/datashape/util/__init__.py
@@ -108,6 +108,7 @@ def collect(pred, expr):
         return chain.from_iterable(collect(pred, typ) for typ in expr.parameters)
     if isinstance(expr, (list, tuple)):
         return chain.from_iterable(collect(pred, item) for item in expr)
+    return []
 
 
 def has_var_dim(ds):
-- 
2.43.0


From 75fa54bd6cc97d1ea0177ac3aa09293773cefad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 30/72] fix: look for variable dimensions inside options and
 tuples, and at ellipses, in isfixed

---
 datashape/predicates.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 8d99b04..8b4776f 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -100,10 +100,14 @@ def isfixed(ds):
     ds = dshape(ds)
     if isinstance(ds[0], TypeVar):
         return None  # don't know
-    if isinstance(ds[0], Var):
+    if isinstance(ds[0], (Var, Ellipsis)):
         return False
+    if isinstance(ds[0], Option):
+        return isfixed(ds[0].ty)
     if isinstance(ds[0], Record):
         return all(map(isfixed, ds[0].types))
+    if isinstance(ds[0], Tuple):
+        return all(map(isfixed, ds[0].dshapes))
     if len(ds) > 1:
         return isfixed(ds.subarray(1))
     return True
-- 
2.43.0


From ade6b617340f5a8a9719f876e0824be093568e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 31/72] fix: a datetime with a timezone is datelike

---
 datashape/predicates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 8b4776f..895d32f 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -3,7 +3,7 @@ import numpy as np
 from .util import collect, dshape
 from .internal_utils import remove
 from .coretypes import (DataShape, Fixed, Var, Ellipsis, Record, Tuple, Unit,
-                        date_, datetime_, TypeVar, to_numpy_dtype, Map,
+                        Date, DateTime, TypeVar, to_numpy_dtype, Map,
                         Option, Categorical)
 from .typesets import floating, boolean
 
@@ -210,4 +210,4 @@ def isdatelike(ds):
     True
     """
     ds = launder(ds)
-    return ds == date_ or ds == datetime_
+    return isinstance(ds, (Date, DateTime))
-- 
2.43.0


From e60065a4802c2ccd2c2e44122eedce435199248a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 32/72] fix: do not build a NumPy dtype of a record to see that
 it is not numeric

---
 datashape/predicates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 895d32f..2f06ac9 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -155,13 +155,15 @@ def isnumeric(ds):
     False
     """
     ds = launder(ds)
+    if not isinstance(ds, Unit):
+        return False
 
     try:
         npdtype = to_numpy_dtype(ds)
     except TypeError:
         return False
     else:
-        return isinstance(ds, Unit) and np.issubdtype(npdtype, np.number)
+        return np.issubdtype(npdtype, np.number)
 
 
 def launder(ds):
-- 
2.43.0


From 911520d29c4a4d890898ca67048e975c082e4c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 33/72] fix: see the option in promoted datashapes such as
 dshape('?int32')

---
 datashape/promote.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datashape/promote.py b/datashape/promote.py
index 798aba7..87b50da 100644
--- a/datashape/promote.py
+++ b/datashape/promote.py
@@ -41,6 +41,7 @@ def promote(lhs, rhs, promote_option=True):
     """
     if lhs == rhs:
         return lhs
+    lhs, rhs = lhs.measure, rhs.measure
     left, right = getattr(lhs, 'ty', lhs), getattr(rhs, 'ty', rhs)
     if left == right == datashape.string:
         # Special case string promotion, since numpy promotes to `object`.
@@ -73,6 +74,6 @@ def optionify(lhs, rhs, dshape):
     """
     if hasattr(dshape.measure, 'ty'):
         return dshape
-    if hasattr(lhs, 'ty') or hasattr(rhs, 'ty'):
+    if hasattr(lhs.measure, 'ty') or hasattr(rhs.measure, 'ty'):
         return datashape.Option(dshape)
     return dshape
-- 
2.43.0


From ec67887fd70a1f09597e0f751d355a2a40d74a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 34/72] fix: give a sliced datashape the size the slice selects

---
 datashape/coretypes.py | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 7cdce49..4a15ee1 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -11,8 +11,6 @@ import sys
 import ctypes
 import operator
 
-from math import ceil
-
 import datashape
 
 import numpy as np
@@ -698,27 +696,21 @@ class DataShape(Mono):
             return len(index) * self.subarray(1)
         if isinstance(index, slice):
             if isinstance(self[0], Fixed):
-                n = int(self[0])
-                start = index.start or 0
-                stop = index.stop or n
-                if start < 0:
-                    start = n + start
-                if stop < 0:
-                    stop = n + stop
-                count = stop - start
+                start, stop, step = index.indices(int(self[0]))
+                known = True
+            else:
+                # the length is not known, so only ends counted from the
+                # beginning tell how much the slice selects
+                start, stop, step = index.start, index.stop, index.step
+                step = 1 if step is None else step
+                start = 0 if start is None and step > 0 else start
+                known = all(i is not None and i >= 0 for i in (start, stop))
+
+            if known:
+                # ceil((stop - start) / step)
+                count = max(0, -((start - stop) // step))
             else:
-                start = index.start or 0
-                stop = index.stop
-                if not stop:
-                    count = -start if start < 0 else var
-                if (stop is not None and start is not None and stop >= 0 and
-                        start >= 0):
-                    count = stop - start
-                else:
-                    count = var
-
-            if count != var and index.step is not None:
-                count = int(ceil(count / index.step))
+                count = var
 
             return count * self.subarray(1)
         if isinstance(index, tuple):
-- 
2.43.0


From 293b2ad97ca0ea09fe4b38b13b63a3f9a636a964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 35/72] fix: assert_dshape_equal notices different numbers of
 dimensions

---
 datashape/util/testing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index f8fc5ea..b357950 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -74,6 +74,12 @@ def assert_dshape_equal(a, b, check_dim=True, path=None, **kwargs):
         path = ()
 
     if check_dim:
+        if len(ashape) != len(bshape):
+            raise AssertionError(
+                'numbers of dimensions do not match: %d != %d\n%s != %s\n%s' % (
+                    len(ashape), len(bshape), a, b, _fmt_path(path),
+                ),
+            )
         for n, (adim, bdim) in enumerate(zip(ashape, bshape)):
             if adim != bdim:
                 path += '.shape[%d]' % n,
-- 
2.43.0


From 77fe644323ab8f5b1129c1231b67cd6b92b7b4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 36/72] fix: assert_dshape_equal compares units without an
 AttributeError

---
 datashape/util/testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index b357950..b4da05e 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -160,8 +160,8 @@ def assert_dshape_equal(a, b, path=None, **kwargs):
         type(a).__name__.lower(), a.unit, b.unit, _fmt_path(path + ('.unit',)),
     )
 
-    path.append('.tp')
-    assert_dshape_equal(a.tp, b.tp, **kwargs)
+    path += '.tp',
+    assert_dshape_equal(a.tp, b.tp, path=path, **kwargs)
 
 
 @dispatch(String, String)
-- 
2.43.0


From 2f66bb8f28241496300252da11bed917fc2d0ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 37/72] fix: assert_dshape_equal reports strings with and
 without a length

---
 datashape/util/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index b4da05e..dcc5dd7 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -181,7 +181,7 @@ def assert_dshape_equal(a,
 
     if check_str_fixlen:
         assert a.fixlen == b.fixlen, \
-            'string fixlens do not match: %d != %d\n%s' % (
+            'string fixlens do not match: %s != %s\n%s' % (
                 a.fixlen, b.fixlen, _fmt_path(path + ('.fixlen',)),
             )
 
-- 
2.43.0


From 2171a23f088e1e550ff3fc9403d80204d2440b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 38/72] fix: a sequence of the wrong length is not a valid
 record

---
 datashape/user.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/user.py b/datashape/user.py
index c6b42be..300bfd5 100644
--- a/datashape/user.py
+++ b/datashape/user.py
@@ -45,8 +45,8 @@ def validate(schema, d):
 
 @dispatch(Record, (tuple, list))
 def validate(schema, seq):
-    return all(validate(sch, item) for (k, sch), item
-                                    in zip(schema.parameters[0], seq))
+    return len(schema.fields) == len(seq) and all(
+        validate(sch, item) for (k, sch), item in zip(schema.fields, seq))
 
 
 @dispatch(str, object)
-- 
2.43.0


From 5d69f82c3cabe9779a8b22aac7aa58a0bc69e97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 39/72] fix: refuse a categorical whose ordered parameter is
 not a boolean

---
 datashape/coretypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 4a15ee1..166edfc 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1158,7 +1158,10 @@ class Categorical(Mono):
         self.categories = tuple(categories)
         self.type = DataShape(_launder(
             type or datashape.discover(self.categories))).measure
-        self.ordered = ordered
+        if not isinstance(ordered, (bool, np.bool_)):
+            raise TypeError('ordered parameter to categorical datashape must '
+                            'be a boolean')
+        self.ordered = bool(ordered)
 
     def __str__(self):
         return '%s[%s, type=%s, ordered=%s]' % (
-- 
2.43.0


From d4a401b40460de2e0479ec7b5d5f060a3052dee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 40/72] fix: discover text with a number of too many digits
 before a time unit

---
 datashape/discovery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 6185041..4d14c30 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -189,7 +189,9 @@ def discover(s):
 
     try:
         d = dateparse(s)
-    except (ValueError, OverflowError):  # OverflowError for stuff like 'INF...'
+    except (ValueError, ArithmeticError):
+        # OverflowError for stuff like 'INF...', decimal.InvalidOperation for
+        # numbers with too many digits
         pass
     else:
         return date_ if is_zero_time(d.time()) else datetime_
-- 
2.43.0


From 105cb9f18e0d92a8b2a21566256affb209e14196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 41/72] fix: convert dtypes whose fields have titles

---
 datashape/coretypes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 166edfc..f14b3c8 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1392,9 +1392,10 @@ def from_numpy(shape, dt):
     elif dtype.kind == 'U':
         measure = String(dtype.itemsize // 4, 'U32')
     elif dtype.fields:
-        fields = [(name, dtype.fields[name]) for name in dtype.names]
+        # ignore the byte offset and, if there is one, the title of the field
+        fields = [(name, dtype.fields[name][0]) for name in dtype.names]
         rec = [(name, from_numpy(t.shape, t.base))  # recurse into nested dtype
-               for name, (t, _) in fields]  # _ is the byte offset: ignore it
+               for name, t in fields]
         measure = Record(rec)
     else:
         measure = CType.from_numpy_dtype(dtype)
-- 
2.43.0


From a91dbfecff281374e51c5875f06c8addf54de49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:58 +0000
Subject: [PATCH 42/72] fix: discovering nested lists took exponential time

Lists are looked at by column and, where their columns do not unite, by
row.  What is in them was discovered for both, so the work doubled with
every level of nesting.
---
 datashape/discovery.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 4d14c30..b56b1cb 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -1,10 +1,12 @@
 from __future__ import print_function, division, absolute_import
 
 from datetime import datetime, date, time, timedelta
+from functools import wraps
 from itertools import chain
 import re
 import sys
 from textwrap import dedent
+import threading
 from warnings import warn
 
 from dateutil.parser import parse as dateparse
@@ -23,6 +25,31 @@ from .util import subclasses
 
 __all__ = ['discover']
 
+_underway = threading.local()
+
+
+def discover_once(f):
+    """ Have a sequence discovered once while the one around it is discovered
+
+    Sequences are looked at by column and then, if that leads nowhere, by row.
+    Without memory this takes twice the work for every level of nesting.
+    """
+    @wraps(f)
+    def discover(seq):
+        outermost = not hasattr(_underway, 'known')
+        if outermost:
+            _underway.known = {}
+        try:
+            known = _underway.known
+            if id(seq) not in known:
+                # Keep the sequence, too, lest its id be used again
+                known[id(seq)] = seq, f(seq)
+            return known[id(seq)][1]
+        finally:
+            if outermost:
+                del _underway.known
+    return discover
+
 
 @dispatch(object)
 def discover(obj, **kwargs):
@@ -200,6 +227,7 @@ def discover(s):
 
 
 @dispatch((tuple, list, set, frozenset))
+@discover_once
 def discover(seq):
     if not seq:
         return var * string
-- 
2.43.0


From 742f74a8ce159d7c2696f5ec308df1baa615559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:06 +0000
Subject: [PATCH 43/72] fix: repr of an unnamed TypeSet was in a different
 order in every process

---
 datashape/typesets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index b74a138..d9beb92 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -7,6 +7,7 @@ from itertools import chain
 from .coretypes import (Unit, int8, int16, int32, int64, uint8, uint16, uint32,
                         uint64, float16, float32, float64, complex64,
                         complex128, bool_, Decimal, TimeDelta, Option)
+from .py2help import OrderedDict
 
 
 __all__ = ['TypeSet', 'matches_typeset', 'signed', 'unsigned', 'integral',
@@ -48,8 +49,9 @@ class TypeSet(Unit):
     def __repr__(self):
         if self.name:
             return '{%s}' % (self.name,)
-        return "%s(%s, name=%s)" % (self.__class__.__name__, self._set,
-                                    self.name)
+        types = ', '.join(map(repr, OrderedDict.fromkeys(self._order)))
+        return "%s({%s}, name=%s)" % (self.__class__.__name__, types,
+                                      self.name)
 
     def __or__(self, other):
         return TypeSet(*chain(self, other))
-- 
2.43.0


From 4b9b1e38f0392ecbe7bd524d5628f5ca650026f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:08 +0000
Subject: [PATCH 44/72] fix: a dtype of length 0 in the symbol table was not
 found by the parser

---
 datashape/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/parser.py b/datashape/parser.py
index 493c2a9..af25420 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -172,7 +172,7 @@ class DataShapeParser(object):
             self.pos = saved_pos
         # Try dtype
         dtype = self.parse_dtype()
-        if dtype:
+        if dtype is not None:
             return coretypes.DataShape(dtype)
         else:
             return None
-- 
2.43.0


From cd18fb0e57818a3f58800142e990a0131770f36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:29 +0000
Subject: [PATCH 45/72] fix: maxtype of a record raised KeyError, and an empty
 TypeSet matched anything

---
 datashape/typesets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index d9beb92..856d355 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -75,6 +75,10 @@ def matches_typeset(types, signature):
     """
     if types in signature:
         return True
+    if isinstance(signature, TypeSet) and not isinstance(types, (tuple, list,
+                                                                 TypeSet)):
+        # a single type that is not a member
+        return False
     match = True
     for a, b in zip(types, signature):
         check = isinstance(b, TypeSet)
-- 
2.43.0


From cfb27aee75db10e1a4c6ac67a6631614f81d7501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:30 +0000
Subject: [PATCH 46/72] fix: matches_typeset ignored that there were too few or
 too many types

---
 datashape/typesets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index 856d355..e78cdc9 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -79,6 +79,8 @@ def matches_typeset(types, signature):
                                                                  TypeSet)):
         # a single type that is not a member
         return False
+    if isinstance(types, (tuple, list)) and len(types) != len(signature):
+        return False
     match = True
     for a, b in zip(types, signature):
         check = isinstance(b, TypeSet)
-- 
2.43.0


From c0befcdb8169ce3f3a4b858518bf5d5048643632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:49 +0000
Subject: [PATCH 47/72] fix: assert_dshape_equal ignored its flags inside maps
 and categoricals

---
 datashape/util/testing.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index dcc5dd7..ef52b3d 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -2,9 +2,11 @@ from abc import ABCMeta
 
 from ..py2help import with_metaclass
 from ..coretypes import (
+    Categorical,
     DataShape,
     DateTime,
     Function,
+    Map,
     Option,
     Record,
     String,
@@ -267,3 +269,29 @@ def assert_dshape_equal(a, b, path=None, **kwargs):
         path=path + ('.restype',),
         **kwargs
     )
+
+
+@dispatch(Map, Map)
+def assert_dshape_equal(a, b, path=None, **kwargs):
+    if path is None:
+        path = ()
+    for slot in 'key', 'value':
+        assert_dshape_equal(
+            getattr(a, slot),
+            getattr(b, slot),
+            path=path + ('.' + slot,),
+            **kwargs
+        )
+
+
+@dispatch(Categorical, Categorical)
+def assert_dshape_equal(a, b, path=None, **kwargs):
+    if path is None:
+        path = ()
+    for slot in 'categories', 'ordered':
+        assert getattr(a, slot) == getattr(b, slot), \
+            'categorical %s do not match: %r != %r\n%s' % (
+                slot, getattr(a, slot), getattr(b, slot),
+                _fmt_path(path + ('.' + slot,)),
+            )
+    assert_dshape_equal(a.type, b.type, path=path + ('.type',), **kwargs)
-- 
2.43.0


From 95814d54337f765aa0b43e3e8e8a24be488085f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:15 +0000
Subject: [PATCH 48/72] fix: assert_dshape_equal(check_dim=False) failed for
 dimensions on one field only

---
 datashape/util/testing.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index ef52b3d..effa8ec 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -2,11 +2,13 @@ from abc import ABCMeta
 
 from ..py2help import with_metaclass
 from ..coretypes import (
+    MEASURE,
     Categorical,
     DataShape,
     DateTime,
     Function,
     Map,
+    Mono,
     Option,
     Record,
     String,
@@ -107,6 +109,21 @@ def assert_dshape_equal(a, b, check_dim=True, path=None, **kwargs):
     )
 
 
+@dispatch(DataShape, Mono)
+def assert_dshape_equal(a, b, path=None, **kwargs):
+    # fields and options without dimensions are not put into a DataShape
+    if getattr(b, 'cls', MEASURE) != MEASURE:
+        return _base_case(a, b, path=path)
+    assert_dshape_equal(a, DataShape(b), path=path, **kwargs)
+
+
+@dispatch(Mono, DataShape)
+def assert_dshape_equal(a, b, path=None, **kwargs):
+    if getattr(a, 'cls', MEASURE) != MEASURE:
+        return _base_case(a, b, path=path)
+    assert_dshape_equal(DataShape(a), b, path=path, **kwargs)
+
+
 class Slotted(with_metaclass(ABCMeta)):
     @classmethod
     def __subclasshook__(cls, subcls):
-- 
2.43.0


From 501320731d4264fcc8cabb19586a6296777172f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:54 +0000
Subject: [PATCH 49/72] fix: a slice of a variable dimension with step zero was
 not refused

---
 datashape/coretypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index f14b3c8..c7ab342 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -703,6 +703,8 @@ class DataShape(Mono):
                 # beginning tell how much the slice selects
                 start, stop, step = index.start, index.stop, index.step
                 step = 1 if step is None else step
+                if step == 0:
+                    raise ValueError('slice step cannot be zero')
                 start = 0 if start is None and step > 0 else start
                 known = all(i is not None and i >= 0 for i in (start, stop))
 
-- 
2.43.0


From 35a4cb21bbecffd46d75781de9ba48ef7aa27ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:34 +0000
Subject: [PATCH 50/72] fix: lists of names or of lists were taken for indices
 of a dimension

---
 datashape/coretypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index c7ab342..2a5f120 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -692,7 +692,8 @@ class DataShape(Mono):
         if isinstance(self[0], Record) and isinstance(index, slice):
             rec = self[0]
             return DataShape(Record(rec.parameters[0][index]))
-        if isinstance(index, list) and isdimension(self[0]):
+        if (isinstance(index, list) and isdimension(self[0]) and
+                all(hasattr(i, '__index__') for i in index)):
             return len(index) * self.subarray(1)
         if isinstance(index, slice):
             if isinstance(self[0], Fixed):
-- 
2.43.0


From 0f916780dbb32723578361814d07865a60a0d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:59 +0000
Subject: [PATCH 51/72] fix: strings of negative length were accepted

---
 datashape/coretypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 2a5f120..06d546a 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -402,6 +402,8 @@ class String(Unit):
         if fixlen is not None:
             # raises TypeError for anything but an integer
             fixlen = operator.index(fixlen)
+            if fixlen < 0:
+                raise ValueError('The length of a string must not be negative')
 
         encoding = encoding or 'U8'
         if isinstance(encoding, str):
-- 
2.43.0


From 743169cec709ba7c701371f5b2d742d688db55dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:01 +0000
Subject: [PATCH 52/72] fix: strings of length zero became objects in NumPy

---
 datashape/coretypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 06d546a..588360d 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -443,7 +443,7 @@ class String(Unit):
         >>> String(30, 'A').to_numpy_dtype()
         dtype('S30')
         """
-        if self.fixlen:
+        if self.fixlen is not None:
             if self.encoding == 'A':
                 return np.dtype('S%d' % self.fixlen)
             else:
-- 
2.43.0


From bd4bef91a72a3f2d89437db9cec1bf1b36f21d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:03 +0000
Subject: [PATCH 53/72] fix: iscollection of a bare record raised KeyError

---
 datashape/predicates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 2f06ac9..f619ced 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -137,7 +137,7 @@ def iscollection(ds):
     >>> iscollection('int32')
     False
     """
-    if isinstance(ds, str):
+    if isinstance(ds, (str, Record)):
         ds = dshape(ds)
     return isdimension(ds[0])
 
-- 
2.43.0


From 9937f38d3ced8a6ad986cdb9e81dc45aad5bebc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:04 +0000
Subject: [PATCH 54/72] fix: has_var_dim and has_ellipsis were False for any
 text

---
 datashape/util/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datashape/util/__init__.py b/datashape/util/__init__.py
index 37820f5..99fa8ba 100644
--- a/datashape/util/__init__.py
+++ b/datashape/util/__init__.py
@@ -121,6 +121,8 @@ def has_var_dim(ds):
     >>> has_var_dim(dshape('var * 2 * int32'))
     True
     """
+    if isinstance(ds, py2help._strtypes):
+        ds = dshape(ds)
     return has((coretypes.Ellipsis, coretypes.Var), ds)
 
 
@@ -144,4 +146,6 @@ def has_ellipsis(ds):
     >>> has_ellipsis(dshape('... * int'))
     True
     """
+    if isinstance(ds, py2help._strtypes):
+        ds = dshape(ds)
     return has(coretypes.Ellipsis, ds)
-- 
2.43.0


From 17ea1c48987b62dcd2c1c3a2cf079716a7b686a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:06 +0000
Subject: [PATCH 55/72] fix: isnumeric was False for wide decimals

---
 datashape/predicates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index f619ced..000bd66 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -3,7 +3,7 @@ import numpy as np
 from .util import collect, dshape
 from .internal_utils import remove
 from .coretypes import (DataShape, Fixed, Var, Ellipsis, Record, Tuple, Unit,
-                        Date, DateTime, TypeVar, to_numpy_dtype, Map,
+                        Date, DateTime, Decimal, TypeVar, to_numpy_dtype, Map,
                         Option, Categorical)
 from .typesets import floating, boolean
 
@@ -157,6 +157,8 @@ def isnumeric(ds):
     ds = launder(ds)
     if not isinstance(ds, Unit):
         return False
+    if isinstance(ds, Decimal):
+        return True
 
     try:
         npdtype = to_numpy_dtype(ds)
-- 
2.43.0


From 800e9c8fc67bbaf797d0878e89965bb873f62620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:03 +0000
Subject: [PATCH 56/72] fix: dimensions of record fields were lost in NumPy
 dtypes

---
 datashape/coretypes.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 588360d..dd7367b 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1131,7 +1131,7 @@ class Record(with_metaclass(RecordMeta, CollectionPrinter, Mono)):
         """
         To Numpy record dtype.
         """
-        return np.dtype([(str(name), to_numpy_dtype(typ))
+        return np.dtype([_numpy_field(str(name), typ)
                          for name, typ in self.fields])
 
     def __getitem__(self, key):
@@ -1211,7 +1211,7 @@ class Tuple(CollectionPrinter, Mono):
         """
         To Numpy record dtype.
         """
-        return np.dtype([('f%d' % i, to_numpy_dtype(typ))
+        return np.dtype([_numpy_field('f%d' % i, typ)
                          for i, typ in enumerate(self.parameters[0])])
 
 
@@ -1345,6 +1345,18 @@ def to_numpy_dtype(ds):
     return to_numpy(ds.measure)[1]
 
 
+def _numpy_field(name, ds):
+    """ A field of a NumPy record dtype, which may be a sub-array """
+    shape = to_numpy(ds)[0]
+    dtype = to_numpy_dtype(ds)
+    if not shape:
+        return name, dtype
+    try:
+        return name, np.dtype((dtype, shape))
+    except ValueError:  # a negative (not known) or a very large dimension
+        raise TypeError('DataShape %s is not NumPy-compatible' % ds)
+
+
 def to_numpy(ds):
     """
     Downcast a datashape object into a Numpy (shape, dtype) tuple if
-- 
2.43.0


From 20c5ca50d0f094bf7f802c15bc0c8dc839dcf960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:04 +0000
Subject: [PATCH 57/72] fix: iscollection was False for a dimension that is a
 type variable

---
 datashape/predicates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 000bd66..358263c 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -139,7 +139,7 @@ def iscollection(ds):
     """
     if isinstance(ds, (str, Record)):
         ds = dshape(ds)
-    return isdimension(ds[0])
+    return len(ds) > 1 or isdimension(ds[0])
 
 
 def isnumeric(ds):
-- 
2.43.0


From 62af889ad5b1318759321039fc57e033ca403ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:36 +0000
Subject: [PATCH 58/72] fix: ishomogeneous took type variables as dimensions
 for measures

---
 datashape/predicates.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 358263c..8e028cd 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -1,7 +1,6 @@
 import numpy as np
 
 from .util import collect, dshape
-from .internal_utils import remove
 from .coretypes import (DataShape, Fixed, Var, Ellipsis, Record, Tuple, Unit,
                         Date, DateTime, Decimal, TypeVar, to_numpy_dtype, Map,
                         Option, Categorical)
@@ -76,7 +75,21 @@ def ishomogeneous(ds):
     False
     """
     ds = dshape(ds)
-    return len(set(remove(isdimension, collect(isscalar, ds)))) == 1
+    return len(set(_scalars(ds))) == 1
+
+
+def _scalars(expr):
+    """ Scalar types in an expression, whatever their dimensions """
+    if isinstance(expr, DataShape):
+        expr = expr.measure
+    if isscalar(expr):
+        return [expr]
+    return [scalar for ds in collect(_isdatashape, expr)
+            for scalar in _scalars(ds)]
+
+
+def _isdatashape(ds):
+    return isinstance(ds, DataShape) or isscalar(ds)
 
 
 def _dimensions(ds):
-- 
2.43.0


From 3d052694085569f4df4daeb9758277818d93e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:53 +0000
Subject: [PATCH 59/72] fix: any false value was taken for the default string
 encoding

---
 datashape/coretypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index dd7367b..a63708d 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -405,7 +405,8 @@ class String(Unit):
             if fixlen < 0:
                 raise ValueError('The length of a string must not be negative')
 
-        encoding = encoding or 'U8'
+        if encoding is None:
+            encoding = 'U8'
         if isinstance(encoding, str):
             encoding = unicode(encoding)
         try:
-- 
2.43.0


From ad7771b5c9bdb00f8665b992397d8fdbd4dc4f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:07 +0000
Subject: [PATCH 60/72] fix: any false value was taken for no category type

---
 datashape/coretypes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index a63708d..e67ab97 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1162,8 +1162,9 @@ class Categorical(Mono):
 
     def __init__(self, categories, type=None, ordered=False):
         self.categories = tuple(categories)
-        self.type = DataShape(_launder(
-            type or datashape.discover(self.categories))).measure
+        if type is None:
+            type = datashape.discover(self.categories)
+        self.type = DataShape(_launder(type)).measure
         if not isinstance(ordered, (bool, np.bool_)):
             raise TypeError('ordered parameter to categorical datashape must '
                             'be a boolean')
-- 
2.43.0


From 5eea1dabb63382d12d8b0546e1e2ed370909210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:28 +0000
Subject: [PATCH 61/72] fix: converting nested records to NumPy took
 exponential time

---
 datashape/coretypes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index e67ab97..f96817a 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1349,8 +1349,7 @@ def to_numpy_dtype(ds):
 
 def _numpy_field(name, ds):
     """ A field of a NumPy record dtype, which may be a sub-array """
-    shape = to_numpy(ds)[0]
-    dtype = to_numpy_dtype(ds)
+    shape, dtype = to_numpy(ds)
     if not shape:
         return name, dtype
     try:
-- 
2.43.0


From c6710c70809f4aa4ab14c8500e8e4b36b5bc1c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:25 +0000
Subject: [PATCH 62/72] fix: a keyword argument of a type constructor may be
 named like a type

---
 datashape/parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index af25420..07c3ad5 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -335,6 +335,14 @@ class DataShapeParser(object):
         args = []
         arg = True
         while arg is not None:
+            # A name before a "=" is a keyword, even if it also names a type
+            if self.tok.id == lexer.NAME_LOWER:
+                saved_pos = self.pos
+                self.advance_tok()
+                keyword = self.tok.id == lexer.EQUAL
+                self.pos = saved_pos
+                if keyword:
+                    break
             # Parse the type_arg
             arg = self.parse_type_arg()
             if arg is not None:
-- 
2.43.0


From dbc2a87097922237ec2096e2b468db1051d57b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:22 +0000
Subject: [PATCH 63/72] fix: whether a text is a date depended on the day it
 was asked

---
 datashape/discovery.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index b56b1cb..804df44 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -215,7 +215,8 @@ def discover(s):
         return string
 
     try:
-        d = dateparse(s)
+        # not the day of today, which may not be in the month of the text
+        d = dateparse(s, default=datetime(2000, 1, 1))
     except (ValueError, ArithmeticError):
         # OverflowError for stuff like 'INF...', decimal.InvalidOperation for
         # numbers with too many digits
-- 
2.43.0


From f82adec28a44811d4aefb86800050ff68e0c3aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:12 +0000
Subject: [PATCH 64/72] fix: setup.py could not tell the version on Python 3.12

---
 versioneer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/versioneer.py b/versioneer.py
index c010f63..85b6723 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -396,9 +396,14 @@ def get_config_from_root(root):
     # configparser.NoOptionError (if it lacks "VCS="). See the docstring at
     # the top of versioneer.py for instructions on writing your setup.cfg .
     setup_cfg = os.path.join(root, "setup.cfg")
-    parser = configparser.SafeConfigParser()
+    # (what Python 3.12 has removed has other names since Python 3.2)
+    parser = getattr(configparser, "SafeConfigParser",
+                     configparser.ConfigParser)()
     with open(setup_cfg, "r") as f:
-        parser.readfp(f)
+        if hasattr(parser, "read_file"):
+            parser.read_file(f)
+        else:
+            parser.readfp(f)
     VCS = parser.get("versioneer", "VCS")  # mandatory
 
     def get(parser, name):
-- 
2.43.0


From 20197da45f1c19170f184d694d203f7f78c92d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:36 +0000
Subject: [PATCH 65/72] fix: importing datashape warned of an invalid escape
 sequence

---
 datashape/discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 804df44..77da17f 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -185,7 +185,7 @@ def deltaparse(x):
         ...
     ValueError: floating point timedelta value not supported
     """
-    value, unit = re.split('\s+', x.strip())
+    value, unit = re.split(r'\s+', x.strip())
     value = float(value)
     if not value.is_integer():
         raise ValueError('floating point timedelta values not supported')
-- 
2.43.0


From 36620ca0c8f4eb9b57fc6ed850d6577953eae16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:37 +0000
Subject: [PATCH 66/72] fix: of a keyword argument given twice in a text the
 first was dropped

---
 datashape/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index 07c3ad5..ad42579 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -364,6 +364,9 @@ class DataShapeParser(object):
         if kwargs is None and args:
             # There was a comma after the last argument
             self.raise_error('Expected another type constructor argument')
+        names = [name for name, arg in kwargs or ()]
+        if len(set(names)) != len(names):
+            self.raise_error('Keyword argument given more than once')
         return (args, dict(kwargs) if kwargs else {})
 
     def parse_type_arg(self):
-- 
2.43.0


From a62a5a098c44154308d1f738196442e665302bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:39 +0000
Subject: [PATCH 67/72] fix: dshape() took a bare ellipsis for a datashape

---
 datashape/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/util/__init__.py b/datashape/util/__init__.py
index 99fa8ba..29ff9ba 100644
--- a/datashape/util/__init__.py
+++ b/datashape/util/__init__.py
@@ -47,7 +47,7 @@ def dshape(o):
                         coretypes.Unit)):
         ds = coretypes.DataShape(o)
     elif isinstance(o, coretypes.Mono):
-        ds = o
+        ds = coretypes._launder_measure(o)
     elif isinstance(o, (list, tuple)):
         ds = coretypes.DataShape(*o)
     else:
-- 
2.43.0


From 31f35e6b208e55fbe17e0741b90ad324fe33bb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:40 +0000
Subject: [PATCH 68/72] fix: type variables, ellipses and functions were made
 of nonsense

---
 datashape/coretypes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index f96817a..d82a236 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -198,6 +198,9 @@ class Ellipsis(Mono):
     __slots__ = 'typevar',
 
     def __init__(self, typevar=None):
+        if typevar is not None and not isinstance(typevar, TypeVar):
+            raise TypeError('typevar parameter to ellipsis datashape must be a '
+                            'type variable')
         self.typevar = typevar
 
     def __str__(self):
@@ -900,6 +903,8 @@ class TypeVar(Unit):
     __slots__ = 'symbol',
 
     def __init__(self, symbol):
+        if not isidentifier(symbol):
+            raise ValueError('TypeVar symbol %r is not a name' % (symbol,))
         if not symbol[0].isupper():
             raise ValueError(('TypeVar symbol %r does not '
                               'begin with a capital') % symbol)
@@ -915,6 +920,8 @@ class Function(Mono):
     cls = MEASURE
 
     def __init__(self, *params):
+        if not params:
+            raise TypeError('a function datashape needs a result type')
         super(Function, self).__init__(*[
             DataShape(p) if not isinstance(p, DataShape) else p
             for p in params
-- 
2.43.0


From 7ee1a91d2867a661ae35b682bf55f0c2e3ea74e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:42 +0000
Subject: [PATCH 69/72] fix: time units with several plural endings were
 accepted ('mss' as minutes)

---
 datashape/coretypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index d82a236..6bc41d5 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -307,8 +307,8 @@ def normalize_time_unit(s):
         return s
     if s in _unit_aliases:
         return _unit_aliases[s]
-    if s.endswith('s') and len(s) > 2:
-        return normalize_time_unit(s.rstrip('s'))
+    if s.endswith('s') and s[:-1] in _unit_aliases:
+        return _unit_aliases[s[:-1]]
 
     raise ValueError("Do not understand time unit %s" % s)
 
-- 
2.43.0


From 44b4498d0d31a3de7741f628e6e89d099c0098fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:44 +0000
Subject: [PATCH 70/72] fix: datashapes were accepted as categories

---
 datashape/coretypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 6bc41d5..19e87b4 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1169,6 +1169,9 @@ class Categorical(Mono):
 
     def __init__(self, categories, type=None, ordered=False):
         self.categories = tuple(categories)
+        if any(isinstance(cat, Mono) for cat in self.categories):
+            raise TypeError('categories of categorical datashape must be '
+                            'values, not datashapes')
         if type is None:
             type = datashape.discover(self.categories)
         self.type = DataShape(_launder(type)).measure
-- 
2.43.0


From 10a22f747e63d2234f819c5dd8c2dda18831f98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:46 +0000
Subject: [PATCH 71/72] fix: to_numpy gave wrong dtypes for very long strings
 and unnamed fields

---
 datashape/coretypes.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 19e87b4..3d544ec 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -449,9 +449,13 @@ class String(Unit):
         """
         if self.fixlen is not None:
             if self.encoding == 'A':
-                return np.dtype('S%d' % self.fixlen)
+                dtype, width = np.dtype('S%d' % self.fixlen), 1
             else:
-                return np.dtype('U%d' % self.fixlen)
+                dtype, width = np.dtype('U%d' % self.fixlen), 4
+            if dtype.itemsize != self.fixlen * width:
+                # more than NumPy can count
+                raise TypeError('DataShape %s is not NumPy-compatible' % self)
+            return dtype
 
         from .py2help import unicode
         # Create a dtype with metadata indicating it's
@@ -1139,8 +1143,8 @@ class Record(with_metaclass(RecordMeta, CollectionPrinter, Mono)):
         """
         To Numpy record dtype.
         """
-        return np.dtype([_numpy_field(str(name), typ)
-                         for name, typ in self.fields])
+        return _numpy_record(self, [(str(name), typ)
+                                    for name, typ in self.fields])
 
     def __getitem__(self, key):
         return self.dict[key]
@@ -1223,8 +1227,8 @@ class Tuple(CollectionPrinter, Mono):
         """
         To Numpy record dtype.
         """
-        return np.dtype([_numpy_field('f%d' % i, typ)
-                         for i, typ in enumerate(self.parameters[0])])
+        return _numpy_record(self, [('f%d' % i, typ)
+                                    for i, typ in enumerate(self.dshapes)])
 
 
 class JSON(Mono):
@@ -1357,13 +1361,25 @@ def to_numpy_dtype(ds):
     return to_numpy(ds.measure)[1]
 
 
-def _numpy_field(name, ds):
-    """ A field of a NumPy record dtype, which may be a sub-array """
+def _numpy_record(ds, fields):
+    """ A NumPy record dtype of fields, which are pairs (name, datashape) """
+    formats = [_numpy_field(typ) for _, typ in fields]
+    # A list of pairs would give a field without a name another one
+    dtype = np.dtype({'names': [name for name, _ in fields],
+                      'formats': formats})
+    if dtype.itemsize != sum(format.itemsize for format in formats):
+        # more than NumPy can count
+        raise TypeError('DataShape %s is not NumPy-compatible' % ds)
+    return dtype
+
+
+def _numpy_field(ds):
+    """ The dtype of a field of a NumPy record, which may be a sub-array """
     shape, dtype = to_numpy(ds)
     if not shape:
-        return name, dtype
+        return dtype
     try:
-        return name, np.dtype((dtype, shape))
+        return np.dtype((dtype, shape))
     except ValueError:  # a negative (not known) or a very large dimension
         raise TypeError('DataShape %s is not NumPy-compatible' % ds)
 
-- 
2.43.0


From 0a09ce0408c7c99a199fd4f28a10c3408e2674ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:25 +0000
Subject: [PATCH 72/72] fix: dshape() gave no datashape for options, tuples,
 maps and functions

---
 datashape/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/util/__init__.py b/datashape/util/__init__.py
index 29ff9ba..29ed4c3 100644
--- a/datashape/util/__init__.py
+++ b/datashape/util/__init__.py
@@ -47,7 +47,7 @@ def dshape(o):
                         coretypes.Unit)):
         ds = coretypes.DataShape(o)
     elif isinstance(o, coretypes.Mono):
-        ds = coretypes._launder_measure(o)
+        ds = coretypes.DataShape(coretypes._launder_measure(o))
     elif isinstance(o, (list, tuple)):
         ds = coretypes.DataShape(*o)
     else:
-- 
2.43.0

