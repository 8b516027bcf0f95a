_PBT = 'property-based testing (Hypothesis): '
_TRUST = ('Generated search, not proof: thousands of distinct cases per run, '
          'shrunk and replayable. Trusts the oracle described in DESIGN.md, '
          'which shares no code with the library. ')

prop('C01', 'What a datashape prints parses back to the same datashape',
     'For every well-formed datashape, parsing its printed text gives back an '
     'equal datashape with the same structure, whatever characters its field '
     'names, timezones, units and categories contain and however its parts '
     'are nested. Evaluating its repr, and parsing its pretty-printed form, '
     'give it back as well. Categoricals with more than ten categories, '
     'whose text is abbreviated, are excepted.',
     ['inputs'],
     'all well-formed datashapes built by the constructors or the parser',
     'The tests print a few hand-picked types; the interaction of names, '
     'parameters and nesting is unbounded.',
     ['datashape/coretypes.py', 'datashape/parser.py',
      'datashape/internal_utils.py'],
     [('__str__/__repr__ of every type, quoting of literals',
       'datashape/coretypes.py'), ('dshape parser', 'datashape/parser.py')],
     _PBT + 'round-trip over generated type ASTs',
     _TRUST + 'The structure is read off with a separate abstraction '
     'function, so a defect of equality cannot hide a wrong round trip.')

prop('C02', 'The parser accepts exactly the documented grammar, with its meaning',
     'A text is accepted as a datashape exactly if the documented grammar and '
     'the types named in the documentation allow it; what is accepted denotes '
     'the type the documentation assigns to it, and everything else is '
     'refused. This covers dimensions, options, records, tuples, function '
     'prototypes, type variables, ellipses and every type constructor with '
     'its positional and keyword arguments.',
     ['inputs'], 'all texts, well-formed or not',
     'The tests parse a few dozen texts; a grammar has infinitely many '
     'sentences and non-sentences.',
     ['datashape/parser.py', 'datashape/lexer.py',
      'datashape/type_symbol_table.py', 'docs/source/grammar.rst'],
     [('recursive descent parser', 'datashape/parser.py'),
      ('table of type names and constructors',
       'datashape/type_symbol_table.py')],
     _PBT + 'differential against an independent reference parser',
     _TRUST + 'The reference parser was written from the grammar document.')

prop('C03', 'Any text is parsed or refused with a documented, located error',
     'Whatever text is given to the parser, it either returns a usable '
     'datashape or raises a datashape syntax error, or TypeError or '
     'ValueError for a type that makes no sense; it never hangs and never '
     'fails in another way. A syntax error carries the text, a position '
     'within it, the matching line number, column and line, and prints them '
     'with a pointer under that column.',
     ['inputs'], 'all Unicode texts of moderate length and nesting',
     'The tests try a handful of malformed texts.',
     ['datashape/parser.py', 'datashape/lexer.py', 'datashape/error.py'],
     [('error raising with furthest position', 'datashape/parser.py'),
      ('line and column computation', 'datashape/error.py')],
     _PBT + 'grammar-aware and byte-level text fuzzing with an error oracle',
     _TRUST + 'Nesting is kept below the interpreter\'s recursion limit.')

prop('C04', 'The lexer splits text into the documented tokens at their places',
     'Splitting a text into tokens gives exactly the tokens of the documented '
     'lexical grammar, in order, each with its kind, its span in the text and '
     'its value (integers as their number, quoted strings decoded, true and '
     'false as such only as whole words); only whitespace and comments lie '
     'between them. A text that cannot be split raises a datashape syntax '
     'error at the first place where no token fits.',
     ['inputs'], 'all Unicode texts',
     'The tests lex a few strings; escapes, comments, adjacent tokens and '
     'odd characters combine without bound.',
     ['datashape/lexer.py'],
     [('token regular expressions and lex()', 'datashape/lexer.py')],
     _PBT + 'differential against an independent tokenizer',
     _TRUST + 'String literals follow the documented JSON-like rules.')

prop('C05', 'Layout and alternative spellings do not change what text means',
     'Whitespace, line breaks, comments, trailing commas, documented type '
     'aliases, either quoting style, and the constructor spellings of options, '
     'records, tuples and functions, positional or keyword arguments included, '
     'never change the datashape a text denotes. A text that is refused stays '
     'refused when only its layout is changed.',
     ['inputs'], 'all pairs of spellings of one datashape',
     'Each test uses one spelling of one type.',
     ['datashape/parser.py', 'datashape/lexer.py',
      'datashape/type_symbol_table.py'],
     [('whitespace and comment skipping', 'datashape/lexer.py'),
      ('aliases and constructors', 'datashape/type_symbol_table.py')],
     _PBT + 'metamorphic relation between spellings',
     _TRUST)

prop('C06', 'Equality is structural, and hashing agrees with it',
     'Two datashapes are equal exactly if they have the same dimensions and '
     'measure with the same parameters, field names, field order and nesting; '
     'equality is symmetric and inequality is its negation. Equal datashapes '
     'hash alike and stand for each other in sets and dictionaries; a bare '
     'measure equals the datashape without dimensions around it, and a fixed '
     'dimension equals its integer.',
     ['inputs'], 'all pairs of datashapes, measures and dimensions',
     'The tests compare a few pairs; near misses in one nested place are '
     'what matters.',
     ['datashape/coretypes.py'],
     [('__eq__/__hash__ over parameters', 'datashape/coretypes.py')],
     _PBT + 'comparison with equality of an abstract model',
     _TRUST + 'Distinct structures hashing apart is not required.')

prop('C07', 'Pickling, copying and rebuilding from parameters preserve types',
     'Pickling (with any protocol, also into another process with another '
     'hash seed, before or after hashing), copying and deep-copying a '
     'datashape give one with the same structure, equality, hash and text '
     'that works like the original. Calling the type of any part on its '
     'parameters rebuilds that part.',
     ['inputs', 'configurations'],
     'all datashapes, pickle protocols and receiving processes',
     'The tests pickle a handful of types within one process.',
     ['datashape/coretypes.py'],
     [('__getstate__/__setstate__/__reduce__, parameters',
       'datashape/coretypes.py')],
     _PBT + 'round-trip, including across processes',
     _TRUST + 'Datashapes registered under a name are not considered.')

prop('C08', 'Every way of constructing a type gives the same type',
     'A type built by its constructor with positional or keyword arguments, '
     'from text, from integers and NumPy integers for dimensions, from field '
     'pairs, lists, ordered mappings or generators for records, from the '
     'record literal syntax, by multiplying dimensions, or from nested '
     'datashapes, has the same structure, equality, hash and text. Turning a '
     'datashape into a datashape again returns it unchanged.',
     ['inputs'], 'all datashapes and all construction routes, mixed at will',
     'The tests use one route for one type at a time.',
     ['datashape/coretypes.py', 'datashape/util/__init__.py'],
     [('argument laundering in constructors', 'datashape/coretypes.py'),
      ('dshape()', 'datashape/util/__init__.py')],
     _PBT + 'differential between construction routes',
     _TRUST)

prop('C09', 'Ill-formed types are refused, however deeply they are nested',
     'A type with an ill-formed part - two ellipses among its dimensions, an '
     'ellipsis or dimension where a type belongs, a type where a dimension '
     'belongs, duplicate or non-text field names, a negative size, an unknown '
     'unit, encoding, name or parameter - is refused with a syntax, type or '
     'value error, at any depth, as text as well as through constructors. In '
     'the same place a well-formed part is accepted.',
     ['inputs'], 'all ill-formed parts at all places of all types',
     'The tests put few ill-formed parts at the top level.',
     ['datashape/coretypes.py', 'datashape/validation.py',
      'datashape/parser.py'],
     [('constructor checks', 'datashape/coretypes.py'),
      ('recursive validation', 'datashape/validation.py')],
     _PBT + 'fault seeding into generated types',
     _TRUST)

prop('C10', 'Dimensions behave like a list in front of a measure',
     'A datashape is a list of dimensions and a measure: multiplying puts '
     'dimensions in front one by one or together, its shape and measure, '
     'length, iteration, integer and slice indexing are those of that list, '
     'and removing leading dimensions leaves the rest or raises IndexError '
     '(a negative count leaves that many parts, the measure included). '
     'Concatenating datashapes adds up their fixed first dimensions if the '
     'rest is equal, and is refused otherwise.',
     ['inputs'], 'all datashapes and sequences of dimensions',
     'The tests index two or three shapes.',
     ['datashape/coretypes.py', 'datashape/util/__init__.py'],
     [('DataShape sequence protocol, __mul__, subarray',
       'datashape/coretypes.py'), ('cat_dshapes',
                                   'datashape/util/__init__.py')],
     _PBT + 'comparison with a list model',
     _TRUST)

prop('C11', 'The datashape of an indexed part is the shape of the selection',
     'Indexing a datashape of fixed and variable dimensions - with integers, '
     'slices of any start, stop and step, lists of integers, new axes, '
     'field names or positions, lists and slices of fields, and tuples of '
     'these - gives the datashape of what the same index selects from such an '
     'array: the same dimensions removed, added and resized, and the selected '
     'fields. Too many indices, unknown fields, zero steps and indices of '
     'another kind are refused.',
     ['inputs'], 'all indices into all datashapes of fixed and variable '
     'dimensions',
     'The tests try about a dozen indices.',
     ['datashape/coretypes.py'],
     [('subshape', 'datashape/coretypes.py')],
     _PBT + 'model, and differential against NumPy indexing',
     _TRUST + 'Integers beyond a fixed dimension and lists of booleans '
     'are left out.')

prop('C12', 'NumPy shapes and dtypes become datashapes and come back',
     'Every supported NumPy shape and dtype - numbers, booleans, text, bytes, '
     'dates and durations with their unit, objects, and records with nested '
     'records, sub-arrays and padding - becomes the datashape that describes '
     'it, and converting that datashape back gives the same shape and the '
     'same dtype apart from byte order and padding. Conversions that have an '
     'exact counterpart lose nothing in either direction.',
     ['inputs'], 'all supported shapes and dtypes',
     'The tests convert about twenty dtypes.',
     ['datashape/coretypes.py'],
     [('from_numpy, to_numpy, to_numpy_dtype', 'datashape/coretypes.py')],
     _PBT + 'round-trip, and an independent dtype table',
     _TRUST)

prop('C13', 'Converting to NumPy answers correctly or is refused',
     'Converting a datashape to a NumPy shape and dtype gives the dtype of '
     'the measure and the fixed dimensions, with -1 for a type variable; '
     'dimensions of the fields of records and tuples become sub-arrays. A '
     'datashape with no NumPy counterpart raises TypeError instead of giving '
     'some other shape or dtype. All routes to a NumPy dtype agree.',
     ['inputs'], 'all datashapes, convertible or not',
     'The tests convert a few convertible types and two others.',
     ['datashape/coretypes.py'],
     [('to_numpy, to_numpy_dtype', 'datashape/coretypes.py')],
     _PBT + 'comparison with an independent table',
     _TRUST)

prop('C14', 'Promotion gives the common type, in either order',
     'Promoting two scalar types gives the smallest type NumPy promotes both '
     'to, plain strings promoting to string; the result does not depend on '
     'their order, and promoting it again with either of them changes nothing. It is optional exactly if one of the '
     'two is and options are kept.',
     ['inputs'], 'all pairs of scalar types, optional or not',
     'The tests promote a few pairs.',
     ['datashape/promote.py'],
     [('promote, optionify', 'datashape/promote.py')],
     _PBT + 'exhaustive pair table and random pairs against NumPy',
     _TRUST)

prop('C15', 'Numeric type sets, super types and widest types are right',
     'Each named set of numeric types contains exactly the types its name '
     'says, in every form they can be written in; sets built from types have '
     'just those members in order, unite, compare and hash by them, and '
     'matching types to a signature of types and sets accepts exactly as many '
     'members of these. The super '
     'type of a scalar is the set it belongs to, and its widest type the '
     'largest member of that set, keeping options.',
     ['inputs'], 'all types, type sets and signatures',
     'The tests look at a few members of each set.',
     ['datashape/typesets.py', 'datashape/coretypes.py'],
     [('TypeSet, matches_typeset, supertype, maxtype',
       'datashape/typesets.py')],
     _PBT + 'exhaustive membership tables and random sets against a model',
     _TRUST)

prop('C16', 'Predicates about the structure of a datashape say what it is',
     'Whether a datashape is a scalar, a record, a collection, tabular, '
     'homogeneous, of fixed size, a dimension, has a variable dimension or an '
     'ellipsis, at any depth, follows from its structure alone. The answer is '
     'the same for the datashape and for its text, and collecting the parts '
     'that satisfy a condition gives each of them.',
     ['inputs'], 'all datashapes',
     'The tests try a few positive and negative cases of each.',
     ['datashape/predicates.py', 'datashape/util/__init__.py'],
     [('structural predicates', 'datashape/predicates.py'),
      ('collect, has_var_dim, has_ellipsis', 'datashape/util/__init__.py')],
     _PBT + 'comparison with predicates on an abstract model',
     _TRUST)

prop('C17', 'Predicates about a measure ignore dimensions and options',
     'A datashape is numeric, real, boolean or date-like exactly if its '
     'measure, or what its measure is an option of, is such a type. '
     'Dimensions, options, type parameters such as timezones, and whether '
     'the datashape is given as an object, a bare measure or text make no '
     'difference.',
     ['inputs'], 'all measures under all dimensions',
     'The tests try a few types each.',
     ['datashape/predicates.py'],
     [('measure predicates', 'datashape/predicates.py')],
     _PBT + 'exhaustive measure table and random dimensions',
     _TRUST)

prop('C18', 'The datashape of a single value is the type of that value',
     'Discovering a scalar gives its type: Python and NumPy numbers the '
     'integer, floating, complex or boolean type of their kind and width, '
     'None null, dates, times and durations theirs. Text that spells an '
     'integer, a number, a truth value, a duration, a time or a date is '
     'discovered as that type, empty text as null, and other text as string; '
     'any text whatever is discovered without an error.',
     ['inputs'], 'all scalars and all texts',
     'The tests discover a few dozen values; text has no end of edge cases.',
     ['datashape/discovery.py'],
     [('discover for scalars and text, timeparse, deltaparse',
       'datashape/discovery.py')],
     _PBT + 'comparison with an independent reading of the value',
     _TRUST + 'Trusts dateutil on which text is a date.')

prop('C19', 'Nested lists and dictionaries are discovered by documented rules',
     'Nested lists, tuples, sets and string-keyed dictionaries of scalars are '
     'discovered by exact rules: equal items make one dimension, missing '
     'items and fields make options, numbers widen to their common type, '
     'rows of different length make a variable dimension, rows of one '
     'consistent pattern make records or tuples column by column, and items '
     'with nothing in common make a tuple. The rules hold at every level of '
     'nesting.',
     ['inputs'], 'all finite nestings of lists, tuples, dictionaries, scalars',
     'The tests discover some thirty literals; rules interact with nesting.',
     ['datashape/discovery.py'],
     [('discover for sequences and mappings, unite functions',
       'datashape/discovery.py')],
     _PBT + 'comparison with an independent model of discovery',
     _TRUST)

prop('C20', 'What is discovered describes the value it was discovered from',
     'Whatever nested value a datashape was discovered from fits it: every '
     'fixed dimension is the length of the sequence there, every field of a '
     'record is in every dictionary unless it is optional, every tuple has '
     'the items of its type, every scalar can be read as its type without '
     'losing its kind, and nothing is missing where the type is not '
     'optional.',
     ['inputs'], 'all finite nestings of lists, tuples, dictionaries, scalars',
     'The tests compare a few results with literals.',
     ['datashape/discovery.py'],
     [('discover, unite functions', 'datashape/discovery.py')],
     _PBT + 'validity predicate over value and result together',
     _TRUST)

prop('C21', 'Discovery obeys laws whatever its rules',
     'Discovering a value twice, or an equal value made of other kinds of '
     'sequence, mapping or number spelled as text, gives the same datashape; '
     'the order of rows and of dictionary keys does not change it beyond the '
     'order of what is listed. A value repeated n times is discovered as n '
     'times its datashape, and a value inside a dictionary as a field of its '
     'datashape.',
     ['inputs', 'histories'],
     'all nested values and all meaning-preserving changes to them',
     'The tests never discover related values and compare.',
     ['datashape/discovery.py'],
     [('discover, unite functions', 'datashape/discovery.py')],
     _PBT + 'metamorphic relations on discovery',
     _TRUST)

prop('C22', 'NumPy arrays are discovered with their own shape and type',
     'Discovering a NumPy array, whatever its dtype, byte order, strides, '
     'memory order or being a view, gives its shape over the datashape of its '
     'dtype, record arrays their fields; object arrays of text are discovered '
     'as string and other object arrays as object. The same holds for arrays '
     'inside lists and dictionaries and for objects that only look like '
     'arrays.',
     ['inputs'], 'all supported arrays',
     'The tests discover a few contiguous arrays.',
     ['datashape/discovery.py', 'datashape/coretypes.py'],
     [('discover for arrays', 'datashape/discovery.py'),
      ('from_numpy', 'datashape/coretypes.py')],
     _PBT + 'comparison with an independent dtype table',
     _TRUST)

prop('C23', 'Validation accepts exactly the values that fit',
     'Validating a value against a datashape of fixed and variable '
     'dimensions, records and scalars says yes exactly if the value fits: '
     'fixed dimensions have the length, every item fits, records given as '
     'dictionaries or sequences have each field fitting and no length to '
     'spare, scalars have the type. Arrays fit exactly their own datashape, '
     'several datashapes fit if one does, and a datashape is a sub-schema of '
     'its equals only.',
     ['inputs'], 'all values against all such datashapes',
     'The tests validate about two dozen values.',
     ['datashape/user.py'],
     [('validate, issubschema', 'datashape/user.py')],
     _PBT + 'comparison with an independent verdict on spoilt values',
     _TRUST)

prop('C24', 'The equality assertion fails exactly for different datashapes',
     'The assertion for test suites that two datashapes are equal passes '
     'exactly if they are equal in everything its flags do not switch off '
     '(dimensions, timezones, duration units, string lengths and encodings, '
     'field order), at any depth. When it fails, the path its message names '
     'leads to parts that really differ.',
     ['inputs'], 'all pairs of datashapes and all flags',
     'The tests try one difference per flag at the top level.',
     ['datashape/util/testing.py'],
     [('assert_dshape_equal', 'datashape/util/testing.py')],
     _PBT + 'comparison with equality of relaxed models',
     _TRUST)

prop('C25', 'Pretty printing lays the same tokens out to fit the width',
     'At every width, the pretty-printed text of a datashape has the same '
     'tokens in the same order and means the same datashape; only layout '
     'differs. A record or tuple with the dimensions before it is on one line '
     'exactly if it is shorter than the width, and otherwise has one line '
     'per field, indented by two more spaces, at every level of nesting, '
     'where a nested part has the width that the field name and the '
     'dimensions before it leave. A larger width never gives more lines, and other types have one text.',
     ['inputs', 'configurations'], 'all datashapes and all widths',
     'The tests print two shapes at two widths.',
     ['datashape/coretypes.py', 'datashape/internal_utils.py'],
     [('pprint', 'datashape/coretypes.py')],
     _PBT + 'layout invariants and metamorphic relation between widths',
     _TRUST + 'Whether the quotes of a field name count is left open.')

prop('C26', 'Datashapes and predefined names never change once made',
     'Whatever is done afterwards - building, parsing, combining, comparing, '
     'indexing, printing, promoting, discovering, converting or pickling, '
     'changing lists that were passed in or given out, calls that fail, '
     'symbol tables and type sets of one\'s own - every datashape made '
     'before keeps its structure, text, hash and equality, and the predefined '
     'names keep their meaning. A name once registered is not given away '
     'again.',
     ['histories'], 'all sequences of operations of the library',
     'The tests are single operations on fresh objects.',
     ['datashape/coretypes.py', 'datashape/type_symbol_table.py',
      'datashape/typesets.py', 'datashape/parser.py'],
     [('shared singletons, hash cache, type registry',
       'datashape/coretypes.py'),
      ('symbol tables', 'datashape/type_symbol_table.py'),
      ('type set registry', 'datashape/typesets.py')],
     'stateful property-based testing (Hypothesis): invariants over histories',
     _TRUST)

prop('C27', 'Results do not depend on the process or its hash seed',
     'Texts, structures, parse results and error positions, discovered and '
     'promoted types, the order of type sets and fields, conversions, '
     'predicates and the kinds of errors are the same in every process, '
     'whatever its hash seed and whatever it computed before, and the same '
     'when asked again.',
     ['inputs', 'schedules', 'configurations'],
     'all inputs, hash seeds and preceding computations',
     'The tests run in one process with one hash seed.',
     ['datashape/coretypes.py', 'datashape/discovery.py',
      'datashape/typesets.py'],
     [('sets and dictionaries in discovery and type sets',
       'datashape/discovery.py')],
     _PBT + 'differential between processes',
     _TRUST + 'Values with sets inside are left out.')

prop('C28', 'Attributes of a type tell its parts, in canonical form',
     'The attributes of every type tell the parts it was made of: names, '
     'types, dictionary and items of records, items of tuples, arguments and '
     'results, key and value, what an option is of, sizes; a bare measure is '
     'its own measure without dimensions. Every documented spelling of a '
     'time unit or string encoding, singular, plural or short, by constructor '
     'or text, gives the one canonical parameter, and an unknown one '
     'ValueError.',
     ['inputs'], 'all types, and all spellings of units and encodings',
     'The tests try a few units and encodings, and records at top level.',
     ['datashape/coretypes.py'],
     [('normalize_time_unit, string encodings', 'datashape/coretypes.py'),
      ('accessors of Record, Function, Option', 'datashape/coretypes.py')],
     _PBT + 'comparison with a model and with tables of spellings',
     _TRUST)

prop('C29', 'Names in a text mean what the given symbol table says',
     'Parsing a text with a symbol table of one\'s own uses that table and '
     'nothing else: a name stands for the type it is mapped to, sugar is made '
     'by the constructor registered for it, a constructor is called with '
     'exactly the arguments written, by position and by name, and what the '
     'table lacks is refused with a syntax error. A table made anew has the '
     'predefined names, or none if asked for.',
     ['inputs', 'configurations'], 'all texts and all symbol tables',
     'The tests use the default table, with at most one name added.',
     ['datashape/parser.py', 'datashape/type_symbol_table.py'],
     [('symbol lookup, argument lists', 'datashape/parser.py'),
      ('TypeSymbolTable', 'datashape/type_symbol_table.py')],
     _PBT + 'metamorphic relation on tables, recorded constructor calls',
     _TRUST)

prop('C30', 'Discovery takes in subclasses and registered types only',
     'A nested value in which parts are instances of subclasses of the '
     'built-in types, or objects of classes registered with discover whose '
     'functions give the datashape of the part they replace, is discovered '
     'like the original. If any part is of a type nobody registered, '
     'discovering the whole raises NotImplementedError.',
     ['inputs'], 'all nested values and all parts of them',
     'The tests discover one or two unknown objects at the top level.',
     ['datashape/discovery.py', 'datashape/dispatch.py'],
     [('dispatch of discover', 'datashape/discovery.py')],
     _PBT + 'metamorphic substitution in nested values',
     _TRUST)

prop('C31', 'Searching a datashape finds exactly its parts of a kind',
     'Collecting the parts of a datashape that satisfy a predicate gives '
     'every such part that is not inside another one, in the order written, '
     'wherever it is: in dimensions, ellipses, fields, options, maps, '
     'functions, tuples, units and categoricals, and in lists of datashapes. '
     'Asking whether there is a part of a class agrees with that. Walking a '
     'datashape calls the given function once for every composite part, after '
     'the parts it is made of, with their results.',
     ['inputs'], 'all datashapes, nested lists of them, classes and parts',
     'The tests search three datashapes for one class.',
     ['datashape/util/__init__.py', 'datashape/validation.py'],
     [('collect, has', 'datashape/util/__init__.py'),
      ('traverse', 'datashape/validation.py')],
     _PBT + 'comparison with a search of the model',
     _TRUST)

prop('C32', 'Predefined and registered names stand for one type each',
     'Every predefined name of the library stands for the type it promises, '
     'as an attribute, in the registry of types and in a text; those named '
     'after C types have the size and alignment of these. A name can be '
     'registered once; from then on looking it up gives the very type, '
     'registering it again is a TypeError that changes nothing, and a name '
     'that was never registered is a KeyError.',
     ['inputs', 'histories'],
     'all predefined names; all histories of registering and looking up',
     'The tests use a few names and register none.',
     ['datashape/coretypes.py', 'datashape/type_symbol_table.py'],
     [('predefined types, Type.register, Type.lookup_type',
       'datashape/coretypes.py')],
     _PBT + 'exhaustive table of names; model-based histories of the registry',
     _TRUST)

prop('C33', 'Threads at work at the same time do not disturb each other',
     'Parsing, printing, comparing, hashing, pickling, indexing, searching, '
     'promoting, converting, discovering and validating give in each of '
     'several threads working at once, on data of their own or on the same '
     'datashapes, what they give when done alone, and leave the shared '
     'datashapes as they are.',
     ['schedules', 'inputs'],
     'all interleavings of threads that use datashapes',
     'The tests never start a thread.',
     ['datashape/parser.py', 'datashape/coretypes.py',
      'datashape/discovery.py'],
     [('absence of shared mutable state; late-computed hash and fields',
       'datashape/coretypes.py'), ('parser and lexer state',
                                   'datashape/parser.py')],
     _PBT + 'differential between threads and sequential runs under forced '
     'switching', _TRUST + 'Schedules are sampled.')

prop('C34', 'Types which a user derives behave as the built-in ones do',
     'A class of types derived from the base classes, with or without slots, '
     'as a measure or as a dimension, is compared, hashed, copied, pickled, '
     'rebuilt from its parameters, put into datashapes at any place, printed, '
     'searched and, through a symbol table that knows its constructor, parsed '
     'like a built-in one. Two types are equal exactly if their classes and '
     'parameters are. A class derived from a built-in one counts as it in '
     'predicates, searches and validation.',
     ['inputs', 'configurations'],
     'all parameters of derived types and all places in datashapes',
     'The tests derive no type.',
     ['datashape/coretypes.py', 'datashape/parser.py',
      'datashape/util/testing.py'],
     [('Mono and Unit base classes', 'datashape/coretypes.py')],
     _PBT + 'metamorphic: a derived type in place of a type variable',
     _TRUST)

prop('C35', 'Uniting datashapes gives the narrowest that takes them all',
     'Uniting scalar datashapes gives the narrowest type in the documented '
     'order of types that all of them can turn into, whatever their order and '
     'however often each occurs, optional exactly if there are nulls among '
     'them; records unite field by field, with nulls for fields that are '
     'missing; things that agree but for their first dimension unite to one '
     'of variable length. Where no such type exists there is no union. The '
     'given datashapes stay as they are.',
     ['inputs'],
     'all lists of scalars, nulls, records of these and things with dimensions',
     'The tests unite a dozen lists.',
     ['datashape/discovery.py'],
     [('unite_base, unite_identical, unite_merge_dimensions, '
       'lowest_common_dshape, descendents', 'datashape/discovery.py'),
      ('_toposort, groupby', 'datashape/internal_utils.py')],
     _PBT + 'comparison with a model of the order of types; metamorphic '
     'relations under reordering, doubling and one more null', _TRUST)

prop('C36', 'The work done stays in proportion to what it is done on',
     'Parsing or refusing a text, and printing, laying out, hashing, '
     'comparing, copying, pickling, searching, describing, converting, '
     'concatenating, uniting, discovering and validating, take work that grows no faster than the '
     'square of the size of what they are given, however deeply it is nested '
     'or however wide it is: nothing is tried again at every level.',
     ['inputs'],
     'all texts, datashapes and values made of repeated constructs',
     'The tests are all small; work that doubles with every level shows in '
     'none of them.',
     ['datashape/parser.py', 'datashape/coretypes.py',
      'datashape/discovery.py', 'datashape/util/testing.py'],
     [('backtracking in the recursive descent parser', 'datashape/parser.py'),
      ('recursion of printing, hashing and comparison',
       'datashape/coretypes.py'),
      ('recursion of discovery', 'datashape/discovery.py')],
     _PBT + 'growth of the count of executed lines over three sizes of '
     'generated families', _TRUST + 'Lines run are counted, not seconds, so '
     'the verdict does not depend on the machine.')

prop('C37', 'Results do not depend on the day, the place or the settings',
     'What the library says of a type, a text or a value (how it parses, '
     'prints, is discovered, promoted, converted or validated, or is refused) '
     'is the same on every day, in every time zone and locale, whatever the '
     'environment variables say of terminals and people, for every hash '
     'seed, whatever NumPy is told about errors and printing, and whether or '
     'not Python runs optimised or without docstrings. In particular, '
     'whether a text is a date or a moment is settled by the text alone. '
     'Under -O, assertions are not spoken about.',
     ['inputs', 'configurations'],
     'all datashapes, texts and values; days of this half century, POSIX '
     'time zones, the C locales',
     'Tests run on one day in one place; a text like `31st` or `Feb 29` is '
     'taken for a date on some days only.',
     ['datashape/discovery.py', 'datashape/coretypes.py',
      'datashape/parser.py'],
     [('discovery of texts', 'datashape/discovery.py'),
      ('timeparse, is_zero_time', 'datashape/discovery.py')],
     _PBT + 'differential between processes with other clocks, zones, '
     'locales, seeds and flags',
     _TRUST + 'The clock is faked by a preloaded library, and each process '
     'must first show that it believes it.')

prop('C38', 'The helpers for graphs, groups, names and traversal keep their word',
     'For every graph, the nodes reachable from one are found, cycles are '
     'refused when sorting and without them every node is put before all that '
     'depend on it, and reversing turns every edge around; grouping and '
     'removing keep every element and their order. Every text, written as a '
     'literal, is read back as itself, and a text is an identifier exactly if '
     'it is read as a name. Mapping a function over a datashape calls it once '
     'for each compound part, with what its parts were mapped to.',
     ['inputs'],
     'all finite graphs of hashable nodes, sequences, texts and datashapes',
     'The tests have one graph each; what is found depends on its shape.',
     ['datashape/internal_utils.py', 'datashape/discovery.py',
      'datashape/validation.py'],
     [('_toposort, reverse_dict, groupby, remove, isidentifier, quote',
       'datashape/internal_utils.py'),
      ('descendents', 'datashape/discovery.py'),
      ('traverse', 'datashape/validation.py')],
     _PBT + 'comparison with definitions over generated graphs, sequences, '
     'texts and datashapes', _TRUST)

prop('C39', 'The version tells the state of the source tree',
     'For every state of a source tree (nearest tag or none, commits since, '
     'local changes, the commit itself), the version derived from it has '
     'exactly the form its style documents: a clean tagged commit has the tag '
     'itself, and everything else says how far from it the tree is. An '
     'exported tree takes its version from its tags, an unpacked one from the '
     'name of its directory, and whatever has neither says that it is '
     'unknown. What is built or released from a tree has the version that '
     'the package in the tree has.',
     ['inputs', 'histories'],
     'all histories of commits, tags and local changes; all styles',
     'The one test looks at the version of the tree at hand, in the state '
     'it is in.',
     ['datashape/_version.py', 'versioneer.py'],
     [('git_pieces_from_vcs, git_versions_from_keywords, '
       'versions_from_parentdir, render', 'datashape/_version.py'),
      ('the same, get_versions, write_to_version_file', 'versioneer.py')],
     _PBT + 'comparison with the documented forms, over generated states and '
     'histories of real repositories', _TRUST + 'Real repositories are made '
     'in directories of their own and removed.')

prop('C40', 'Nothing that was given is kept',
     'Working through ever more datashapes, texts and values takes no more '
     'memory than working through a few: what is parsed or refused, built, '
     'compared, printed, promoted, converted, discovered or validated is '
     'given up with its results. Types registered under a name, and classes '
     'of Python, may be kept.',
     ['histories', 'inputs'],
     'all sequences of operations on different datashapes, texts and values',
     'Tests look at one result after the other, and never at what stays '
     'behind.',
     ['datashape/coretypes.py', 'datashape/parser.py',
      'datashape/discovery.py', 'datashape/typesets.py'],
     [('the memory of values under way (discover_once)',
       'datashape/discovery.py'),
      ('tables of types and type sets', 'datashape/typesets.py')],
     _PBT + 'invariant over long rows of operations: the blocks of memory in '
     'use do not grow with their number', _TRUST + 'Memory is counted in '
     'blocks of the allocator after collecting garbage; a bounded cache of a '
     'thousand entries is let pass.')
