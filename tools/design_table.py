# property -> (oracle, bounds, what reaches beyond the tests)
DESIGN = {
'C01': ('parse(print(x)) read off by `model.abs_d` equals the model x was built from; the same for `repr` (evaluated) and `pprint` at random widths',
        'categoricals to 10 categories', 'literals with quotes, backslashes, control and non-BMP characters at every place a literal can stand'),
'C02': ('`refparse.py`: an independent tokenizer and recursive-descent parser written from the grammar document, giving a model or a refusal; compared in both directions',
        'texts to about 60 tokens', 'token-level mutations stay close to the border between accepted and refused'),
'C03': ('outcome is a usable datashape (prints, hashes, re-parses) or SyntaxError/TypeError/ValueError; line, column and line text of the error are recomputed from the position; the message is checked to point under that column',
        'nesting to 40 levels, time limit per case', 'all of Unicode incl. every kind of line break'),
'C04': ('`refparse.tokenize`, compared kind, span and value, and the position of the first failure',
        'texts to 200 characters', 'adjacent tokens, escapes, surrogates, comments'),
'C05': ('metamorphic: two spellings of one model, and two layouts of one token sequence, get the same structure or the same refusal',
        'as C01/C02', 'needs no parser oracle at all, so is independent of C02; comments of any text, also on a last line without an end'),
'C06': ('equality of models against `==`, `!=`, `hash`, sets, dictionaries',
        'pairs that differ in 0-2 places', 'near misses: lookalike texts, abbreviated categoricals, order, option, timezone None/"None"'),
'C07': ('structure, equality, hash and text of the copy; other processes run under another PYTHONHASHSEED',
        'protocols 0-5', 'pickles taken before and after hashing, bare measures, dimensions'),
'C08': ('the type built by plain constructors', 'every node takes its own random route', 'routes are mixed within one type'),
'C09': ('the part is ill-formed by construction; control: the same place accepts a good part',
        'one ill-formed part per type', 'depth and place'),
'C10': ('a Python list of dimensions and a measure', '', 'slices with every sign, generators of dimensions, nested datashapes'),
'C11': ('a model of selection, and NumPy: `np.empty(shape)[index].shape`', 'sizes to 6', 'tuples of indices through records'),
'C12': ('an independent dtype table; `numpy` itself says which conversions are lossless', 'records nested 3 deep', 'offsets, padding, titles, reversed field order, byte order, sub-arrays'),
'C13': ('an independent table and the rule that everything else is TypeError', '', 'all kinds of measure at all depths'),
'C14': ('numpy.result_type through an independent table; symmetry and absorption', 'exhaustive over 30 base types x options, random parameters', 'all pairs'),
'C15': ('hand-written membership tables; Python sets', 'exhaustive for the named sets', 'random sets and signatures'),
'C16': ('predicates defined on the model', '', 'variable dimensions hidden at any depth; homogeneous but for one leaf that prints alike'),
'C17': ('a table of kinds of measure', '', 'every measure under every combination of dimensions and option'),
'C18': ('type of the value; for text an independent reading (numbers, durations, times by regular expressions, dates by dateutil)', '', 'arbitrary text must not raise'),
'C19': ('`values.py`: a second implementation of the documented rules', 'values to about 40 leaves', 'rules interact with nesting'),
'C20': ('a fitting relation between value and datashape, knows no discovery rule', 'as C19', 'independent of C19: would notice a rule that is wrong in both'),
'C21': ('metamorphic relations', 'as C19', 'related values are never tried by tests'),
'C22': ('an independent dtype table', 'up to 4 dimensions', 'strides, byte order, views, records'),
'C23': ('an independent verdict on the model and the value', '', 'values that fit but for one place'),
'C24': ('equality of models after relaxing both', '', 'every combination of flags; the path must lead to a difference'),
'C25': ('tokens of all widths compared through `refparse.tokenize`; a layout checker that walks model and text; the text without limit as reference', 'widths 0-200, percentages of the one line', 'nesting of broken and unbroken parts at the very edge of the width'),
'C26': ('snapshots (structure, text, repr, hash, equality to one made again) of a pool of datashapes after every operation; probes of the predefined names', 'histories to 13 operations', 'aliasing of inputs, shared singletons, caches and registries only show in histories'),
'C27': ('the same observations in three processes with hash seeds 0, 1 and 4242, two of which work through all cases; and a process forked for each case against one that has seen similar cases', '19 observations per case, histories of 2-5 cases', 'dependence on set order or on leftover state (memo tables with keys that confuse 1, True and 1.0, or words that differ in case)'),
'C28': ('the model; tables of spellings', '', 'parts at any depth; near misses of spellings'),
'C29': ('the model with plain types replaced by the table; the arguments written', '', 'tables the library never sees'),
'C30': ('discovery of the original value', 'as C19', 'compositionality of discovery at every place'),
'C31': ('a search of the model', 'lists of up to 3 datashapes', 'parts at every place, outermost matches only'),
'C32': ('a table written from the documentation and the ctypes module; a dictionary', 'exhaustive for predefined names; histories to 8 operations', 'histories with names taken, missing, and classes in between'),
'C33': ('the same observations made sequentially', '2-6 threads, 2-4 jobs', 'forced switches every microsecond; objects whose hash and fields were never computed before'),
'C34': ('the same datashape with a type variable in its place', '7 derived classes', 'derived types at any depth, of any parameters'),
'C35': ('`base`, `merged`: a second implementation of the documented rules on models', 'lists of up to 6 datashapes (12 when doubled)', 'every relation between inputs: order, multiplicity, nulls, measures for datashapes'),
'C36': ('lines run at sizes n, 2n and 4n; the third at most six times the second (quadratic work gives four; observed: 3.5 at most) and some lines', '24 levels, 36 parts', 'random cycles of constructs, so that doubling at one kind of level is found'),
'C37': ('the same observations in this process', 'six other processes; texts of up to 4 fragments', 'all pairs of fragments of dates, on the last days of months of every length'),
'C38': ('reachability by search over pairs; order and cycle by definition; the lexer for names', 'all graphs of up to 3 nodes (4 when thorough), random ones of 9, regular ones of 60', 'all small graphs, every character'),
'C39': ('the forms documented for each style; a count of the operations done', 'histories of up to 7 operations', 'every state in every style; real repositories; what is released from them'),
'C40': ('the count of allocated blocks: fewer than 25 more in one of 15 batches of 100 different items', '1540 items around one random case', 'different names, sizes, texts and types in every place; texts that are refused'),
}
