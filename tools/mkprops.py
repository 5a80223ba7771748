#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
A = 'algebraixlib/'
MO = [A + 'mathobjects/mathobject.py', A + 'mathobjects/_flags.py', A + 'mathobjects/atom.py',
      A + 'mathobjects/couplet.py', A + 'mathobjects/set.py', A + 'mathobjects/multiset.py']
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    P.append(d)


FLAGSTATE = [('property cache', 'lazily filled and operation-propagated 2-bit classification of every object',
              A + 'mathobjects/_flags.py, ' + A + 'mathobjects/mathobject.py')]

p('P01', 'What an object remembers about itself is always true',
  'At every moment of every history, each classification an object reports as already known (relation, clan, '
  'multiclan, absolute, functional, right-functional, reflexive, symmetric, transitive, regular, right-regular; '
  'known to hold, known not to hold, or not applicable) agrees with the documented definition applied to its contents. '
  'This covers operands and everything nested in operands and results, after any sequence of operations, queries, '
  'imports, user callbacks, refused calls and interruptions.',
  ['histories', 'inputs', 'fault_sequences'],
  'all operation/query histories over all small values, with failing callbacks and interruptions injected',
  'Tests assert a handful of remembered values on fixed fixtures; whether a remembered value is right depends on '
  'what was asked of the operands before the operation ran.',
  MO[:2] + [A + 'algebras/' + f for f in ('sets.py', 'multisets.py', 'relations.py', 'clans.py', 'multiclans.py', 'properties.py')] + [A + 'partition.py', A + 'import_export/csv.py'],
  [('classification propagated by operations', A + 'algebras/*.py, every cache_... call on a result or operand'),
   ('classification recorded by queries', A + 'algebras/properties.py'),
   ('write-once setter', A + 'mathobjects/_flags.py _setter_helper')], FLAGSTATE,
  ['cached_* accessors of every reachable object after every step'])

p('P02', 'Classification queries follow the definitions whatever was asked before',
  'Asking whether an object is a member or an absolute member of an algebra (couplets, sets, relations, clans, multisets, multiclans), or '
  'whether it is functional, right-functional, bijective, reflexive, symmetric, transitive, an equivalence relation, '
  'regular or right-regular, answers exactly what the documented definition says about its contents, or undefined where '
  'the property does not apply to that kind of object. The answer, whether asked through the algebra or generically, never depends on '
  'earlier queries or operations, on the order the object was built in, or on how the object was produced.',
  ['histories', 'inputs'],
  'all query orders over operands that are literals or results of arbitrary operation histories',
  'Every query first trusts a remembered answer, so its result depends on history; tests ask one question of a fresh fixture.',
  [A + 'algebras/' + f for f in ('couplets.py', 'sets.py', 'multisets.py', 'relations.py', 'clans.py', 'multiclans.py', 'properties.py')] + [A + 'structure.py'],
  [('membership', 'is_member / is_absolute_member of each algebra'), ('property queries', A + 'algebras/properties.py'),
   ('ground-set subset tests', A + 'structure.py')], FLAGSTATE)

p('P03', 'Set and multiset operations compute the defined result in any history',
  'Union, intersection, difference, sub- and superstriction, subset and superset tests, generalized union and '
  'intersection, power set, wrapping each element, filtering, single-element extraction, multiset sum and conversions between sets '
  'and multisets return exactly the documented result for the contents of their operands (multiplicities: maximum, minimum, '
  'difference cut at zero, sum), or undefined exactly where documented. This holds for operands with any history, '
  'including operands that are results of other operations or have been queried before, and no such call fails unexpectedly.',
  ['histories', 'inputs'],
  'all histories of operations over small values with shared operands',
  'Results carry remembered state from operands and internal consistency assertions fire depending on it; tests use fresh fixtures.',
  [A + 'algebras/sets.py', A + 'algebras/multisets.py', A + 'mathobjects/set.py', A + 'mathobjects/multiset.py'],
  [('set algebra', A + 'algebras/sets.py'), ('multiset algebra', A + 'algebras/multisets.py')], FLAGSTATE)

p('P04', 'Couplet and relation operations compute the defined result in any history',
  'Transposition, composition, functional and right-functional union, left/right sets, renaming, swapping, filling in '
  'missing lefts, adding a couplet to a function, diagonals, construction from a mapping and restriction to being defined at a left return exactly the '
  'documented result for the contents of their operands, or undefined exactly where documented. This holds for operands '
  'with any history, and no such call fails unexpectedly.',
  ['histories', 'inputs'], 'all histories of operations over small values with shared operands',
  'As P03; relation results are assembled by the generic extension machinery and then labelled from the operands\' remembered state.',
  [A + 'algebras/couplets.py', A + 'algebras/relations.py', A + 'extension.py'],
  [('relation algebra', A + 'algebras/relations.py'), ('extension of operations to sets', A + 'extension.py')], FLAGSTATE)

p('P05', 'Clan operations compute the defined result in any history',
  'Transposition, composition, cross-union, cross-intersection, (left-/right-/lhs-) functional cross-union, cross-sub- and '
  'cross-superstriction, projection, left and right sets, diagonals, construction from values or a mapping, and restriction to being defined at a left '
  'return exactly the documented result for the contents of their operands, or undefined exactly where documented. '
  'This holds for operands with any history, and no such call fails unexpectedly.',
  ['histories', 'inputs'], 'all histories of operations over small values with shared operands',
  'As P03; the clan operations are the query language users build joins and filters from, in long chains.',
  [A + 'algebras/clans.py', A + 'extension.py'], [('clan algebra', A + 'algebras/clans.py')], FLAGSTATE)

p('P06', 'Multiclan operations compute the defined rows and multiplicities',
  'The multiclan versions of transposition, composition, cross-union, cross-intersection, functional cross-unions, '
  'cross-sub- and cross-superstriction, projection, right multiset for a left, left and right sets, diagonals, '
  'construction from a mapping and restriction to being defined at a left return exactly the documented relations with exactly the documented multiplicities (products, '
  'summed over coinciding results; for sub- and superstriction the multiplicity of the first operand), or undefined exactly where documented. This holds '
  'for operands with any history, and no such call fails unexpectedly.',
  ['histories', 'inputs'], 'all histories of operations over small values with shared operands',
  'As P03; multiplicities only go wrong for particular coincidences of results that the fixtures do not contain.',
  [A + 'algebras/multiclans.py', A + 'extension.py'], [('multiclan algebra', A + 'algebras/multiclans.py')], FLAGSTATE)

p('P07', 'No operation ever changes an existing object',
  'Once an object exists, its contents, size, equality, hash value and text never change, whatever operations, queries, exports, lookups, '
  'iterations, callbacks, failures or interruptions it or anything built from it is involved in. Values handed in by the user '
  '(dictionaries, lists, counters, callback arguments) are likewise never modified and never stay linked to the object built from them.',
  ['histories', 'schedules', 'fault_sequences'],
  'all histories of operations and callbacks, interrupted or not',
  'Tests look at results, not at operands afterwards; sharing of internal containers only shows after a later operation.',
  MO + [A + 'algebras/multiclans.py', A + 'extension.py', A + 'partition.py'],
  [('containers held by Set/Multiset', A + 'mathobjects/set.py, ' + A + 'mathobjects/multiset.py'),
   ('results patched after construction', A + 'algebras/multiclans.py substrict/superstrict, ' + A + 'mathobjects/multiset.py __getitem__')])

p('P08', 'Equality, hashing, containment, size and iteration depend on contents only',
  'Two objects are equal exactly when they are of the same kind and have the same contents (atoms: same value type and equal value); '
  'equal objects have equal hashes and are interchangeable as elements, keys and operands, regardless of construction order, route, history, '
  'thread or process. Containment, multiplicity, cardinality and iteration agree with the contents.',
  ['histories', 'inputs', 'configurations', 'schedules'],
  'all construction routes and orders, hash seeds, and histories',
  'Hashes are computed lazily and iteration order follows construction order and hash seed; tests use one order and one seed.',
  MO + [A + 'util/miscellaneous.py'], [('equality and hash', '__eq__/__ne__/__hash__ of Atom, Couplet, Set, Multiset'),
                                     ('hash combination', A + 'util/miscellaneous.py get_hash')],
  [('lazy hash', 'computed on first use and kept', A + 'mathobjects/*.py _hash')])

p('P09', 'Objects shared between threads behave as in a single thread',
  'However operations, queries, lookups, hashing and iteration on shared objects from several threads interleave, every call returns the value it would return '
  'alone, no call fails because of another thread, and afterwards everything the objects remember is true. '
  'The undefined value stays a single object even when several threads need it first at the same time.',
  ['schedules', 'histories'],
  'all interleavings, at source-line granularity, of small per-thread programs over shared objects',
  'The tests are single-threaded.',
  MO + [A + 'undef.py', A + 'algebras/properties.py', A + 'algebras/relations.py', A + 'algebras/clans.py', A + 'algebras/multiclans.py'],
  [('lazy caches written without locks', A + 'mathobjects/mathobject.py cache_..., __hash__, lookup redirects'),
   ('single undefined instance', A + 'undef.py')], FLAGSTATE +
  [('lookup redirect', 'first lookup installs a specialised method on the object', A + 'mathobjects/set.py, ' + A + 'mathobjects/multiset.py')])

p('P10', 'An interrupted or failing operation leaves nothing broken behind',
  'If an operation is cut short at any point (an asynchronous interrupt, memory exhaustion, or an exception raised by a user callback, element iterator or '
  'comparison), that exception reaches the caller, and all objects and library-wide settings are as usable as before: '
  'repeating the operation and any other operation or query then gives the same answers as if the interruption had never happened.',
  ['crash_points', 'fault_sequences', 'histories'],
  'all interruption points (source-line granularity) of all operations, singly and repeatedly',
  'Tests never interrupt an operation or make a callback fail.',
  MO + [A + 'algebras/relations.py', A + 'algebras/clans.py', A + 'extension.py', A + 'partition.py'],
  [('multi-step updates of remembered classifications', A + 'mathobjects/mathobject.py cache_relation, cache_clan, cache_regular'),
   ('user callbacks', A + 'extension.py, ' + A + 'partition.py, ' + A + 'algebras/sets.py restrict')], FLAGSTATE)

p('P11', 'Undefined results follow the global raise level, and only it',
  'For the algebra operations and queries: with the raise level at its default, an undefined outcome (an operand of the wrong kind, an undefined operand, or no result for these operands) is returned as the one undefined value and never raised; at level 1 '
  'a wrong-kind operand raises the undefined exception while an undefined operand still yields the undefined value; at level 2 and above '
  'every undefined outcome raises. Setting or resetting the level takes effect at once for every following call, and no operation changes it, whatever happens during it.',
  ['histories', 'inputs', 'configurations'],
  'all histories mixing operations, undefined or ill-kinded operands in every argument position, and level changes',
  'Tests check level handling on the helper alone and wrong arguments at the default level.',
  [A + 'undef.py'] + [A + 'algebras/' + f for f in ('couplets.py', 'sets.py', 'multisets.py', 'relations.py', 'clans.py', 'multiclans.py', 'properties.py')] + [A + 'extension.py'],
  [('argument checks', 'first lines of every operation (make_or_raise_undef2)'), ('level', A + 'undef.py RaiseOnUndef')],
  [('raise level', 'process-wide integer', A + 'undef.py')])

p('P12', 'CSV import yields exactly the rows of the table, or the error',
  'Importing a CSV table yields the relations given by its non-empty cells (as a set, or with row multiplicities when '
  'duplicate rows are kept; with the requested column names, conversions, skipped rows and index column), classified as regular exactly when all rows have the '
  'same columns. This holds however the input is delivered (path or file, short reads), for imports that are nested in or '
  'interleaved with other imports, and after imports that failed; if reading or a conversion fails, the import raises that error instead of returning a partial table.',
  ['inputs', 'fault_sequences', 'schedules', 'histories'],
  'all small tables and options, with short reads, read errors at any point, failing conversions, and concurrent or nested imports',
  'Tests import intact files one at a time.',
  [A + 'import_export/csv.py', A + 'import_export/_util.py'],
  [('row generator and regularity detection', A + 'import_export/csv.py import_csv')],
  [('function attributes', 'regularity and left cache kept on the function objects, shared by all imports', A + 'import_export/csv.py, ' + A + 'import_export/_util.py')])

p('P13', 'CSV export is complete, or refuses, or raises',
  'Exporting an absolute clan or multiclan writes a header and exactly one line per relation (with multiplicity), with '
  'the requested columns and order, such that importing it back gives the original data; data that cannot be exported is '
  'refused with a false result and without touching the target. If a write, flush or close fails the export raises that error; it never reports success for a '
  'target that is incomplete, and the exported object stays intact.',
  ['inputs', 'fault_sequences', 'crash_points'],
  'all small tables and options, with a failure or crash at any I/O call',
  'Tests export intact tables to a working disk.',
  [A + 'import_export/csv.py', A + 'util/miscellaneous.py'],
  [('row writer', A + 'import_export/csv.py export_csv'), ('file handling', A + 'util/miscellaneous.py write_to_file_or_path')])

p('P14', 'Serialized objects decode to equal objects in another process',
  'Encoding any object built from JSON-compatible atoms, byte strings, complex numbers, ranges, lists, tuples and frozen sets to the library\'s '
  'JSON form and decoding it, in the same or a freshly started process with a different hash seed, yields an equal object of the '
  'same kind with equal hash, multiplicities and value types, on which all queries give the same answers. Decoding a truncated document raises.',
  ['inputs', 'crash_points', 'configurations', 'histories'],
  'all small values, writer/reader process restarts with different hash seeds, truncation at any byte',
  'Tests round-trip a few fixed objects in one process.',
  [A + 'import_export/mojson.py'], [('encode/decode', A + 'import_export/mojson.py')])

p('P15', 'Copied and pickled objects are equal, independent and fully usable',
  'Copying, deep-copying or pickling and unpickling any object, in the same or in a freshly started process with a different hash seed, yields an equal '
  'object with an equal hash, found in the same sets and keys, and all queries and operations on it give the same answers as on the original. '
  'This holds whatever the original had already computed or remembered before.',
  ['inputs', 'histories', 'configurations', 'crash_points'],
  'all small values with any history, process restarts with different hash seeds',
  'No existing test copies or pickles an object.',
  MO, [('object construction and remembered hash', A + 'mathobjects/atom.py, couplet.py, set.py, multiset.py')],
  [('lazy hash', 'depends on the process hash seed, must not travel', A + 'mathobjects/*.py _hash')])

p('P16', 'XML and JSON import represent the whole document, or raise',
  'Importing an XML or JSON document (elements, attributes, text; objects, lists of objects, strings, numbers, booleans) yields the documented relation structure with '
  'every name and value of the document, the same for path and file input and for any chunking of the input. It is '
  'unaffected by other imports running interleaved or having failed before, and a truncated document or failing read raises instead of returning a partial result.',
  ['inputs', 'fault_sequences', 'schedules', 'crash_points'],
  'all small documents, short reads, read errors and truncation at any point, interleaved imports',
  'Tests import three intact files.',
  [A + 'import_export/xml.py', A + 'import_export/json.py', A + 'import_export/_util.py'],
  [('XML walk', A + 'import_export/xml.py import_xml'), ('JSON walk', A + 'import_export/json.py import_json')],
  [('left cache', 'module-wide cache of element names, reset by every import', A + 'import_export/_util.py')])

p('P17', 'RDF import, pattern matching and joins give exactly the matching solutions',
  'Importing an RDF graph yields one triple per statement with subject, predicate and object preserved. Triple matching '
  'returns exactly the bindings of its variables over the matching triples and joining solutions returns exactly their '
  'compatible combinations, independent of triple order, hash seed and earlier queries on the graph, and exporting a solution table writes every solution row.',
  ['inputs', 'histories', 'configurations', 'fault_sequences'],
  'all small graphs, patterns and query sequences; export with I/O faults',
  'Tests match fixed patterns on two fixed graphs.',
  [A + 'import_export/rdf.py', A + 'util/rdf.py', A + 'algebras/clans.py'],
  [('graph conversion', A + 'import_export/rdf.py import_graph'), ('matching and join', A + 'util/rdf.py triple_match, join'),
   ('table export', A + 'import_export/rdf.py export_table')])

p('P18', 'Partitioning and extension apply user functions exactly as defined',
  'Partitioning a set or multiset by a user function puts every element (with its multiplicity) in exactly one part, two '
  'elements in the same part exactly when their labels are equal, with the right label on labelled parts; extending a user function over sets '
  'or multisets collects exactly the defined results with the defined multiplicities. This holds for user functions that '
  'run library operations themselves, return undefined for some elements, or have failed in an earlier attempt.',
  ['histories', 'inputs', 'fault_sequences'],
  'all small inputs and scripted user functions (re-entrant, partly undefined, failing and retried)',
  'Tests use one or two pure lambdas.',
  [A + 'partition.py', A + 'extension.py', A + 'algebras/sets.py'],
  [('partition', A + 'partition.py'), ('extension', A + 'extension.py')])

p('P19', 'Ordering and slicing a multiclan returns exactly the right rows',
  'Ordering a multiclan by a user comparison and taking a window of it returns exactly the rows at the positions offset to '
  'offset+limit-1 of the ordered sequence in which each relation occurs as often as its multiplicity, so that consecutive '
  'windows tile the multiclan. This holds for any offset and limit (zero, beyond the end, infinite; plain or atom numbers), any multiplicities, '
  'and for comparisons that have failed in an earlier attempt.',
  ['inputs', 'histories', 'fault_sequences'],
  'all small multiclans, orders, offsets and limits, comparison failures at any call',
  'Tests use a handful of windows on one multiclan.',
  [A + 'algebras/multiclans.py'], [('ordering and slicing', A + 'algebras/multiclans.py order_slice, order_slice_to_listgen, multiclan_to_listgen, _to_listgen_slice')])

p('P20', 'Text forms identify contents and do not depend on order or process',
  'For objects whose atoms are strings, bytes, booleans and numbers of at most one numeric type, equal objects have the same text and the same evaluable representation whatever the '
  'construction order, history, thread or process hash seed; evaluating the representation gives back an equal object. '
  'Different contents have different representations. For the same objects `<` is a strict total order consistent with equality: '
  'exactly one of a < b, b < a, a == b, the same for equal objects, and sorting by it never puts a larger object first.',
  ['inputs', 'histories', 'configurations'],
  'all small values, construction orders and hash seeds',
  'Tests compare the text of fixed objects in one process.',
  MO, [('ordering used for text', '__lt__ and __repr__/__str__ of Atom, Couplet, Set, Multiset')])

p('P21', 'Looking up lefts by call or subscript always answers from the contents',
  'Applying a function-like relation to a left gives its right, and subscripting a relation, clan, multiset of couplets or multiclan by a left '
  'gives exactly the defined (multi)set of rights; anything else is undefined. The answer is the same on first and repeated use, for plain values and atoms, '
  'and whatever other lookups, queries, failures or raise-level changes happened between.',
  ['histories', 'inputs', 'schedules'],
  'all sequences of lookups, queries and level changes on all small objects',
  'The first lookup replaces the object\'s lookup method, so later answers come from different code than the first; tests look up once.',
  [A + 'mathobjects/set.py', A + 'mathobjects/multiset.py', A + 'algebras/relations.py'],
  [('self-replacing lookup', A + 'mathobjects/set.py _call/_getitem, ' + A + 'mathobjects/multiset.py _getitem')],
  [('lookup redirect', 'bound method chosen on first lookup', A + 'mathobjects/set.py, ' + A + 'mathobjects/multiset.py')])

p('P22', 'File imports and exports release the file on every path',
  'Every library function that opens a file itself (given a path) has closed it when it returns or raises, '
  'whichever read, write, conversion, callback or close failed or was interrupted; a file object supplied by the caller to a CSV, XML or JSON function is left open. '
  'A failed operation does not affect a retry, which then behaves as a first attempt.',
  ['fault_sequences', 'crash_points'],
  'all import/export functions with a fault at any I/O call, callback call or callback-raised interruption',
  'Tests only exercise the path where nothing fails.',
  [A + 'import_export/csv.py', A + 'import_export/xml.py', A + 'import_export/json.py', A + 'import_export/rdf.py', A + 'util/miscellaneous.py'],
  [('file handling', A + 'util/miscellaneous.py write_to_file_or_path, open() calls in import_export/*.py')])

p('P23', 'Timers report elapsed time of the chosen clock and restore the nesting level',
  'A timer reports the time that elapsed on its chosen clock (wall or processor time) between start and the query, '
  'freezes where documented, and is unaffected by the other clock and by other timers. After timers end, in any order and on error paths, the nesting indentation of '
  'trace output is back where it was; ending twice does not change it again.',
  ['histories', 'schedules', 'fault_sequences'],
  'all start/lap/end/exception sequences of nested timers under simulated clocks that jump and stall',
  'The timers read real clocks; tests cannot control them and none cover nesting.',
  [A + 'util/miscellaneous.py'], [('timers', A + 'util/miscellaneous.py FunctionTimer, PerformanceTimer')],
  [('nesting level', 'process-wide counter', A + 'util/miscellaneous.py')])

p('P24', 'Ground sets follow from contents and tell which algebra an object is in',
  'The ground set (structure) of an object depends on its contents only: not on construction order, history, failures, process or hash seed; equal objects '
  'have equal ground sets with equal hash and text. Structures that describe the same set are equal and hash alike, and `==`, `<=`, unions and power set '
  'levels answer as for the described sets (N is only part of N). Empty (multi)sets inside aside, an object\'s ground set is a subset of an '
  'algebra\'s (absolute) ground set exactly if the object is an (absolute) member of that algebra; for the set algebra, multisets aside.',
  ['inputs', 'histories', 'configurations'],
  'all small objects, all small structures in all ways of writing them, and hash seeds',
  'Tests compare a fixed table of structures; unions keep members in a hash order tests cannot vary.',
  [A + 'structure.py'] + MO, [('ground sets', A + 'structure.py; get_ground_set of every object and algebra')])

p('P25', 'LaTeX and HTML renderings show the contents in one settled form',
  'For objects as in the text property, the LaTeX rendering (full or short, under any setting of colors and short lengths) depends on contents only: elements in '
  'order, couplets in parentheses among other elements, multiplicities, and where something is left out an ellipsis with the number of (distinct) elements not shown. '
  'An HTML page (of several things or the simple one of an object) shows title, texts and renderings of what it was given in the given order, escaped, and nothing of earlier pages.',
  ['inputs', 'histories', 'configurations'],
  'all small objects, construction orders, hash seeds and settings',
  'Tests compare a few fixed renderings, none of them short ones of sets with mixed elements.',
  [A + 'util/latexprinter.py', A + 'util/html.py'], [('renderings', A + 'util/latexprinter.py math_object_to_latex; util/html.py math_object_as_html')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, (d['id'], len(d['title']))
        f.write(json.dumps(d) + '\n')
print(len(P))
